//! Executes histories of public ruler API calls and records call, arguments and result.
//! usage: ruler-FAMILY IN.ndjson OUT.ndjson [JOBS]
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

pub type Rec = Arc<Mutex<Vec<Value>>>;

/// Run one step, turning a panic into data.
pub fn step(rec: &Rec, input: &Value, f: impl FnOnce() -> Value) {
    let out = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            let msg: String = msg.chars().filter(|c| c.is_ascii()).take(200).collect();
            json!({"r": "panic", "msg": msg})
        }
    };
    rec.lock().unwrap().push(json!({"in": input, "out": out}));
}

fn run_one(fam: fn(&Value, &Rec), hist: &Value, hang: Duration) -> (Value, bool) {
    let rec: Rec = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = mpsc::channel();
    let (r2, h2) = (rec.clone(), hist.clone());
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let ok = catch_unwind(AssertUnwindSafe(|| fam(&h2, &r2))).is_ok();
            let _ = tx.send(ok);
        })
        .unwrap();
    let res = rx.recv_timeout(hang);
    let mut steps = rec.lock().unwrap().clone();
    let mut hung = false;
    match res {
        Ok(true) => (),
        Ok(false) => {
            // a panic outside `step` is a defect of the harness
            eprintln!("harness panic in history {}", hist["id"]);
            std::process::exit(3);
        }
        Err(_) => {
            hung = true;
            let k = steps.len();
            let input = hist["steps"].get(k).cloned().unwrap_or(json!({"op": "?"}));
            steps.push(json!({"in": input, "out": {"r": "hang"}}));
        }
    }
    let mut o = hist.clone();
    o["steps"] = Value::Array(steps);
    (o, hung)
}

pub fn harness(fam: fn(&Value, &Rec)) {
    let args: Vec<String> = std::env::args().collect();
    let inp = std::fs::File::open(&args[1]).expect("input");
    let jobs: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(8);
    let hang = Duration::from_secs(
        std::env::var("HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60),
    );
    let max_hangs: usize =
        std::env::var("MAX_HANGS").ok().and_then(|s| s.parse().ok()).unwrap_or(2);
    if std::env::var("SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let hists: Vec<Value> = std::io::BufReader::new(inp)
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("json"))
        .collect();
    let hists = Arc::new(hists);
    let out = Arc::new(Mutex::new(std::fs::File::create(&args[2]).expect("output")));
    let next = Arc::new(AtomicUsize::new(0));
    let hangs = Arc::new(AtomicUsize::new(0));
    let mut ths = vec![];
    for _ in 0..jobs {
        let (hists, out, next, hangs) = (hists.clone(), out.clone(), next.clone(), hangs.clone());
        ths.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= hists.len() || hangs.load(Ordering::SeqCst) >= max_hangs {
                break;
            }
            let (o, hung) = run_one(fam, &hists[i], hang);
            if hung {
                hangs.fetch_add(1, Ordering::SeqCst);
            }
            let mut f = out.lock().unwrap();
            writeln!(f, "{}", o).unwrap();
            f.flush().unwrap();
        }));
    }
    for t in ths {
        t.join().unwrap();
    }
    std::process::exit(0);
}

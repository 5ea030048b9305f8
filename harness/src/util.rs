use ruler::enumo::{Metric, Sexp};
use serde_json::{json, Value};

/// JSON s-expressions: atom x = ["x"], list = ["(", kids...]
pub fn text(v: &Value) -> String {
    let a = v.as_array().expect("sexp");
    let h = a[0].as_str().expect("head");
    if h == "(" {
        let ks: Vec<String> = a[1..].iter().map(text).collect();
        format!("({})", ks.join(" "))
    } else {
        h.to_string()
    }
}
pub fn sexp_json(s: &Sexp) -> Value {
    match s {
        Sexp::Atom(x) => json!([x]),
        Sexp::List(l) => {
            let mut v = vec![json!("(")];
            v.extend(l.iter().map(sexp_json));
            Value::Array(v)
        }
    }
}
pub fn mk_sexp(v: &Value) -> Sexp {
    let a = v.as_array().expect("sexp");
    let h = a[0].as_str().expect("head");
    if h == "(" {
        Sexp::List(a[1..].iter().map(mk_sexp).collect())
    } else {
        Sexp::Atom(h.to_string())
    }
}
/// pattern JSON: ["*"], ["?","x"], ["=","x"], ["(", ...]
pub fn pat_text(v: &Value) -> String {
    let a = v.as_array().expect("pat");
    match a[0].as_str().unwrap() {
        "*" => "*".into(),
        "?" => format!("?{}", a[1].as_str().unwrap()),
        "=" => a[1].as_str().unwrap().into(),
        _ => {
            let ks: Vec<String> = a[1..].iter().map(pat_text).collect();
            format!("({})", ks.join(" "))
        }
    }
}
pub fn metric(v: &Value) -> Metric {
    match v.as_str().unwrap() {
        "Atoms" => Metric::Atoms,
        "Lists" => Metric::Lists,
        _ => Metric::Depth,
    }
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap()
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
pub fn chars(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c.to_string())).collect())
}
pub fn unchars(v: &Value) -> String {
    arr(v).iter().map(st).collect()
}
/// a private scratch file, removed by the caller
pub fn scratch(tag: &str) -> String {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let dir = std::env::var("SCRATCH").unwrap_or_else(|_| "/tmp".into());
    format!("{}/{}-{}-{}", dir, tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst))
}
/// parse a printed s-expression (own parser: atoms are runs of non-blank, non-paren chars)
pub fn parse_json(s: &str) -> Value {
    let mut stack: Vec<Vec<Value>> = vec![vec![]];
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() {
                stack.last_mut().unwrap().push(json!([cur]));
                cur = String::new();
            }
            if c == '(' {
                stack.push(vec![json!("(")]);
            } else if c == ')' {
                if stack.len() > 1 {
                    let v = stack.pop().unwrap();
                    stack.last_mut().unwrap().push(Value::Array(v));
                }
            }
        } else {
            cur.push(c);
        }
    }
    stack[0].get(0).cloned().unwrap_or(json!(["(ERR"]))
}
/// term format of the e-graph families: [op, kids...], a leaf is [op]
pub fn e_text(v: &Value) -> String {
    let a = v.as_array().expect("term");
    if a.len() == 1 {
        a[0].as_str().expect("op").to_string()
    } else {
        let ks: Vec<String> = a[1..].iter().map(e_text).collect();
        format!("({} {})", a[0].as_str().expect("op"), ks.join(" "))
    }
}
fn to_e(v: &Value) -> Value {
    let a = v.as_array().unwrap();
    if a[0] == json!("(") {
        let mut o = vec![a.get(1).map(|h| h[0].clone()).unwrap_or(json!("(EMPTY"))];
        o.extend(a.iter().skip(2).map(to_e));
        Value::Array(o)
    } else {
        v.clone()
    }
}
pub fn parse_e(s: &str) -> Value {
    to_e(&parse_json(s))
}
/// least significant bit first
pub fn bits(x: u128, n: usize) -> Value {
    Value::Array((0..n).map(|i| json!(((x >> i) & 1) as u8)).collect())
}
pub fn unbits(v: &Value) -> u128 {
    arr(v).iter().enumerate().fold(0, |a, (i, b)| a | ((us(b) as u128) << i))
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// what `f` writes to standard output, line by line (single-threaded runs only)
pub fn printed(f: impl FnOnce()) -> Vec<String> {
    use std::io::Write;
    use std::os::unix::io::AsRawFd;
    let name = scratch("out");
    let file = std::fs::File::create(&name).expect("scratch file");
    std::io::stdout().flush().unwrap();
    let saved = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1) };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    std::io::stdout().flush().unwrap();
    unsafe {
        dup2(saved, 1);
        close(saved);
    }
    drop(file);
    let text = std::fs::read_to_string(&name).expect("scratch file");
    let _ = std::fs::remove_file(&name);
    if let Err(e) = res {
        std::panic::resume_unwind(e);
    }
    text.lines().map(|l| l.to_string()).collect()
}

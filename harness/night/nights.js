// nights.js IN OUT : runs the nightly script of ../../../repo in scratch checkouts, as an unprivileged user, with
// stand-ins for cargo and the upload command, and records what was uploaded.
const fs = require("fs"), path = require("path"), vm = require("vm"), os = require("os");
const { spawn } = require("child_process");
const REPO = path.join(__dirname, "../../../repo");
const UID = 65534;
const CARGO = `#!/bin/bash
# the tests: every row is appended to the data file, as the report writer does
[ "$1" = test ] || exit 0
while [ ! -f Cargo.toml ]; do [ "$PWD" = / ] && exit 101; cd ..; done
cap=; one=; prev=
for a in "$@"; do
  case "$a" in --nocapture|--show-output) cap=1;; --test-threads=1) one=1;; 1) [ "$prev" = --test-threads ] && one=1;; esac
  prev="$a"
done
[ "$RUST_TEST_THREADS" = 1 ] && one=1
[ "$N_TEST" = early ] && exit 101
[ -n "$cap" ] && cat "$N_IN/log"
f=nightly/data/output.json
i=0
if [ "$N_TEST" != nodata ]; then
  mkdir -p nightly/data
  [ -f "$N_IN/extra" ] && cp "$N_IN/extra" "nightly/data/$(cat "$N_IN/extra.name")"
  while read -r row; do
    i=$((i+1))
    # tests that run at the same time overwrite each other's rows
    [ -z "$one" ] && [ $i = 2 ] && continue
    if [ -s $f ]; then old=$(head -n -1 $f); printf '%s\\n,%s\\n]' "$old" "$row" > $f; else printf '[\\n%s\\n]' "$row" > $f; fi
    [ "$N_TEST" = killed ] && kill -9 0
  done < "$N_IN/rows"
fi
[ "$N_TEST" = killed ] && kill -9 0
[ "$N_TEST" = late ] && exit 101
exit 0
`;
const UPLOAD = `#!/bin/bash
[ "$1" = publish ] || exit 2
shift
while [ $# -gt 0 ]; do case "$1" in --name) name="$2"; shift 2;; --name=*) name="\${1#--name=}"; shift;; *) d="$1"; shift;; esac; done
k=$(ls "$N_OUT" | grep -c '^p')
mkdir "$N_OUT/p$k" && cp -r "$d" "$N_OUT/p$k/files" && printf '%s' "$name" > "$N_OUT/p$k/name"
[ "$N_PUB" = killed ] && kill -9 0
[ "$N_PUB" = fail ] && exit 1
exit 0
`;
const run = (cmd, args, opt) =>
  new Promise((res) => {
    const p = spawn(cmd, args, Object.assign({ stdio: "ignore", uid: UID, gid: UID, detached: true }, opt));
    const t = setTimeout(() => { try { process.kill(-p.pid, "SIGKILL"); } catch (e) {} res("hang"); }, 60000);
    p.on("error", (e) => { clearTimeout(t); res("error " + e.message); });
    p.on("close", (c) => { clearTimeout(t); res(c); });
  });
function walk(d, base = "") {
  let o = [];
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    const r = base ? base + "/" + e.name : e.name;
    o = o.concat(e.isDirectory() ? walk(path.join(d, e.name), r) : [r]);
  }
  return o;
}
const rowsOf = (f) => { try { return f().map((r) => r.n); } catch (e) { return ["unreadable"]; } };
function artifact(dir, co, branch, commit, t0) {
  const D = path.join(dir, "files");
  const files = walk(D);
  const read = (f) => (files.includes(f) ? fs.readFileSync(path.join(D, f), "utf8") : null);
  const res = walk(path.join(co, "infra/nightly-resources"));
  const pages = res.every((f) => read(f) === fs.readFileSync(path.join(REPO, "infra/nightly-resources", f), "utf8"));
  const name = fs.readFileSync(path.join(dir, "name"), "utf8").split(":");
  const js = () => JSON.parse(vm.runInNewContext(read("data/output.js") + "\n;JSON.stringify(data)"));
  const known = new Set([...res, "log.txt", "data/output.json", "data/output.js"]);
  return {
    name: name.length === 4 && +name[0] >= t0 - 1 && +name[0] <= Date.now() / 1000 + 1 && name[1] === os.hostname() && name[2] === branch && name[3] === commit.slice(0, 10),
    log: read("log.txt") === null ? ["none"] : read("log.txt").split("\n").filter((x) => x.startsWith("log ")).map((x) => x.slice(4)),
    json: rowsOf(() => JSON.parse(read("data/output.json"))),
    js: rowsOf(js),
    pages,
    more: files.filter((f) => !known.has(f)).sort().map((f) => f + "=" + read(f).trim()),
  };
}
async function history(h) {
  const top = fs.mkdtempSync("/tmp/ruler-night-");
  const sub = (x) => path.join(top, x);
  const out = [];
  try {
    for (const d of ["co", "bin", "home", "links", "links/deep"]) fs.mkdirSync(sub(d));
    const co = sub("co");
    fs.cpSync(path.join(REPO, "infra"), path.join(co, "infra"), { recursive: true });
    for (const f of ["Makefile", "Cargo.toml"]) fs.copyFileSync(path.join(REPO, f), path.join(co, f));
    fs.writeFileSync(path.join(co, ".gitignore"), "nightly\nlog.txt\n");
    fs.writeFileSync(sub("bin/cargo"), CARGO, { mode: 0o755 });
    fs.writeFileSync(sub("bin/nightly-results"), UPLOAD, { mode: 0o755 });
    fs.symlinkSync(path.join(co, "infra/nightly.sh"), sub("links/abs"));
    fs.symlinkSync("../../co/infra/nightly.sh", sub("links/deep/rel"));
    const own = (p) => { fs.lchownSync(p, UID, UID); if (fs.lstatSync(p).isDirectory()) fs.readdirSync(p).forEach((e) => own(path.join(p, e))); };
    fs.chmodSync(top, 0o755);
    own(co); own(sub("home")); own(sub("links"));
    const branch = h.branch || "main";
    const env = { PATH: sub("bin") + ":/usr/local/bin:/usr/bin:/bin", HOME: sub("home"), GIT_CONFIG_NOSYSTEM: "1", LC_ALL: "C",
                  GIT_AUTHOR_NAME: "n", GIT_AUTHOR_EMAIL: "n@n", GIT_COMMITTER_NAME: "n", GIT_COMMITTER_EMAIL: "n@n" };
    const g = await run("/bin/bash", ["-c", `git init -q -b ${branch} && git add -A && git commit -qm one && git rev-parse HEAD > ../home/head`], { cwd: co, env });
    if (g !== 0) throw new Error("no checkout: " + g);
    const commit = fs.readFileSync(sub("home/head"), "utf8").trim();
    let k = 0;
    for (const s of h.steps) {
      k += 1;
      const IN = sub("in" + k), OUT = sub("out" + k);
      fs.mkdirSync(IN); fs.mkdirSync(OUT); fs.chownSync(OUT, UID, UID);
      fs.writeFileSync(path.join(IN, "log"), s.log.map((x) => "log " + x + "\n").join(""));
      fs.writeFileSync(path.join(IN, "rows"), s.rows.map((n) => JSON.stringify({ TYPE: "baseline", n, text: "</script> \u2028 \\ \" ' `" }) + "\n").join(""));
      if (s.extra !== "") { fs.writeFileSync(path.join(IN, "extra"), s.extra); fs.writeFileSync(path.join(IN, "extra.name"), s.extra + ".txt"); }
      const e = Object.assign({ N_TEST: s.test, N_PUB: s.pub, N_IN: IN, N_OUT: OUT }, env);
      const t0 = Date.now() / 1000;
      const cwd = { top: co, make: co, infra: path.join(co, "infra"), far: sub("home"), abs: sub("home"), rel: sub("links") }[s.way];
      const args = { top: ["infra/nightly.sh"], infra: ["nightly.sh"], far: [path.join(co, "infra/nightly.sh")], abs: [sub("links/abs")], rel: ["deep/rel"] }[s.way];
      const c = s.way === "make" ? await run("/usr/bin/make", ["nightly"], { cwd, env: e }) : await run("/bin/bash", args, { cwd, env: e });
      if (c === "hang") { out.push({ in: s, out: { r: "hang" } }); break; }
      if (typeof c === "string") throw new Error(c);
      const pubs = fs.readdirSync(OUT).sort().map((p) => artifact(path.join(OUT, p), co, branch, commit, t0));
      out.push({ in: s, out: { r: "ok", good: c === 0, pubs } });
    }
  } finally {
    fs.rmSync(top, { recursive: true, force: true });
  }
  return Object.assign({}, h, { steps: out });
}
async function main() {
  const hs = fs.readFileSync(process.argv[2], "utf8").split("\n").filter((x) => x).map((x) => JSON.parse(x));
  const fd = fs.openSync(process.argv[3], "w");
  let i = 0;
  const worker = async () => { while (i < hs.length) { const h = hs[i++]; fs.writeSync(fd, JSON.stringify(await history(h)) + "\n"); } };
  await Promise.all(Array.from({ length: Math.max(1, +process.argv[4] || 8) }, worker));
}
main().catch((e) => { console.error(e); process.exit(3); });

// pages.js IN OUT : opens the nightly report pages of ../../../repo in a minimal browser and
// records what they show.  A page is its HTML file; its scripts run in order in a fresh context.
const fs = require("fs"), path = require("path"), vm = require("vm");
const DIR = path.join(__dirname, "../../../repo/infra/nightly-resources");
const ENT = { lt: "<", gt: ">", amp: "&", quot: '"', nbsp: " " };
const decode = (s) =>
  s.replace(/&(#\d+|#x[0-9a-fA-F]+|\w+);/g, (m, e) =>
    e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : ENT[e] ?? m);
// as browsers do: only "<" followed by a letter (or "/" and a letter) starts a tag
const TAG = /<\/?[a-zA-Z][^>]*>/g;
const text = (s) => decode(String(s).replace(TAG, "")).trim();
const lines = (s) => String(s).split(/<br\s*\/?>/i).map(text);
function attrs(tag) {
  const o = {};
  for (const m of tag.matchAll(/([a-zA-Z]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) o[m[1].toLowerCase()] = decode(m[2] ?? m[3]);
  return o;
}
const tags = (html, name) => [...html.matchAll(new RegExp(`<${name}\\b[^>]*>`, "gi"))].map((m) => attrs(m[0]));
const between = (html, name) => [...html.matchAll(new RegExp(`<${name}\\b[^>]*>([\\s\\S]*?)</${name}>`, "gi"))].map((m) => m[1]);
function table(html) {
  if (!/<table/i.test(html)) return null;
  const trs = between(html, "tr");
  const head = between(trs[0] ?? "", "th").map(text);
  const rows = trs.slice(head.length || /<th\b/i.test(trs[0] ?? "") ? 1 : 0).map((t) => between(t, "td").map(lines));
  return { head, rows };
}
// what a real browser has and this one lacks is no fault of the pages
class Unsupported extends Error {}
const unsupported = (x) => { throw new Unsupported(x); };
const known = (o, name) => new Proxy(o, { get: (t, k) => (k in t || typeof k === "symbol" ? t[k] : unsupported(name + "." + String(k))) });
const escape = (s) => String(s).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
function element() {
  return known({
    innerHTML: "", style: {}, id: "", className: "",
    set textContent(s) { this.innerHTML = escape(s); }, get textContent() { return text(this.innerHTML); },
    set innerText(s) { this.innerHTML = escape(s); }, get innerText() { return text(this.innerHTML); },
    insertAdjacentHTML(where, s) { this.innerHTML = where === "afterbegin" ? s + this.innerHTML : this.innerHTML + s; },
    replaceChildren() { this.innerHTML = ""; },
  }, "element");
}
const BROWSER = /^(setTimeout|setInterval|fetch|localStorage|sessionStorage|history|navigator|requestAnimationFrame|HTMLElement|DOMParser|XMLHttpRequest|URL|customElements|Node) is not defined/;
function open(url, json) {
  const [file, query] = url.split("?");
  const html = fs.readFileSync(path.join(DIR, file), "utf8");
  const els = {};
  for (const m of html.matchAll(/<[a-zA-Z][^>]*>/g)) {
    const id = attrs(m[0]).id;
    if (id !== undefined) els[id] = element();
  }
  const document = known({ getElementById: (i) => els[i] ?? null, querySelector: (q) => (/^#[\w-]+$/.test(q) ? els[q.slice(1)] ?? null : unsupported("querySelector " + q)), addEventListener: on, title: "" }, "document");
  const later = [];
  function on(e, f) { if (e === "load" || e === "DOMContentLoaded") later.push(f); else unsupported("event " + e); }
  const location = { search: query === undefined ? "" : "?" + query };
  const ctx = vm.createContext({ document, location, URLSearchParams, console: { log() {}, error() {}, warn() {} }, addEventListener: on });
  vm.runInContext("var window = this, self = this;", ctx);
  for (const s of tags(html, "script"))
    vm.runInContext(s.src === "data/output.js" ? "var data = \n" + json : fs.readFileSync(path.join(DIR, s.src), "utf8"), ctx, { timeout: 20000 });
  for (const b of tags(html, "body")) if (b.onload) vm.runInContext(b.onload, ctx, { timeout: 20000 });
  for (const f of later) f();
  if (typeof ctx.onload === "function") ctx.onload();
  return { html, els, ctx };
}
// the k-th recorded domain of the index page: its name and its links by text
function domains(page) {
  return between(page.els.detail.innerHTML, "p").map((p) => ({
    name: text(p.split(/<a\b/i)[0]).replace(/:$/, "").trim(),
    links: Object.fromEntries([...p.matchAll(/(<a\b[^>]*>)([\s\S]*?)<\/a>/gi)].map((m) => [text(m[2]), attrs(m[1]).href])),
  }));
}
const rule = (r) => r[0] + " ==> " + r[1];
const split = (d) => ({ can: d.can.map(rule), cannot: d.cannot.map(rule), time: d.time / 1000 });
function ders(row, dir) {
  const o = {};
  for (const d of row.der) if (d.dir === dir) o[d.ty] = Object.assign(dir === "-" ? {} : { derive_type: d.ty === "lhs" ? "Lhs" : "LhsAndRhs" }, split(d));
  return o;
}
function concrete(r) {
  const rules = r.rules.map(rule), time = r.time / 1000;
  if (r.ty === "baseline")
    return { TYPE: r.ty, baseline_name: r.base, derivability: { baseline_derives_enumo: ders(r, "baseline_derives_enumo"), enumo_derives_baseline: ders(r, "enumo_derives_baseline") },
             loc: r.loc, rules, spec_name: r.spec, time };
  if (r.ty === "bv")
    return { TYPE: r.ty, derivability: ders(r, "-"), direct_gen: { rules, time }, domain: r.domain,
             from_bv4: { rules: r.sound.map(rule), time: r.vt / 1000 } };
  return { TYPE: r.ty, phase1: r.ph[0], phase2: r.ph[1], phase3: r.ph[2], rules, time };
}
const NONE = { head: [], rows: [] };
function run(h) {
  let json = "[]", page = null, index = null;
  const out = [];
  for (const s of h.steps) {
    let o;
    try {
      if (s.op === "data") {
        json = JSON.stringify(s.rows.map(concrete), null, 2);
        page = index = null;
        o = {};
      } else if (s.op === "index") {
        page = index = open("index.html", json);
        o = { tables: ["baseline_table", "herbie_table", "halide_table"].map((i) => table(page.els[i].innerHTML) ?? NONE),
              names: domains(page).map((d) => d.name) };
      } else if (s.op === "follow") {
        index = index ?? open("index.html", json);
        const d = domains(index)[s.i - 1];
        page = open(d.links[s.p === "rules" ? "All Rules" : "Derivability"], json);
        o = { name: text(page.els.domain_name.innerHTML) };
        if (s.p === "rules") o.list = lines(page.els.all_rules.innerHTML);
        else o.tables = ["lhs_table", "lhs_rhs_table"].map((i) => table(page.els[i].innerHTML) ?? NONE);
      } else if (s.op === "bv" || s.op === "ff") {
        page = open(s.op + ".html", json);
        o = { tables: [table(page.els.container.innerHTML) ?? NONE] };
      } else if (s.op === "click") {
        const b = tags(page.html, "button").find((b) => b.onclick.includes("'" + s.n + "'"));
        vm.runInContext(b.onclick, page.ctx, { timeout: 20000 });
        const l = page.els.latex.innerHTML;
        const body = l.slice(l.indexOf("\\cline"), l.indexOf("\\end{tabular}")).split("\n").slice(1).filter((x) => x.trim() !== "");
        o = { tex: body.map((x) => x.replace(/\\\\\s*$/, "").split(" & ").map((c) => c.replace(/\s*,\s*/g, ", ").trim())), name: (/\\label\{table:([^}]*)\}/.exec(l) ?? ["", ""])[1] };
      } else throw new Error("op");
      o.r = "ok";
    } catch (e) {
      if (e instanceof Unsupported || BROWSER.test(e && e.message)) {
        console.error("not supported here: " + e.message);
        process.exit(3);
      }
      o = { r: "panic", msg: String(e && e.stack || e).slice(0, 300) };
    }
    out.push({ in: s, out: o });
  }
  return Object.assign({}, h, { steps: out });
}
const [, , fi, fo] = process.argv;
const res = fs.readFileSync(fi, "utf8").split("\n").filter((l) => l).map((l) => JSON.stringify(run(JSON.parse(l))));
fs.writeFileSync(fo, res.join("\n") + "\n");

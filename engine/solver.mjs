// Synchronous persistent SMT solver process through FIFOs.
import { spawn, execFileSync } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { smt, symsOf, ufSymbol, not, FALSE, TRUE } from "./term.mjs";

const sleepBuf = new Int32Array(new SharedArrayBuffer(4));
const nap = (ms) => Atomics.wait(sleepBuf, 0, 0, ms);
let tmpDir = null;
const live = new Set();
process.on("exit", () => {
  for (const s of live) try { s.child.kill("SIGKILL"); } catch {}
  if (tmpDir) try { fs.rmSync(tmpDir, { recursive: true, force: true }); } catch {}
});

class Proc {
  constructor(cmd, args) { this.cmd = cmd; this.args = args; this.start(); }
  start() {
    tmpDir ??= fs.mkdtempSync(path.join(os.tmpdir(), "vsolver-"));
    const base = path.join(tmpDir, `s${Math.random().toString(36).slice(2)}`);
    execFileSync("mkfifo", [base + ".in", base + ".out"]);
    // open both ends RDWR so open() never blocks
    this.inFd = fs.openSync(base + ".in", fs.constants.O_RDWR);
    this.outFd = fs.openSync(base + ".out", fs.constants.O_RDWR | fs.constants.O_NONBLOCK);
    const childOut = fs.openSync(base + ".out", fs.constants.O_WRONLY);
    const childIn = fs.openSync(base + ".in", fs.constants.O_RDONLY);
    this.child = spawn(this.cmd, this.args, { stdio: [childIn, childOut, childOut] });
    this.child.on("error", () => {});
    this.child.unref();
    fs.closeSync(childOut); fs.closeSync(childIn);
    this.buf = "";
    live.add(this);
  }
  kill() {
    try { this.child.kill("SIGKILL"); } catch {}
    try { fs.closeSync(this.inFd); fs.closeSync(this.outFd); } catch {}
    live.delete(this);
  }
  send(text) {
    const b = Buffer.from(text);
    let off = 0;
    while (off < b.length) off += fs.writeSync(this.inFd, b, off, Math.min(b.length - off, 32768));
  }
  // read until a marker line, or deadline
  readUntil(marker, ms) {
    const end = Date.now() + ms;
    const chunk = Buffer.alloc(65536);
    let spin = 0;
    for (;;) {
      const i = this.buf.indexOf(marker);
      if (i >= 0) { const r = this.buf.slice(0, i); this.buf = this.buf.slice(i + marker.length + 1); return r; }
      let n = 0;
      try { n = fs.readSync(this.outFd, chunk, 0, chunk.length, null); } catch (e) { if (e.code !== "EAGAIN") throw e; }
      if (n > 0) { this.buf += chunk.toString("utf8", 0, n); continue; }
      if (Date.now() > end) return null;
      nap(spin++ < 200 ? 0.05 : 1);
    }
  }
}

export class Solver {
  constructor(opts = {}) {
    this.timeout = opts.timeout ?? 3000;
    this.stats = { queries: 0, cacheHits: 0, ms: 0, unknown: 0, restarts: 0, byBackend: {} };
    this.cache = new Map();
    this.soft = new Set();
    this.procs = {};
  }
  proc(name) {
    if (!this.procs[name]) {
      const p = name === "cvc5" ? ["cvc5", ["--incremental", "--strings-exp", "--produce-models", "-q"]] : [name, ["-in"]];
      this.procs[name] = new Proc(...p);
    }
    return this.procs[name];
  }
  close() { for (const p of Object.values(this.procs)) p.kill(); this.procs = {}; }
  script(asserts) {
    const decls = new Map();
    for (const a of asserts) for (const [k, t] of symsOf(a)) decls.set(k, t);
    let out = "";
    let atom = false;
    for (const [k, t] of decls) {
      if (t.sort === "Atom" || t.args.some((a) => a.sort === "Atom")) atom = true;
      out += `(declare-fun ${k} (${t.args.map((a) => a.sort).join(" ")}) ${t.sort})\n`;
    }
    if (atom) out = "(declare-sort Atom 0)\n" + out;
    for (const a of asserts) out += `(assert ${smt(a)})\n`;
    return out;
  }
  run(backend, asserts, timeout, getValues, fresh = false) {
    const p = this.proc(backend);
    const t0 = Date.now();
    let text = backend === "cvc5" ? `(reset)\n(set-option :tlimit-per ${timeout})\n(set-option :produce-models true)\n(set-logic ALL)\n` : (fresh ? "(reset)\n" : "") + `(set-option :timeout ${timeout})\n(push)\n`;
    text += this.script(asserts) + "(check-sat)\n";
    text += '(echo "@@END")\n';
    p.send(text);
    let out = p.readUntil("@@END", timeout + 1500);
    this.stats.queries++;
    this.stats.byBackend[backend] = (this.stats.byBackend[backend] ?? 0) + 1;
    this.lastOutput = out;
    if (out === null) {
      p.kill(); delete this.procs[backend]; this.stats.restarts++;
      this.stats.ms += Date.now() - t0;
      return { r: "unknown", why: "hard timeout" };
    }
    const lines = out.replace(/"\s*$/, "").trim().split("\n").map((l) => l.trim());
    const r = lines.find((l) => l === "sat" || l === "unsat" || l === "unknown");
    const err = lines.find((l) => l.startsWith("(error"));
    if (err && process.env.VDEBUG) console.error("SMT error", err, "\n", text);
    let model;
    if (r === "sat" && getValues && getValues.length) {
      // declare any symbols missing is not possible post check-sat; callers pass only used terms
      p.send(`(get-value (${getValues.map(smt).join(" ")}))\n(echo "@@END")\n`);
      model = p.readUntil("@@END", 3000);
    }
    if (backend !== "cvc5") p.send("(pop)\n");
    this.stats.ms += Date.now() - t0;
    if (process.env.VSLOW && Date.now() - t0 > Number(process.env.VSLOW)) console.error(`SLOW ${Date.now() - t0}ms ${r}\n${text}`);
    if (err && !r) return { r: "unknown", why: err };
    if (err) return { r: "unknown", why: err };
    return { r: r ?? "unknown", model, why: r ? undefined : out };
  }
  // satisfiability of conjunction
  sat(asserts, opts = {}) {
    const set = [...new Set(asserts.filter((a) => a !== TRUE))];
    if (set.some((a) => a === FALSE)) return "unsat";
    if (set.length === 0) return "sat";
    const key = set.map((a) => a.id).sort((x, y) => x - y).join(",");
    if (this.cache.has(key)) { this.stats.cacheHits++; return this.cache.get(key); }
    if (!opts.hard && this.soft.has(key)) { this.stats.cacheHits++; return "unknown"; }
    // many undecided branch conditions: spend less on each (an undecided branch is explored both ways)
    const timeout = opts.timeout ?? (opts.hard ? this.timeout : Math.max(250, this.timeout / (1 + this.soft.size / 4)));
    let res = this.run("z3-new", set, timeout);

    if (res.r === "unknown" && opts.hard) {
      res = this.run("z3-new", set, timeout, null, true);
    }
    if (res.r === "unknown" && opts.hard) {
      res = this.run("cvc5", set, timeout);
      if (res.r === "unknown") res = this.run("z3", set, timeout);
    }
    if (res.r === "unknown") this.stats.unknown++;
    this.lastWhy = res.why;
    if (res.r !== "unknown" || opts.hard) this.cache.set(key, res.r); else this.soft.add(key);
    return res.r;
  }
  model(asserts, terms, timeout = 3000) {
    const extra = terms.filter((t) => t.sort !== "Bool").map((t) => t);
    // make sure every symbol is declared by asserting trivial self equality via raw text
    const set = [...new Set(asserts)];
    const decl = new Map();
    for (const a of set) for (const [k] of symsOf(a)) decl.set(k, 1);
    const usable = terms.filter((t) => [...symsOf(t).keys()].every((k) => decl.has(k)));
    for (const b of ["z3-new", "cvc5"]) {
      const r = this.run(b, set, timeout, usable);
      if (r.r === "sat" && r.model) return { terms: usable, values: parseValues(r.model) };
      if (r.r === "unsat") return null;
    }
    return null;
  }
}
// relevant slice of pc for a goal term (transitively sharing symbols)
export function slice(pc, goals) {
  const want = new Set();
  for (const g of goals) for (const k of symsOf(g).keys()) want.add(k);
  const used = new Set();
  let changed = true;
  while (changed) {
    changed = false;
    for (const a of pc) {
      if (used.has(a)) continue;
      const s = symsOf(a);
      let hit = false;
      for (const k of s.keys()) if (want.has(k)) { hit = true; break; }
      if (hit) { used.add(a); for (const k of s.keys()) want.add(k); changed = true; }
    }
  }
  return pc.filter((a) => used.has(a));
}
// parse (get-value) response into list of JS values (aligned)
export function parseValues(text) {
  let i = 0;
  const s = text;
  const ws = () => { while (i < s.length && /\s/.test(s[i])) i++; };
  function node() {
    ws();
    if (s[i] === "(") {
      i++; const l = [];
      for (;;) { ws(); if (i >= s.length) return l; if (s[i] === ")") { i++; return l; } l.push(node()); }
    }
    if (s[i] === '"') {
      let o = ""; i++;
      for (;;) {
        if (i >= s.length) break;
        if (s[i] === '"') { if (s[i + 1] === '"') { o += '"'; i += 2; continue; } i++; break; }
        o += s[i++];
      }
      return { str: o.replace(/\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})/g, (_, a, b, c) => String.fromCodePoint(parseInt(a ?? b ?? c, 16))) };
    }
    if (s[i] === "|") { const j = s.indexOf("|", i + 1); const r = s.slice(i, j + 1); i = j + 1; return r; }
    let j = i; while (j < s.length && !/[\s()]/.test(s[j])) j++;
    const r = s.slice(i, j); i = j === i ? i + 1 : j; return r;
  }
  const top = node();
  const val = (n) => {
    if (n && n.str !== undefined) return n.str;
    if (Array.isArray(n)) {
      if (n[0] === "-" && n.length === 2) return -val(n[1]);
      if (n[0] === "/") return val(n[1]) / val(n[2]);
      return undefined;
    }
    if (n === "true") return true;
    if (n === "false") return false;
    const x = Number(n);
    return Number.isNaN(x) ? n : x;
  };
  return top.map((p) => val(p[p.length - 1]));
}

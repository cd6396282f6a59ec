// Random input plans from shape descriptors (seeded), and regex-guided strings.
import { S, jsonAlts } from "./shapes.mjs";
export function rng(seed) { let a = seed >>> 0; return () => { a = (a + 0x6d2b79f5) >>> 0; let t = a; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }; }
export class Gen {
  constructor(seed, pool) { this.r = rng(seed); this.pool = pool ?? { strings: [], numbers: [] }; }
  int(n) { return Math.floor(this.r() * n); }
  pick(a) { return a[this.int(a.length)]; }
  bool(p = 0.5) { return this.r() < p; }
  str(s) {
    if (!s.re && this.used?.length && this.r() < 0.3) { const u = this.pick(this.used); if ((s.max === undefined || u.length <= s.max) && (s.min === undefined || u.length >= s.min)) return u; }
    const v = this.str0(s);
    (this.used ??= []).push(v);
    return v;
  }
  str0(s) {
    if (s.re) return genRegex(...srcOf(s.re), this, s);
    let v;
    const x = this.r();
    const pool = s.pool ?? this.pool.strings;
    if (x < 0.4 && pool.length) v = this.pick(pool);
    else if (x < 0.55 && pool.length) { const a = this.pick(pool); const i = this.int(a.length + 1); v = this.pick([a.slice(0, i), a.slice(i), a + this.pick(pool), a + this.ch(), this.ch() + a, a.slice(0, i) + this.ch() + a.slice(i), a.toUpperCase(), a.toLowerCase()]); } else if (x < 0.65) v = "";
    else { const n = x < 0.95 ? this.int(8) : this.int(60); v = ""; for (let i = 0; i < n; i++) v += this.ch(); }
    if (s.max !== undefined) v = v.slice(0, s.max);
    if (s.min !== undefined) while (v.length < s.min) v += this.ch();
    return v;
  }
  ch() { return this.pick(this.r() < 0.8 ? [..."abcABC019 -_./,:="] : [..."äÖ€ \t\n\"'\\%&?#<>{}[]()+*^$|~@!;", "\u{1F600}"]); }
  num(s, isInt) {
    const lo = s.min ?? -1e6, hi = s.max ?? 1e6;
    const x = this.r();
    let v;
    if (x < 0.15) v = lo; else if (x < 0.25) v = hi; else if (x < 0.45 && this.pool.numbers.length) v = this.pick(this.pool.numbers) + this.pick([0, 0, 1, -1, 0.5]);
    else if (x < 0.7) v = this.int(7) - (lo < 0 ? 3 : 0); else if (x < 0.85) v = (this.int(2000) - 1000) / (isInt ? 1 : 100);
    else v = lo + this.r() * (hi - lo);
    if (isInt) v = Math.round(v);
    return Math.min(hi, Math.max(lo, v)) + 0;
  }
  plan(s) {
    switch (s.k) {
      case "str": return this.str(s);
      case "int": return this.num(s, true);
      case "num": return this.num(s, this.bool(0.4));
      case "anynum": return this.bool(0.8) ? this.num(s, this.bool()) : this.pick(["NaN", "Infinity", "-Infinity"]);
      case "bool": return this.bool();
      case "lit": return null;
      case "oneOf": return this.int(s.vs.length);
      case "opt": return this.bool(0.35) ? null : { v: this.plan(s.s) };
      case "or": { const alt = this.int(s.alts.length); return { alt, v: this.plan(s.alts[alt]) }; }
      case "json": { const al = jsonAlts(s.depth); const alt = this.int(al.length); return { alt, v: this.plan(al[alt]) }; }
      case "arr": case "set": { const lo = s.min ?? 0, hi = Math.min(s.max ?? lo + 5, lo + 5); const n = lo + this.int(hi - lo + 1); const out = []; for (let i = 0; i < n; i++) out.push(i && this.bool(0.15) ? structuredClone(this.pick(out)) : this.plan(s.s)); return out; }
      case "tuple": return s.items.map((x) => this.plan(x));
      case "obj": { const o = {}; for (const [k, f] of Object.entries(s.fields)) o[k] = this.plan(f); return o; }
      case "dict": { const n = this.int(5); const m = new Map(); for (let i = 0; i < n; i++) { const k = s.keys ? genRegex(...srcOf(s.keys), this, {}) : this.str({}); if (k !== "__proto__") m.set(k, this.plan(s.s)); } return [...m]; }
      case "date": { if (s.invalid && this.bool(0.15)) return "NaN"; const lo = s.min ?? 0, hi = s.max ?? 2e12; return Math.round(this.bool(0.3) ? this.pick([lo, hi, Math.min(hi, Math.max(lo, 1.7e12))]) : lo + this.r() * (hi - lo)); }
      case "err": return this.str({});
      case "fn": return { seed: String(this.int(1e9)), konst: this.bool(0.3) };
      case "opaque": return null;
    }
    throw new Error("shape " + s.k);
  }
}
const srcOf = (re) => (Array.isArray(re) ? [re[0], re[1]] : [re.source, re.flags]);
// strings matching a simple regular expression (used for constrained inputs), else retry
export function genRegex(src, flags, g, s) {
  if (typeof src !== "string") throw new Error("pattern");
  const re = new RegExp(src, flags);
  for (let n = 0; n < 60; n++) { let out; try { out = walk(src, g); } catch { out = g.str({}); } if (s.max !== undefined) out = out.slice(0, s.max); if (re.test(out) && (s.min === undefined || out.length >= s.min)) return out; }
  throw new Error("cannot generate for " + src);
}
function walk(src, g) {
  let i = 0;
  const ALL = [..."abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_./,:=äö"];
  const cls = { d: [..."0123456789"], w: [..."abcXYZ012_"], s: [" "], D: [..."abc-"], W: [..." -/"], S: [..."abc1"] };
  const alt = () => { const opts = [seq()]; while (src[i] === "|") { i++; opts.push(seq()); } return () => g.pick(opts)(); };
  const seq = () => { const parts = []; while (i < src.length && src[i] !== "|" && src[i] !== ")") parts.push(quant(atom())); return () => parts.map((f) => f()).join(""); };
  const atom = () => {
    const c = src[i++];
    if (c === "^" || c === "$") return () => "";
    if (c === "(") { if (src.startsWith("?:", i)) i += 2; else if (src[i] === "?") throw new Error("lookaround"); const a = alt(); i++; return a; }
    if (c === ".") return () => g.pick(ALL);
    if (c === "\\") { const e = src[i++]; if (cls[e]) return () => g.pick(cls[e]); const m = { n: "\n", t: "\t", r: "\r" }[e] ?? e; return () => m; }
    if (c === "[") {
      let neg = false; if (src[i] === "^") { neg = true; i++; }
      const set = [];
      while (src[i] !== "]") {
        let a = src[i++]; if (a === "\\") { const e = src[i++]; if (cls[e]) { set.push(...cls[e]); continue; } a = e; }
        if (src[i] === "-" && src[i + 1] !== "]") { i++; let b = src[i++]; if (b === "\\") b = src[i++]; for (let k = a.charCodeAt(0); k <= b.charCodeAt(0); k++) set.push(String.fromCharCode(k)); } else set.push(a);
      }
      i++;
      const pool = neg ? ALL.filter((x) => !set.includes(x)) : set;
      return () => g.pick(pool);
    }
    return () => c;
  };
  const quant = (a) => {
    let lo = 1, hi = 1;
    const c = src[i];
    if (c === "*") { lo = 0; hi = 5; i++; } else if (c === "+") { lo = 1; hi = 6; i++; } else if (c === "?") { lo = 0; hi = 1; i++; } else if (c === "{") { const m = /^\{(\d+)(,?)(\d*)\}/.exec(src.slice(i)); if (m) { i += m[0].length; lo = Number(m[1]); hi = m[3] ? Number(m[3]) : m[2] ? lo + 4 : lo; } }
    if (src[i] === "?") i++;
    return () => { const n = lo + g.int(hi - lo + 1); let o = ""; for (let k = 0; k < n; k++) o += a(); return o; };
  };
  return alt()();
}

// Hash-consed SMT terms with local simplification.
// sorts: Bool Int Real String Atom
const table = new Map();
let nextId = 1;
export class Term {
  constructor(op, args, sort, v, name) {
    this.op = op; this.args = args; this.sort = sort; this.v = v; this.name = name; this.id = nextId++;
    this._syms = null;
  }
  toString() { return smt(this); }
}
function intern(op, args, sort, v, name) {
  const key = op + "|" + sort + "|" + (v === undefined ? "" : typeof v + ":" + (Object.is(v, -0) ? "-0" : String(v))) + "|" + (name ?? "") + "|" + args.map((a) => a.id).join(",");
  let t = table.get(key);
  if (!t) { t = new Term(op, args, sort, v, name); table.set(key, t); }
  return t;
}
export const lit = (v, sort) => intern("lit", [], sort, v);
export const TRUE = lit(true, "Bool");
export const FALSE = lit(false, "Bool");
export const boolLit = (b) => (b ? TRUE : FALSE);
export const strLit = (s) => lit(s, "String");
export const intLit = (n) => lit(n === 0 ? 0 : n, "Int");
export const realLit = (n) => lit(n === 0 ? 0 : n, "Real");
export const numLit = (n) => (Number.isInteger(n) ? intLit(n) : realLit(n));
export const mkVar = (name, sort) => intern("var", [], sort, undefined, name);
// uninterpreted function application; signature is determined by name+arg sorts
export const uf = (name, args, sort) => (args.length === 0 ? mkVar(name, sort) : intern("uf", args, sort, undefined, name));
export const isLit = (t) => t.op === "lit";

export function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  return intern("not", [a], "Bool");
}
export function and(...xs) {
  const out = [];
  const seen = new Set();
  const push = (x) => {
    if (x === TRUE) return true;
    if (x === FALSE) return false;
    if (x.op === "and") { for (const y of x.args) if (!push(y)) return false; return true; }
    if (seen.has(x.id)) return true;
    if (seen.has(not(x).id)) return false;
    seen.add(x.id); out.push(x); return true;
  };
  for (const x of xs.flat()) if (!push(x)) return FALSE;
  if (out.length === 0) return TRUE;
  if (out.length === 1) return out[0];
  return intern("and", out, "Bool");
}
export function or(...xs) {
  return not(and(...xs.flat().map(not))).op === "not" ? orRaw(xs.flat()) : not(and(...xs.flat().map(not)));
}
function orRaw(xs) {
  const out = []; const seen = new Set();
  for (const x of xs.flatMap((x) => (x.op === "or" ? x.args : [x]))) {
    if (x === TRUE) return TRUE;
    if (x === FALSE || seen.has(x.id)) continue;
    if (seen.has(not(x).id)) return TRUE;
    seen.add(x.id); out.push(x);
  }
  if (out.length === 0) return FALSE;
  if (out.length === 1) return out[0];
  return intern("or", out, "Bool");
}
export const implies = (a, b) => or(not(a), b);
export function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (a.sort === "Bool") {
    if (a === TRUE) return or(c, b);
    if (a === FALSE) return and(not(c), b);
    if (b === TRUE) return or(not(c), a);
    if (b === FALSE) return and(c, a);
  }
  if (a.sort !== b.sort) { a = toReal(a); b = toReal(b); }
  return intern("ite", [c, a, b], a.sort);
}
export function toReal(t) {
  if (t.sort === "Real") return t;
  if (t.sort !== "Int") throw new Error("toReal of " + t.sort);
  if (isLit(t)) return realLit(t.v);
  return intern("to_real", [t], "Real");
}
export function toInt(t) { // floor
  if (t.sort === "Int") return t;
  if (isLit(t)) return intLit(Math.floor(t.v));
  if (t.op === "to_real") return t.args[0];
  return intern("to_int", [t], "Int");
}
const isNum = (t) => t.sort === "Int" || t.sort === "Real";
export function eq(a, b) {
  if (a === b) return TRUE;
  if (isNum(a) && isNum(b) && a.sort !== b.sort) {
    // Int vs Real literal
    if (isLit(a) && isLit(b)) return boolLit(a.v === b.v);
    a = toReal(a); b = toReal(b);
    if (a === b) return TRUE;
    if (a.op === "to_real" && isLit(b)) return Number.isInteger(b.v) ? eq(a.args[0], intLit(b.v)) : FALSE;
    if (b.op === "to_real" && isLit(a)) return Number.isInteger(a.v) ? eq(b.args[0], intLit(a.v)) : FALSE;
  }
  if (a.sort !== b.sort) return FALSE;
  if (isLit(a) && isLit(b)) return boolLit(a.v === b.v);
  if (a.sort === "Bool") {
    if (a === TRUE) return b; if (b === TRUE) return a;
    if (a === FALSE) return not(b); if (b === FALSE) return not(a);
    if (a === not(b)) return FALSE;
  }
  if (a.op === "to_real" && b.op === "to_real") return eq(a.args[0], b.args[0]);
  if (a.op === "ite" && isLit(b) && isLit(a.args[1]) && isLit(a.args[2])) {
    return or(and(a.args[0], eq(a.args[1], b)), and(not(a.args[0]), eq(a.args[2], b)));
  }
  if (b.op === "ite" && isLit(a) && isLit(b.args[1]) && isLit(b.args[2])) return eq(b, a);
  if (a.sort === "String") {
    const fa = flatConcat(a), fb = flatConcat(b);
    const least = (f) => f.reduce((n, x) => n + (isLit(x) ? x.v.length : isUf(x, "jsonQuote") ? 2 : isUf(x, "num2str") ? 1 : 0), 0);
    if (isLit(a) && least(fb) > a.v.length || isLit(b) && least(fa) > b.v.length) return FALSE;
    let i = 0;
    while (fa.length && fb.length) {
      const x = fa[0], y = fb[0];
      if (x === y) { fa.shift(); fb.shift(); i++; continue; }
      if (isLit(x) && isLit(y)) {
        const n = Math.min(x.v.length, y.v.length);
        if (x.v.slice(0, n) !== y.v.slice(0, n)) return FALSE;
        fa.shift(); fb.shift();
        if (x.v.length > n) fa.unshift(strLit(x.v.slice(n)));
        if (y.v.length > n) fb.unshift(strLit(y.v.slice(n)));
        i++; continue;
      }
      break;
    }
    while (fa.length && fb.length) {
      const x = fa[fa.length - 1], y = fb[fb.length - 1];
      if (x === y) { fa.pop(); fb.pop(); i++; continue; }
      if (isLit(x) && isLit(y)) {
        const n = Math.min(x.v.length, y.v.length);
        if (x.v.slice(x.v.length - n) !== y.v.slice(y.v.length - n)) return FALSE;
        fa.pop(); fb.pop();
        if (x.v.length > n) fa.push(strLit(x.v.slice(0, x.v.length - n)));
        if (y.v.length > n) fb.push(strLit(y.v.slice(0, y.v.length - n)));
        i++; continue;
      }
      break;
    }
    if (i) { const na = concatList(fa), nb = concatList(fb); return eq(na, nb); }
    if (fa.length && fb.length) { const t = splitToken(fa, fb) ?? splitToken(fb, fa); if (t) return t; }
    if (fa.length === 1 && fb.length === 1 && a.op === "uf" && b.op === "uf" && a.name === b.name && INJECTIVE.has(a.name)) {
      return and(a.args.map((x, j) => eq(x, b.args[j])));
    }
    if (a.op === "uf" && INJECTIVE.has(a.name) && a.name === "num2str" && isLit(b)) {
      const n = Number(b.v);
      if (String(n) === b.v && Number.isFinite(n)) return eq(a.args[0], a.args[0].sort === "Int" ? numLit(n) : realLit(n));
      return FALSE;
    }
    if (b.op === "uf" && b.name === "num2str" && isLit(a)) return eq(b, a);
  }
  if (a.id > b.id) [a, b] = [b, a];
  return intern("=", [a, b], "Bool");
}
export const INJECTIVE = new Set(["num2str", "isoDate", "jsonQuote", "hash_sha256_hex"]);
// Texts that begin with a part that shows its own end (a quoted text, or a number with no further number character after it): the parts are compared, then the rests.
const isUf = (t, name) => t.op === "uf" && t.name === name;
const NUMBER = /^(?:-?\d+(?:\.\d+)?(?:e[-+]\d+)?|-?Infinity|NaN)/;
function splitToken(fa, fb) {
  const x = fa[0], y = fb[0], ra = fa.slice(1), rb = fb.slice(1);
  const rest = (u, v) => eq(concatList(u), concatList(v));
  if (isUf(x, "jsonQuote")) {
    if (isUf(y, "jsonQuote")) return and(eq(x.args[0], y.args[0]), rest(ra, rb));
    if (isUf(y, "num2str")) return FALSE;
    if (!isLit(y)) return undefined;
    if (y.v[0] !== '"') return FALSE;
    const m = /^"(?:[^"\\]|\\.)*"/.exec(y.v);
    if (!m) return rb.length ? undefined : FALSE;
    let text; try { text = JSON.parse(m[0]); } catch { return FALSE; }
    if (JSON.stringify(text) !== m[0]) return FALSE;
    return and(eq(x.args[0], strLit(text)), rest(ra, [strLit(y.v.slice(m[0].length)), ...rb]));
  }
  const ends = (f) => f.length === 0 || (isLit(f[0]) && f[0].v !== "" && !/[.0-9eInfityNa]/.test(f[0].v[0]));
  if (isUf(x, "num2str") && ends(ra)) {
    if (isUf(y, "num2str")) return ends(rb) && (ra.length || rb.length) ? and(eq(x.args[0], y.args[0]), rest(ra, rb)) : undefined;
    if (!isLit(y)) return undefined;
    const m = NUMBER.exec(y.v)?.[0];
    if (m === undefined) return /^[-IN\d]/.test(y.v) ? undefined : FALSE;
    if (m.length === y.v.length && (rb.length || !ra.length)) return undefined;
    return and(eq(x, strLit(m)), rest(ra, [strLit(y.v.slice(m.length)), ...rb]));
  }
  return undefined;
}
export function flatConcat(t) {
  if (t.op === "str.++") return t.args.slice();
  if (isLit(t) && t.v === "") return [];
  return [t];
}
export function concatList(parts) {
  const out = [];
  for (const p of parts.flatMap(flatConcat)) {
    const last = out[out.length - 1];
    if (last && isLit(last) && isLit(p)) out[out.length - 1] = strLit(last.v + p.v);
    else out.push(p);
  }
  if (out.length === 0) return strLit("");
  if (out.length === 1) return out[0];
  return intern("str.++", out, "String");
}
export const concat = (...xs) => concatList(xs);
export function strLen(s) {
  if (isLit(s)) return intLit(s.v.length);
  if (s.op === "str.++") return add(...s.args.map(strLen));
  return intern("str.len", [s], "Int");
}
function arith2(a, b) {
  if (a.sort === b.sort) return [a, b, a.sort];
  return [toReal(a), toReal(b), "Real"];
}
export function add(...xs) {
  let acc = 0; const rest = []; let real = false;
  const push = (x) => {
    if (x.op === "+") x.args.forEach(push);
    else if (isLit(x)) { acc += x.v; if (x.sort === "Real") real = true; }
    else { if (x.sort === "Real") real = true; rest.push(x); }
  };
  xs.forEach(push);
  if (!Number.isInteger(acc)) real = true;
  // cancel x + (-1*x)
  const coef = new Map();
  for (const r of rest) {
    let c = 1, b = r;
    if (r.op === "*" && isLit(r.args[0])) { c = r.args[0].v; b = r.args[1]; }
    if (b.op === "to_real") b = b.args[0];
    const e = coef.get(b.id) ?? { b, c: 0 };
    e.c += c; coef.set(b.id, e);
  }
  const parts = [];
  for (const { b, c } of coef.values()) {
    if (c === 0) continue;
    const bb = real ? toReal(b) : b;
    parts.push(c === 1 ? bb : mul(real ? realLit(c) : intLit(c), bb));
  }
  if (parts.length === 0) return real ? realLit(acc) : intLit(acc);
  parts.sort((p, q) => p.id - q.id);
  if (acc !== 0) parts.push(real ? realLit(acc) : intLit(acc));
  if (parts.length === 1) return parts[0];
  return intern("+", parts, real ? "Real" : "Int");
}
export function mul(a, b) {
  if (isLit(b) && !isLit(a)) [a, b] = [b, a];
  if (isLit(a) && isLit(b)) { const v = a.v * b.v; return Number.isInteger(v) && a.sort === "Int" && b.sort === "Int" ? intLit(v) : realLit(v); }
  if (isLit(a)) {
    if (a.v === 1) return b;
    if (a.v === 0) return b.sort === "Int" && a.sort === "Int" ? intLit(0) : realLit(0);
    if (b.op === "*" && isLit(b.args[0])) return mul(a.sort === "Int" && b.sort === "Int" ? intLit(a.v * b.args[0].v) : realLit(a.v * b.args[0].v), b.args[1]);
    if (b.op === "+") return add(...b.args.map((x) => mul(a, x)));
  }
  const [x, y, s] = arith2(a, b);
  let p = x, q = y;
  if (!isLit(p) && p.id > q.id) [p, q] = [q, p];
  return intern("*", [p, q], s);
}
export const neg = (a) => mul(intLit(-1), a);
export const sub = (a, b) => add(a, neg(b));
export function div(a, b) { // real division; b != 0 is caller's obligation
  if (isLit(a) && isLit(b)) return realLit(a.v / b.v);
  if (isLit(b) && b.v === 1) return a;
  return intern("/", [toReal(a), toReal(b)], "Real");
}
export function modInt(a, b) { // SMT Euclidean mod on Int
  if (isLit(a) && isLit(b)) { const m = ((a.v % b.v) + Math.abs(b.v)) % Math.abs(b.v); return intLit(m); }
  return intern("mod", [a, b], "Int");
}
export function lt(a, b) {
  if (isLit(a) && isLit(b)) return boolLit(a.v < b.v);
  if (a === b) return FALSE;
  const d = sub(b, a); // d > 0
  if (isLit(d)) return boolLit(d.v > 0);
  if (a.sort !== b.sort) { a = toReal(a); b = toReal(b); }
  return intern("<", [a, b], "Bool");
}
export function le(a, b) {
  if (isLit(a) && isLit(b)) return boolLit(a.v <= b.v);
  if (a === b) return TRUE;
  const d = sub(b, a);
  if (isLit(d)) return boolLit(d.v >= 0);
  if (a.sort !== b.sort) { a = toReal(a); b = toReal(b); }
  return intern("<=", [a, b], "Bool");
}
export function isInt(t) {
  if (t.sort === "Int") return TRUE;
  if (isLit(t)) return boolLit(Number.isInteger(t.v));
  if (t.op === "to_real") return TRUE;
  return intern("is_int", [t], "Bool");
}
// generic interpreted op
export const app = (op, args, sort, v) => intern(op, args, sort, v);

export function smtStr(s) {
  let out = '"';
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c === 34) out += '""';
    else if (c === 92 || c < 32 || c > 126) out += `\\u{${c.toString(16)}}`;
    else out += s[i];
  }
  return out + '"';
}
function smtNum(v, sort) {
  const fmt = (x) => {
    if (Number.isInteger(x)) { const s = BigInt(x).toString(); return sort === "Real" ? s + ".0" : s; }
    let s = x.toString();
    const m = /^(\d+)(?:\.(\d+))?e([+-]\d+)$/.exec(s);
    if (m) {
      const e = Number(m[3]); const digits = m[1] + (m[2] ?? ""); const scale = (m[2] ?? "").length - e;
      if (scale <= 0) return digits + "0".repeat(-scale) + ".0";
      return `(/ ${digits}.0 1${"0".repeat(scale)}.0)`;
    }
    return s;
  };
  return v < 0 ? `(- ${fmt(-v)})` : fmt(v);
}
export function quoteSym(n) { return /^[A-Za-z_$][A-Za-z0-9_$!.]*$/.test(n) ? n : `|${n.replace(/[|\\]/g, "_")}|`; }
export function ufSymbol(t) { return quoteSym(t.op === "var" ? t.name : `${t.name}^${t.args.map((a) => a.sort[0]).join("")}^${t.sort[0]}`); }
export function smt(t) {
  switch (t.op) {
    case "lit":
      if (t.sort === "Bool") return t.v ? "true" : "false";
      if (t.sort === "String") return smtStr(t.v);
      return smtNum(t.v, t.sort);
    case "var": return ufSymbol(t);
    case "uf": return `(${ufSymbol(t)} ${t.args.map(smt).join(" ")})`;
    case "in_re": return `(str.in_re ${smt(t.args[0])} ${t.v})`;
    case "replace_re_all": return `(str.replace_re_all ${smt(t.args[0])} ${t.v} ${smt(t.args[1])})`;
    default: return `(${t.op} ${t.args.map(smt).join(" ")})`;
  }
}
// set of declared symbols (var + uf) used in a term
export function symsOf(t) {
  if (t._syms) return t._syms;
  const s = new Map();
  if (t.op === "var" || t.op === "uf") s.set(ufSymbol(t), t);
  for (const a of t.args) for (const [k, v] of symsOf(a)) if (!s.has(k)) s.set(k, v);
  t._syms = s;
  return s;
}
export function subst(t, map, memo = new Map()) {
  if (map.has(t.id)) return map.get(t.id);
  if (t.args.length === 0) return t;
  if (memo.has(t.id)) return memo.get(t.id);
  const args = t.args.map((a) => subst(a, map, memo));
  let r = t;
  if (args.some((a, i) => a !== t.args[i])) r = rebuild(t, args);
  memo.set(t.id, r);
  return r;
}
export function rebuild(t, args) {
  switch (t.op) {
    case "not": return not(args[0]);
    case "and": return and(args);
    case "or": return or(args);
    case "ite": return ite(...args);
    case "=": return eq(...args);
    case "+": return add(...args);
    case "*": return mul(...args);
    case "/": return div(...args);
    case "<": return lt(...args);
    case "<=": return le(...args);
    case "str.++": return concatList(args);
    case "str.len": return strLen(args[0]);
    case "to_real": return toReal(args[0]);
    case "to_int": return toInt(args[0]);
    case "uf": return uf(t.name, args, t.sort);
    default: { const v = args.every(isLit) ? folded(t.op, args.map((a) => a.v)) : undefined; return v === undefined ? intern(t.op, args, t.sort, t.v, t.name) : lit(v, t.sort); }
  }
}
// operations on literal texts (ASCII only: positions are counted in code points)
function folded(op, v) {
  if (!v.every((x) => typeof x !== "string" || /^[\x00-\x7f]*$/.test(x))) return undefined;
  switch (op) {
    case "str.contains": return v[0].includes(v[1]);
    case "str.prefixof": return v[1].startsWith(v[0]);
    case "str.suffixof": return v[1].endsWith(v[0]);
    case "str.substr": return v[1] < 0 || v[1] >= v[0].length || v[2] <= 0 ? "" : v[0].slice(v[1], v[1] + v[2]);
    case "str.at": return v[1] < 0 || v[1] >= v[0].length ? "" : v[0][v[1]];
    case "str.indexof": return v[2] < 0 || v[2] > v[0].length ? -1 : v[0].indexOf(v[1], v[2]);
  }
  return undefined;
}
export const varsOf = (t) => [...symsOf(t).values()].filter((x) => x.op === "var");
// the substitution of the variables (ids) in vars that turns p into t, or null
export function match(p, t, vars, m = new Map()) {
  if (vars.has(p.id)) { if (p.sort !== t.sort) return null; const x = m.get(p.id); if (x === undefined) { m.set(p.id, t); return m; } return x === t ? m : null; }
  if (p === t) return m;
  if (p.op !== t.op || p.sort !== t.sort || p.name !== t.name || p.v !== t.v || p.args.length !== t.args.length || p.args.length === 0) return null;
  for (let i = 0; i < p.args.length; i++) if (!match(p.args[i], t.args[i], vars, m)) return null;
  return m;
}

// Runtime values of the symbolic interpreter.
import * as T from "./term.mjs";

export class Sym { // symbolic scalar
  constructor(t) { this.t = t; }
  get sort() { return this.t.sort; }
}
export const isStrV = (v) => typeof v === "string" || (v instanceof Sym && v.sort === "String");
export const isNumV = (v) => typeof v === "number" || (v instanceof Sym && (v.sort === "Int" || v.sort === "Real"));
export const isBoolV = (v) => typeof v === "boolean" || (v instanceof Sym && v.sort === "Bool");
export const isAtomV = (v) => v instanceof Sym && v.sort === "Atom";
export function wrap(t) {
  if (t.op === "lit") return t.v;
  if (t.op === "to_real" && t.args[0].op !== "lit") return new Sym(t.args[0]);
  return new Sym(t);
}
// a value that is one of several alternatives, decided lazily
export class Union { constructor(key, alts) { this.key = key; this.alts = alts; } }

let serial = 1;
export const nextSerial = () => serial++;
export const peekSerial = () => serial;
export class HObj {
  constructor(kind, proto) { this.kind = kind; this.proto = proto ?? null; this.props = new Map(); this.id = serial++; }
}
export class Acc { constructor(get, set) { this.get = get; this.set = set; } }
// array segment: for every element of base (bound var v), the items of the matching case, in order
export class Seg { constructor(base, v, cases) { this.base = base; this.v = v; this.cases = cases; } }
// opaque already-accumulated prefix marker used while summarising loops
export class Mark { constructor(name) { this.name = name; } }
// an array made with a symbolic length and not filled yet
export class Reserve extends Mark { constructor(len) { super("reserved"); this.len = len; } }
// poison: value unknown, may not be read
export class Poison { constructor(why, key) { this.why = why; this.key = key; } }

// bases
export class SeqBase {
  constructor(key, len, elem, substFn) { this.key = key; this.len = len; this.elem = elem; this.substFn = substFn; this.sort = "Int"; }
  inRange(t) { return T.and(T.le(T.intLit(0), t), T.lt(t, this.len)); }
  get root() { return this.key; }
  get start() { return T.intLit(0); }
  before(t, w) { return T.lt(t, w); }
}
export class KeysBase { // keys of a symbolic dictionary
  constructor(key, has, substFn) { this.key = key; this.has = has; this.substFn = substFn; this.sort = "String"; }
  inRange(t) { return this.has(t); }
  get root() { return this.key; }
  before(t, w) { return T.uf("before$" + this.key, [t, w], "Bool"); }
}
export class PrefixBase { // elements strictly before w
  constructor(inner, w) { this.inner = inner; this.w = w; this.sort = inner.sort; this.key = inner.key + "<" + w.id; }
  inRange(t) { return T.and(this.inner.inRange(t), this.inner.before(t, this.w)); }
  get root() { return this.inner.root; }
  before(t, w) { return this.inner.before(t, w); }
  get elem() { return this.inner.elem; }
  get start() { return this.inner.start; }
  get len() { return this.sort === "Int" ? T.sub(this.w, this.inner.start) : undefined; }
}
export class SuffixBase { // elements strictly after w
  constructor(inner, w) { this.inner = inner; this.w = w; this.sort = inner.sort; this.key = inner.key + ">" + w.id; }
  inRange(t) { return T.and(this.inner.inRange(t), this.inner.before(this.w, t)); }
  get root() { return this.inner.root; }
  before(t, w) { return this.inner.before(t, w); }
  get elem() { return this.inner.elem; }
  get start() { return this.sort === "Int" ? T.add(this.w, T.intLit(1)) : undefined; }
  get len() { return this.sort === "Int" ? T.sub(T.add(this.inner.start, this.inner.len), this.start) : undefined; }
}
export class Unsupported extends Error { constructor(msg, node) { super(msg); this.node = node; } }
export class Infeasible extends Error {}
export class JSThrow extends Error { constructor(value) { super("js throw"); this.value = value; } }
export class PathStop extends Error { constructor(kind, info) { super(kind); this.kind = kind; this.info = info; } }

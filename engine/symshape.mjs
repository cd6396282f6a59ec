// Symbolic instances of shapes, external packages, ghost state: methods mixed into Interp.
import * as T from "./term.mjs";
import { Sym, Union, HObj, Acc, Seg, Mark, Poison, SeqBase, KeysBase, PrefixBase, Unsupported, Infeasible, JSThrow, PathStop, wrap, peekSerial, isStrV, isNumV, isBoolV, isAtomV } from "./values.mjs";
import { termOf, ABSENT } from "./engine.mjs";
import { Interp } from "./interp.mjs";
import "./builtins.mjs";
import { S, jsonAlts } from "./shapes.mjs";
import { parseRegex } from "./regex.mjs";

const P = Interp.prototype;
const def = (o) => Object.assign(P, o);
const idKey = (path, idx) => path + "[" + idx.map((t) => t.id).join(",") + "]";
const UNPRINTABLE = '(re.* (re.range "\\u{0}" "\\u{2ffff}"))';

def({
  memoInst(s, path, idx, mk) {
    const m = this.lazyMemo;
    const key = idKey(path, idx);
    if (m.has(key)) return m.get(key);
    if (idx.length) this.noteInst(path, idx);
    const v = mk();
    if (!v.inst) v.ref = { path, idx, make: (n) => this.inst(s, path, n) };
    m.set(key, v);
    this.trail.push({ undo: () => m.delete(key) });
    return v;
  },
  // symbolic value of a shape at a path; idx: index terms
  inst(s, path, idx = []) {
    const name = path.startsWith("old~") ? path.slice(4) : path; // pre-state twin: same terms, separate object
    const uf = (sfx, sort) => T.uf(name + sfx, idx, sort);
    switch (s.k) {
      case "str": {
        const t = uf("", "String");
        if (s.re !== undefined) { const [src, fl] = s.re; const ab = alphabetOf(src, fl); if (ab) (this.alphabets ??= new Map()).set(t.id, ab); this.assume(T.app("in_re", [t], "Bool", parseRegex(/^\^.*\$$/s.test(src) ? src : `^(?:${src})$`, fl).full)); }
        if (s.min !== undefined) this.assume(T.le(T.intLit(s.min), T.strLen(t)));
        if (s.max !== undefined) this.assume(T.le(T.strLen(t), T.intLit(s.max)));
        return new Sym(t);
      }
      case "int": {
        const t = uf("", "Int");
        if (s.min !== undefined) this.assume(T.le(T.intLit(s.min), t));
        if (s.max !== undefined) this.assume(T.le(t, T.intLit(s.max)));
        return new Sym(t);
      }
      case "num": {
        const t = uf("", "Real");
        if (s.min !== undefined) this.assume(T.le(T.numLit(s.min), t));
        if (s.max !== undefined) this.assume(T.le(t, T.numLit(s.max)));
        return new Sym(t);
      }
      case "anynum": return this.altsUnion(name, idx, [() => new Sym(uf("", "Real")), () => NaN, () => Infinity, () => -Infinity]);
      case "bool": return new Sym(uf("", "Bool"));
      case "lit": return this.fromHost(s.v);
      case "oneOf": {
        const vs = s.vs;
        const ty = typeof vs[0];
        if ((ty === "string" || ty === "number") && vs.every((v) => typeof v === ty) && (ty !== "number" || vs.every(Number.isFinite))) {
          const t = uf("", ty === "string" ? "String" : vs.every(Number.isInteger) ? "Int" : "Real");
          this.assume(T.or(vs.map((v) => T.eq(t, termOf(v)))));
          return new Sym(t);
        }
        return this.altsUnion(name, idx, vs.map((v) => () => this.fromHost(v)));
      }
      case "opt": return this.altsUnion(name, idx, [() => this.inst(s.s, path + "?", idx), () => undefined]);
      case "or": return this.altsUnion(name, idx, s.alts.map((a, i) => () => this.inst(a, path + "|" + i, idx)));
      case "json": return this.altsUnion(name, idx, jsonAlts(s.depth).map((a, i) => () => this.inst(a, path + "|" + i, idx)));
      case "arr": return this.memoInst(s, path, idx, () => {
        const mkBase = (idx) => {
          const len = T.uf(name + ".length", idx, "Int");
          const b = new SeqBase(idKey(name, idx), len, (i) => this.inst(s.s, path + "[]", [...idx, i]), (map) => { const n = idx.map((t) => T.subst(t, map)); return n.every((t, j) => t === idx[j]) ? b : mkBase(n); });
          b.canon = (term) => `${name}[${idx.map(term).join(",")}]`;
          b.lenFacts = () => { this.assume(T.le(T.intLit(s.min), len)); if (s.max !== undefined) this.assume(T.le(len, T.intLit(s.max))); };
          return b;
        };
        const b = mkBase(idx);
        b.lenFacts();
        const a = new HObj("Array", this.realm.ArrayProto);
        a.inst = { path, idx, fields: Object.create(null), make: (n) => this.inst(s, path, n) };
        a.segs = [this.lazySeg(b)];
        return a;
      });
      case "set": { const a = this.inst(S.arr(s.s, s), path + ".items", idx); const o = new HObj("Set", this.realm.SetProto); o.segs = a.segs.slice(); return o; }
      case "tuple": return this.memoInst(s, path, idx, () => this.arrayOf(s.items.map((x, i) => this.inst(x, `${path}[${i}]`, idx))));
      case "obj": return this.memoInst(s, path, idx, () => {
        const o = new HObj("Object", this.realm.ObjectProto);
        const fields = Object.create(null);
        for (const [k, f] of Object.entries(s.fields)) {
          const p = `${path}.${k}`;
          fields[k] = f.k === "opt" ? { present: T.uf(`${name}.${k}?`, idx, "Bool"), get: () => this.inst(f.s, p, idx) } : { get: () => this.inst(f, p, idx) };
        }
        o.inst = { path, idx, fields, make: (n) => this.inst(s, path, n) };
        return o;
      });
      case "dict": return this.memoInst(s, path, idx, () => {
        const o = new HObj("Object", this.realm.ObjectProto);
        const mk = (idx) => {
          const has = (k) => T.uf(name + ".has", [...idx, k], "Bool");
          const kb = new KeysBase(idKey(name, idx), (k) => { let t = has(k); if (s.keys) t = T.and(t, T.app("in_re", [k], "Bool", parseRegex(...s.keys).full)); else t = T.and(t, T.not(T.eq(k, T.strLit("__proto__")))); return t; }, (map) => { const n = idx.map((t) => T.subst(t, map)); return n.every((t, j) => t === idx[j]) ? kb : mk(n); });
          kb.canon = (term) => `${name}{${idx.map(term).join(",")}}`;
          return kb;
        };
        const kb = mk(idx);
        o.dict = { has: (k) => kb.inRange(k), val: (k) => this.inst(s.s, path + "{}", [...idx, k]), keysBase: kb };
        return o;
      });
      case "date": return this.memoInst(s, path, idx, () => {
        const d = (t) => this.mkDate(t);
        const t = uf(".time", "Int");
        this.assume(T.le(T.intLit(-62135596800000), t)); this.assume(T.le(t, T.intLit(253402300799999)));
        if (s.min !== undefined) this.assume(T.le(T.intLit(s.min), t));
        if (s.max !== undefined) this.assume(T.le(t, T.intLit(s.max)));
        if (s.invalid) { const u = this.altsUnion(name + ".valid", idx, [() => new Sym(t), () => NaN]); const o = d(undefined); o.t = u; return this.dateOfUnion(o); }
        return d(new Sym(t));
      });
      case "err": return this.memoInst(s, path, idx, () => {
        const e = this.makeError("Error", new Sym(uf(".message", "String")));
        return e;
      });
      case "fn": return this.memoInst(s, path, idx, () => {
        const f = this.native(path, (args) => this.symCall(s, path, idx, args));
        return f;
      });
      case "opaque": return this.mkExt(path, { idx });
    }
    throw new Unsupported("shape " + s.k);
  },
  dateOfUnion(o) { return o; },
  symCall(s, path, idx, args) {
    const key = [];
    for (const a of args.slice(0, s.arity ?? 1)) key.push(this.argKey(a));
    const k = [...idx, ...key];
    if (s.throws && this.branch(T.uf(path.replace(/^old~/, "") + ".throws", k, "Bool"))) throw new JSThrow(this.inst(s.throws, path + ".error", k));
    const r = this.inst(s.ret, path + "()", k);
    return s.async ? this.promiseResolve(r) : r;
  },
  argKey(a) { // a term identifying the argument value
    a = this.force(a);
    const t = termOf(a);
    if (t) return t;
    if (a instanceof HObj && a.kind === "Date") return termOf(a.t) ?? T.strLit("invalid date");
    if (a === undefined || a === null || (typeof a === "number")) return T.strLit("$" + String(a));
    if (a instanceof HObj && a.inst) return a.inst.idx.length === 1 ? a.inst.idx[0] : T.uf("key$" + a.inst.path, a.inst.idx, "Int");
    return this.opaqueTerm("argkey", { a }, "String");
  },
  lazySeg(base) {
    const v = T.mkVar(this.freshName("$e"), "Int");
    (this.lenOwner ??= new Map()).set(base.len.id, base);
    const born = peekSerial();
    // element value at the bound variable, with its facts
    const m = this.pc.length;
    this.boundStack.push(v);
    const pcLen = this.pc.length;
    const known0 = this.trail.length;
    const item = base.elem(v);
    const facts = this.pc.slice(pcLen).map((p) => p.t);
    // facts about the bound variable are kept in the case, not in the path condition
    while (this.trail.length > known0) { const e = this.trail.pop(); if (e.undo) e.undo(); }
    this.pc.length = pcLen;
    this.boundStack.pop();
    const s = new Seg(base, v, [{ cond: T.TRUE, facts, items: [item] }]);
    s.born = born;
    return s;
  },
  altsUnion(path, idx, makes) {
    const sel = T.uf(path + "#", idx, "Int");
    const conds = makes.map((_, i) => (i < makes.length - 1 ? T.eq(sel, T.intLit(i)) : null));
    conds[makes.length - 1] = T.not(T.or(conds.slice(0, -1)));
    return new Union(idKey(path, idx), makes.map((f, i) => ({ cond: conds[i], make: f })));
  },
  anyValue(name, idx) { return this.inst(S.json(4), "$any:" + name, idx); },
});

// ---------- external packages: recorded, never executed
def({
  mkExt(extPath, o = {}) {
    const e = new HObj("Ext", o.proto ?? null);
    e.extPath = extPath;
    e.extIdx = o.idx ?? this.boundStack.slice();
    e.children = new Map();
    e.constructed = o.constructed;
    e.extClass = o.extClass;
    e.callee = o.callee; // {name, args, self}
    return e;
  },
  extProp(o, k) {
    if (typeof k !== "string") { if (k instanceof Sym) return this.unsupported("symbolic property of external object"); k = String(k); }
    if (k === "then" || k.startsWith("@@")) return undefined;
    if (k === "toString") return this.native("toString", () => this.extToString(o));
    if (k === "name" && !o.constructed && !o.callee) return o.extPath.split(/[./]/).pop();
    let c = o.children.get(k);
    if (!c) { c = this.mkExt(`${o.extPath}${o.extPath.endsWith(":") ? "" : "."}${k}`, { idx: o.extIdx }); c.owner = o; c.member = k; o.children.set(k, c); }
    return c;
  },
  record(ev) {
    const o = this.newObj(ev);
    this.setField(this.trace, "segs", [...this.trace.segs, o]);
    return o;
  },
  extName(f) { return f.extPath; },
  extCall(f, thisVal, args, node) {
    const name = this.extName(f);
    this.usedModels.add("external " + name.replace(/[#!]\d+/g, ""));
    const argsArr = this.arrayOf(args.slice());
    const r = this.mkExt(this.freshName(name + "()"), { callee: { name, args: argsArr, self: f.owner } });
    this.record({ op: "call", name, member: f.member ?? name, self: f.owner, args: argsArr, result: r });
    return r;
  },
  extConstruct(f, args, newTarget, node) {
    const name = this.extName(f);
    this.usedModels.add("external new " + name.replace(/[#!]\d+/g, ""));
    const argsArr = this.arrayOf(args.slice());
    const user = newTarget && newTarget !== f && newTarget.kind === "Function";
    const r = this.mkExt(this.freshName("new " + name), { constructed: true, extClass: f, proto: user ? this.get(newTarget, "prototype") : null, callee: { name: "new " + name, args: argsArr } });
    r.userClass = user ? newTarget : undefined;
    this.record({ op: "new", name, member: f.member ?? name, self: undefined, args: argsArr, result: r });
    return r;
  },
  extSet(o, k, v) {
    if (typeof k !== "string") this.unsupported("symbolic property assignment on external object");
    this.setMap(o, o.props, k, v);
    if (!o.userClass) this.record({ op: "set", name: `${o.extPath}.${k}`, member: k, self: o, args: this.arrayOf([v]), result: undefined });
  },
  extToString(o) {
    const t = o.extIdx.length ? T.uf("text:" + o.extPath, o.extIdx, "String") : T.mkVar("text:" + o.extPath, "String");
    return new Sym(t);
  },
  callSymFn(f, thisVal, args) { return f.symFn(args, thisVal); },
});

// ---------- packages with a semantic model
const MODELS = {};
// the characters a text of this form can have (as a test), or null when that is not evident from the expression
export function alphabetOf(src, flags) {
  if (flags && flags !== "u") return null;
  const classes = [];
  for (let i = 0; i < src.length; i++) {
    const c = src[i];
    if (c === "[") { const e = src.indexOf("]", i + 2); if (e < 0 || src.slice(i, e).includes("\\")) return null; classes.push(src.slice(i, e + 1)); i = e; }
    else if (c === "\\") { const n = src[++i]; if (n === "d" || n === "w" || n === "s" || /[^A-Za-z0-9]/.test(n ?? "")) classes.push("\\" + n); else return null; }
    else if (c === "{") { i = src.indexOf("}", i); if (i < 0) return null; }
    else if (c === "(") { if (src.startsWith("(?:", i)) i += 2; else if (src[i + 1] === "?") return null; }
    else if (".".includes(c)) return null;
    else if (!"^$*+?|)".includes(c)) classes.push(c);
  }
  const re = new RegExp(`^(?:${classes.join("|") || "(?!)"})$`);
  return (ch) => re.test(ch);
}
export const model = (key, f) => { for (const k of [].concat(key)) MODELS[k] = f; };
def({
  externalModule(key) {
    key = key.replace(/^node:/, "");
    const f = MODELS[key];
    if (f) {
      if (key !== "vf") this.usedModels.add("model of package " + key);
      const ns = this.newObj();
      const props = f(this);
      for (const [k, v] of Object.entries(props)) ns.props.set(k, typeof v === "function" ? this.native(k, v) : v);
      if (!ns.props.has("default")) ns.props.set("default", ns);
      ns.props.set("*", ns);
      const missing = ns; missing.modelOf = key;
      return ns;
    }
    this.usedModels.add("external package " + key);
    return this.mkExt(key + ":", { idx: [] });
  },
});

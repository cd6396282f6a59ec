// Symbolic side of the specification library ("vf") and goal discharge.
import * as T from "./term.mjs";
import { slice } from "./solver.mjs";
import { Sym, Union, HObj, Acc, Seg, Mark, Poison, SeqBase, KeysBase, PrefixBase, SuffixBase, Unsupported, Infeasible, JSThrow, PathStop, wrap, isStrV, isNumV, isBoolV, isAtomV } from "./values.mjs";
import { termOf, ABSENT } from "./engine.mjs";
import { Interp } from "./interp.mjs";
import { S } from "./shapes.mjs";
import { model } from "./symshape.mjs";
import "./models.mjs";

const P = Interp.prototype;
const def = (o) => Object.assign(P, o);

// shape arguments: HObj wrappers <-> descriptors
const mkShape = (eng, d) => { const o = eng.newObj(); o.kind = "Shape"; o.shape = d; return o; };
const unshape = (eng, v) => {
  v = eng.force(v);
  if (v instanceof HObj && v.kind === "Shape") return v.shape;
  if (v instanceof HObj && v.kind === "Array") return v.segs.map((x) => unshape(eng, x));
  if (v instanceof HObj && v.kind === "RegExp") return [v.source, v.flags];
  if (v instanceof HObj && v.kind === "Object") { const o = {}; for (const [k, x] of v.props) o[k] = unshape(eng, x); return o; }
  return v;
};
P.unshape = function (v) { return unshape(this, v); };
model("vf", (eng) => {
  const ns = {};
  for (const k of Object.keys(S)) ns[k] = (a) => mkShape(eng, S[k](...a.map((x) => unshape(eng, x))));
  Object.assign(ns, {
    spec: (a) => a[0],
    same: (a) => eng.wrapB(eng.simpB(eng.sameV(a[0], a[1]))),
    implies: (a) => { if (!eng.truthy(a[0])) return true; const b = eng.force(a[1]); return b instanceof HObj && b.kind === "Function" ? eng.call(b, undefined, []) : b; },
    record: (a) => { eng.record({ op: "note", name: a[0], member: a[0], args: eng.arrayOf(a.slice(1)) }); return undefined; },
    trace: () => eng.trace,
    now: () => eng.clockNow(),
    advance: (a) => { eng.setField(eng.clock, "now", eng.plus(eng.clock.now, a[0])); return undefined; },
    setEnv: (a) => { const env = eng.envObj; if (eng.force(a[1]) === undefined) eng.deleteProp(env, eng.toKey(a[0])); else eng.set(env, eng.toKey(a[0]), eng.toStr(a[1])); return undefined; },
    callOf: (a) => { const v = eng.force(a[0]); if (!(v instanceof HObj) || !v.callee) return undefined; return eng.newObj({ name: v.callee.name, args: v.callee.args, self: v.callee.self }); },
    isExternal: (a) => { const v = eng.force(a[0]); return v instanceof HObj && v.kind === "Ext"; },
    pathOf: (a) => { const v = eng.force(a[0]); return v instanceof HObj && v.kind === "Ext" ? v.extPath : undefined; },
    extProps: (a) => { const v = eng.force(a[0]); const o = eng.newObj(); for (const [k, x] of v.props) o.props.set(k, x); return o; },
    assume: (a) => { if (!eng.truthy(a[0])) throw new Infeasible(); return undefined; },
    clone: (a) => eng.deepCopy(a[0]),
    opaqueFn: (a) => { const name = a[0]; return eng.native(name, (args) => wrap(T.uf("spec$" + name, args.map((x) => eng.argKey(x)), "String"))); },
    runCode: (a) => { const text = eng.force(a[0]); if (typeof text !== "string") return eng.unsupported("program text that is not known"); const o = eng.newObj(); eng.runText(text, ["require", "exports", "process"], [eng.get(a[1], "require"), o, eng.get(a[1], "process")]); return o; },
    byteLength: (a) => eng.byteLen(eng.mkBuf({ utf8: termOf(eng.toStr(a[0])) })),
    settled: (a) => { // outcome of a promise or thunk
      try { let v = eng.force(a[0]); if (v instanceof HObj && v.kind === "Function") v = eng.call(v, undefined, []); return eng.newObj({ ok: true, value: eng.awaitV(v) }); } catch (e) { if (!(e instanceof JSThrow)) throw e; return eng.newObj({ ok: false, error: e.value }); }
    },
    run: (a) => { // synchronous outcome
      try { return eng.newObj({ ok: true, value: eng.call(a[0], undefined, []) }); } catch (e) { if (!(e instanceof JSThrow)) throw e; return eng.newObj({ ok: false, error: e.value }); }
    },
    anyNumOf: (a) => a[0],
  });
  return ns;
});

def({
  // ---------- deep equality as a formula (may fork; a fresh index/key stands for every index/key)
  sameV(a, b, depth = 0, seen = []) {
    a = this.force(a); b = this.force(b);
    if (depth > 40) throw new Unsupported("comparison too deep");
    if (a === b) return T.TRUE;
    if (a === ABSENT) a = undefined; if (b === ABSENT) b = undefined;
    if (a instanceof HObj && b instanceof HObj) {
      if (a.kind === "Shape" || b.kind === "Shape") return T.FALSE;
      const ra = a.inst ?? a.ref, rb = b.inst ?? b.ref;
      if (ra && rb && !a.dirty && !b.dirty && ra.path.replace(/^old~/, "") === rb.path.replace(/^old~/, "")) {
        const t = T.and(ra.idx.map((x, i) => T.eq(x, rb.idx[i])));
        if (this.quick(t) === true) return T.TRUE;
      }
      if (seen.some(([x, y]) => x === a && y === b)) return T.TRUE;
      seen = [...seen, [a, b]];
      const K = (k) => (k === "Object" || k === "Buffer" || k === "URL" ? k : k);
      if (a.kind === "Ext" && b.kind === "Ext") {
        if (a.callee && b.callee && a.callee.name === b.callee.name && !a.constructed) return T.and(this.sameV(a.callee.args, b.callee.args, depth + 1, seen), a.callee.self && b.callee.self ? this.sameV(a.callee.self, b.callee.self, depth + 1, seen) : T.TRUE);
        if (a.extPath === b.extPath && a.extIdx.length === b.extIdx.length) return T.and(a.extIdx.map((t, i) => T.eq(t, b.extIdx[i])));
        return T.FALSE;
      }
      if (a.kind !== b.kind) return T.FALSE;
      switch (a.kind) {
        case "Array": return this.sameSegs(a.segs, b.segs, depth + 1, seen);
        case "Date": return this.sameV(a.t, b.t, depth + 1);
        case "Error": return T.and(this.sameV(this.get(a, "name"), this.get(b, "name")), this.sameV(this.get(a, "message"), this.get(b, "message")));
        case "Function": case "Symbol": return T.FALSE;
        case "Set": return this.sameSegs(this.setSegs(a), this.setSegs(b), depth + 1, seen);
        case "Map": return this.sameV(a.store, b.store, depth + 1, seen);
        case "Buffer": return a.utf8 && b.utf8 ? T.eq(a.utf8, b.utf8) : a.raw && b.raw ? T.eq(a.raw, b.raw) : T.FALSE;
        case "RegExp": return T.boolLit(a.source === b.source && a.flags === b.flags);
        case "Promise": return a.state === b.state ? this.sameV(a.value, b.value, depth + 1, seen) : T.FALSE;
      }
      return this.sameObj(a, b, depth + 1, seen);
    }
    if (typeof a === "number" && typeof b === "number" && Number.isNaN(a) && Number.isNaN(b)) return T.TRUE;
    const r = this.strictEq(a, b);
    return typeof r === "boolean" ? T.boolLit(r) : r;
  },
  sameObj(a, b, depth, seen) {
    const val = (o, k) => { const v = o.props.get(k) instanceof Acc ? this.get(o, k) : this.lookupOwn(o, k); return v === ABSENT ? undefined : this.force(v); };
    const out = [];
    const one = (k) => { const x = val(a, k), y = val(b, k); if (x === undefined && y === undefined) return T.TRUE; if (x instanceof HObj && x.kind === "Function" && y instanceof HObj && y.kind === "Function") return T.boolLit(x === y); return this.sameV(x, y, depth, seen); };
    const finite = (o) => !o.layers && !o.dict;
    if (finite(a) && finite(b)) {
      for (const k of new Set([...this.concreteKeys(a), ...this.concreteKeys(b)])) { const t = one(k); if (t === T.FALSE) return T.FALSE; out.push(t); }
      return T.and(out);
    }
    const k = this.fresh("anykey", "String");
    return one(new Sym(k));
  },
  sameSegs(A, B, depth, seen) {
    const out = [];
    A = A.slice(); B = B.slice();
    const isSeg = (x) => x instanceof Seg;
    const empty = (s) => this.quick(T.eq(s.base.len ?? T.intLit(1), T.intLit(0))) === true || s.cases.every((c) => c.items.length === 0);
    for (;;) {
      while (isSeg(A[0]) && empty(A[0])) A.shift();
      while (isSeg(B[0]) && empty(B[0])) B.shift();
      if (!A.length && !B.length) return T.and(out);
      if (A.length && B.length) {
        const x = A[0], y = B[0];
        if (x instanceof Mark || y instanceof Mark) throw new Unsupported("comparison of loop-carried sequence");
        if (!isSeg(x) && !isSeg(y)) { const t = this.sameV(x, y, depth, seen); if (t === T.FALSE) return t; out.push(t); A.shift(); B.shift(); continue; }
        if (isSeg(x) && isSeg(y) && this.sameBase(x.base, y.base)) {
          A.shift(); B.shift();
          const w = this.fresh("any", x.base.sort);
          if (!this.branch(x.base.inRange(w))) continue;
          this.noteIdx(x.base, w);
          const ix = this.instantiate(x, w), iy = this.instantiate(y, w);
          out.push(this.sameSegs(ix, iy, depth, seen));
          continue;
        }
      }
      // general case: equal lengths and equal elements at an arbitrary index
      const la = termOf(this.arrayLength({ segs: A })), lb = termOf(this.arrayLength({ segs: B }));
      const le = T.eq(la, lb);
      if (this.quick(le) === false) return T.FALSE;
      out.push(le);
      if (!this.branch(le)) return T.FALSE;
      const i = this.fresh("anyidx", "Int");
      if (!this.branch(T.and(T.le(T.intLit(0), i), T.lt(i, la)))) return T.and(out);
      out.push(this.sameV(this.arrayGet({ segs: A }, new Sym(i)), this.arrayGet({ segs: B }, new Sym(i)), depth, seen));
      return T.and(out);
    }
  },
  sameBase(x, y) {
    if (x === y) return true;
    if (x.sort !== y.sort) return false;
    if (x instanceof PrefixBase && y instanceof PrefixBase) return this.sameBase(x.inner, y.inner) && (x.w === y.w || this.holds(T.eq(x.w, y.w)));
    if (x instanceof SuffixBase && y instanceof SuffixBase) return this.sameBase(x.inner, y.inner) && (x.w === y.w || this.holds(T.eq(x.w, y.w)));
    if (x instanceof PrefixBase || y instanceof PrefixBase || x instanceof SuffixBase || y instanceof SuffixBase) return false;
    if (x.key === y.key) return true;
    if (x.root === y.root && x.len && y.len) return x.len === y.len || this.holds(T.eq(x.len, y.len));
    return false;
  },
  holds(t) {
    const q = this.quick(t);
    if (q !== undefined) return q;
    const pc = this.pcTerms();
    const n = T.not(t);
    return this.solver.sat([...slice(pc, [n]), n], { timeout: 1500 }) === "unsat";
  },
  // ---------- discharge of one goal under the current path condition
  proveGoal(g) {
    if (g === T.TRUE || this.quick(g) === true) return { ok: true, by: "simplifier" };
    const n = T.not(g);
    const pc = this.pcTerms();
    let rel = slice(pc, [n]);
    if (this.solver.sat([...rel, n]) === "unsat") return { ok: true, by: "z3" };
    if (rel.length !== pc.length && this.solver.sat([...pc, n]) === "unsat") return { ok: true, by: "z3" };
    // relate structured opaque terms of the same kind
    const facts = this.saturate(g);
    if (facts.length) {
      if (this.solver.sat([...pc, ...facts, n]) === "unsat") return { ok: true, by: "z3+pointwise" };
    }
    const r = this.solver.sat([...pc, ...facts, n], { hard: true, timeout: this.opts.hardTimeout ?? 8000 });
    if (r === "unsat") return { ok: true, by: "portfolio" };
    return { ok: false, r, asserts: [...pc, ...facts, n], why: this.solver.lastWhy };
  },
  saturate(g) {
    const facts = [];
    const groups = new Map();
    const collect = (t) => {
      for (const s of this.subterms(t)) { const e = this.opaqueOf(s); if (e) { const k = e.kind + "/" + s.sort; if (!groups.has(k)) groups.set(k, new Set()); groups.get(k).add(s); } }
    };
    collect(g);
    const goalTerms = new Set([...groups.values()].flatMap((s) => [...s]));
    for (const t of this.pcTerms()) collect(t);
    for (const [, set] of groups) {
      const l = [...set];
      for (let i = 0; i < l.length; i++) for (let j = i + 1; j < l.length; j++) {
        if (!goalTerms.has(l[i]) && !goalTerms.has(l[j])) continue;
        if (l[i] === l[j]) continue;
        if (this.opaqueEqual(l[i], l[j])) { facts.push(T.eq(l[i], l[j])); }
      }
    }
    return facts;
  },
  opaqueEqual(x, y) {
    if ((this.satDepth ?? 0) > 2) return false;
    this.satDepth = (this.satDepth ?? 0) + 1;
    try {
      let p = this.opaquePayload(x), q = this.opaquePayload(y);
      if (this.opaqueOf(x).kind === "join" && p.sep !== q.sep) { p = this.sepless(p); q = this.sepless(q); }
      const ks = Object.keys(p);
      if (ks.length !== Object.keys(q).length) return false;
      const rs = this.nested(() => {
        const goals = [];
        for (const k of ks) {
          if (Array.isArray(p[k])) goals.push(this.sameSegs(p[k], q[k], 0, []));
          else goals.push(this.sameV(p[k], q[k]));
        }
        return this.proveGoal(T.and(goals)).ok;
      });
      return rs.every(Boolean);
    } catch (e) { if (e instanceof Unsupported || e instanceof JSThrow) return false; throw e; } finally { this.satDepth--; }
  },
  // the separator belongs to every element but the first
  sepless(p) {
    if (p.sep === "" || p.segs.length !== 1) return p;
    const s = p.segs[0];
    if (!(s instanceof Seg) || s.base.sort !== "Int" || this.segRegular(s) !== 1) return p;
    const first = T.eq(s.v, s.base.start);
    const cases = s.cases.flatMap((c) => [
      { ...c, cond: T.and(c.cond, first) },
      { ...c, cond: T.and(c.cond, T.not(first)), items: [this.plus(p.sep, this.toStr(c.items[0]))] },
    ]);
    const n = new Seg(s.base, s.v, cases); n.born = s.born;
    return { ...p, segs: [n], sep: "" };
  },
  subterms(t, out = new Set()) { if (out.has(t)) return out; out.add(t); for (const a of t.args) this.subterms(a, out); return out; },
});
export { Interp, S };

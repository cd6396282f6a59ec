// Symbolic state: path exploration, heap with undo trail, symbolic collections, loop summarisation.
import * as T from "./term.mjs";
import { slice } from "./solver.mjs";
import { Sym, Union, HObj, Acc, Seg, Mark, Reserve, Poison, SeqBase, KeysBase, PrefixBase, SuffixBase, Unsupported, Infeasible, JSThrow, PathStop, wrap, nextSerial, peekSerial, isStrV, isNumV, isBoolV, isAtomV } from "./values.mjs";

export const termOf = (v) => {
  if (v instanceof Sym) return v.t;
  if (typeof v === "boolean") return T.boolLit(v);
  if (typeof v === "string") return T.strLit(v);
  if (typeof v === "number" && Number.isFinite(v)) return T.numLit(v);
  return null;
};

export class EngineBase {
  constructor(solver, opts = {}) {
    this.solver = solver;
    this.opts = opts;
    this.maxPaths = opts.maxPaths ?? 4000;
    this.deadline = Infinity;
    this.opaque = new Map(); // name -> {kind, payload, params}
    this.opaqueByCanon = new Map();
    this.resetPath();
  }
  resetPath() {
    this.pc = []; // {t, cond:boolean}
    this.known = new Map();
    this.domains = new Map();
    this.trail = [];
    this.frames = [];
    this.foralls = [];
    this.idxTerms = new Map();
    this.idxLog = []; // index terms in the order they were first used
    this.boundStack = [];
    this.counters = new Map();
    this.lazyMemo = new Map();
    this.instIdx = new Map();
    this.mutated = [];
    this.eqLit = new Map();
    this.steps = 0;
    this.depth = 0;
  }
  // ---------- exploration
  explore(fn) {
    const work = [[]];
    let paths = 0;
    while (work.length) {
      if (++paths > this.maxPaths) throw new Unsupported("path budget exceeded");
      if (Date.now() > this.deadline) throw new Unsupported("time budget exceeded");
      const prefix = work.pop();
      this.resetPath();
      const frame = { prefix, taken: [], pos: 0, pending: [] };
      this.frames.push(frame);
      try { fn(); } catch (e) { if (!(e instanceof Infeasible)) throw e; }
      work.push(...frame.pending.reverse());
    }
    return paths;
  }
  pcTerms() { return this.pc.map((p) => p.t); }
  assume(t, cond = false) {
    if (t === T.TRUE) return;
    if (t === T.FALSE) throw new Infeasible();
    if (t.op === "and") { for (const a of t.args) this.assume(a, cond); return; }
    if (this.known.has(t.id)) { if (!this.known.get(t.id)) throw new Infeasible(); return; }
    const dom = this.domainOf(t);
    if (dom) {
      const left = dom.values.filter((v) => T.subst(t, new Map([[dom.x.id, v]])) !== T.FALSE);
      if (left.length === 0) throw new Infeasible();
      if (left.length < dom.values.length) this.setDomain(dom.x, left);
    } else if (t.op === "or" && t.args.length <= 12) {
      let x = null; const vs = [];
      for (const a of t.args) { const [l, y] = a.op === "=" ? (T.isLit(a.args[0]) ? [a.args[0], a.args[1]] : [a.args[1], a.args[0]]) : []; if (!l || !T.isLit(l) || y.op !== "var" || l.sort !== y.sort || (x && x !== y)) { x = null; break; } x = y; vs.push(l); }
      if (x) this.setDomain(x, vs);
    }
    this.pc.push({ t, cond });
    this.learn(t, true);
    // contrapositive for simple (or a b) not done: solver handles it
  }
  // variables known to be one of a few literals: conditions on one of them are decided by cases
  setDomain(x, values) { const m = (this.domains ??= new Map()), was = m.get(x.id); m.set(x.id, { x, values }); this.trail.push({ undo: () => (was ? m.set(x.id, was) : m.delete(x.id)) }); }
  domainOf(t) {
    if (!this.domains?.size) return undefined;
    const syms = T.symsOf(t);
    if (syms.size !== 1) return undefined;
    return this.domains.get([...syms.values()][0].id);
  }
  learn(t, val) {
    if (this.known.has(t.id)) return;
    this.known.set(t.id, val); this.trail.push({ undo: () => this.known.delete(t.id) });
    const n = T.not(t);
    if (!this.known.has(n.id)) { this.known.set(n.id, !val); this.trail.push({ undo: () => this.known.delete(n.id) }); }
    if (t.op === "=" && val) {
      // x = literal  rules out x = other literals quickly
      const [a, b] = t.args;
      const [l, x] = T.isLit(a) ? [a, b] : T.isLit(b) ? [b, a] : [null, null];
      if (l) { const m = (this.eqLit ??= new Map()); if (!m.has(x.id)) { m.set(x.id, l); this.trail.push({ undo: () => m.delete(x.id) }); } }
    }
  }
  quick(t) {
    if (t === T.TRUE) return true;
    if (t === T.FALSE) return false;
    const k = this.known.get(t.id);
    if (k !== undefined) return k;
    if (t.op === "=") {
      const [a, b] = t.args;
      const [l, x] = T.isLit(a) ? [a, b] : T.isLit(b) ? [b, a] : [null, null];
      if (l && this.eqLit?.has(x.id)) { const m = this.eqLit.get(x.id); if (m.sort === l.sort) return m.v === l.v; }
    }
    if (t.op === "not") { const q = this.quick(t.args[0]); return q === undefined ? undefined : !q; }
    if (t.op === "and") { let all = true; for (const a of t.args) { const q = this.quick(a); if (q === false) return false; if (q !== true) all = false; } return all ? true : undefined; }
    const dom = this.domainOf(t);
    if (dom) {
      let yes = 0, no = 0;
      for (const v of dom.values) { const r = T.subst(t, new Map([[dom.x.id, v]])); if (r === T.TRUE) yes++; else if (r === T.FALSE) no++; else break; }
      if (yes === dom.values.length) return true;
      if (no === dom.values.length) return false;
    }
    if (t.op === "or") { let none = true; for (const a of t.args) { const q = this.quick(a); if (q === true) return true; if (q !== false) none = false; } return none ? false : undefined; }
    return undefined;
  }
  feasible(t) {
    const q = this.quick(t);
    if (q !== undefined) return q;
    const pc = this.pcTerms();
    return this.solver.sat([...slice(pc, [t]), t], { timeout: 700 }) !== "unsat";
  }
  // choose one of several exhaustive conditions; forks
  choose(conds) {
    if (Date.now() > this.deadline) throw new Unsupported("time budget exceeded");
    const qs = conds.map((c) => this.quick(c));
    const sure = qs.indexOf(true);
    if (sure >= 0) return sure;
    const frame = this.frames[this.frames.length - 1];
    let i;
    if (frame.pos < frame.prefix.length) i = frame.prefix[frame.pos];
    else {
      const cand = [];
      const live = conds.map((c, j) => j).filter((j) => qs[j] !== false);
      for (const j of live) {
        // last remaining alternative of an exhaustive choice needs no query
        if (cand.length === 0 && j === live[live.length - 1]) { cand.push(j); break; }
        if (this.feasible(conds[j])) cand.push(j);
      }
      if (cand.length === 0) throw new Infeasible();
      i = cand[0];
      for (const j of cand.slice(1)) frame.pending.push([...frame.taken, j]);
    }
    frame.pos++;
    frame.taken.push(i);
    this.assume(conds[i], true);
    return i;
  }
  branch(c) { // c: Term Bool or boolean
    if (typeof c === "boolean") return c;
    const q = this.quick(c);
    if (q !== undefined) return q;
    return this.choose([c, T.not(c)]) === 0;
  }
  // nondeterministic choice without condition
  fork(n, label = "fork") {
    const name = this.freshName(label);
    const x = T.mkVar(name, "Int");
    const conds = [];
    for (let i = 0; i < n - 1; i++) conds.push(T.eq(x, T.intLit(i)));
    conds.push(T.and(conds.map(T.not)));
    return this.choose(conds);
  }
  freshName(base) { const n = (this.counters.get(base) ?? 0) + 1; this.counters.set(base, n); return `${base}!${n}`; }
  fresh(base, sort) { return T.uf(this.freshName(base), this.boundStack.slice(), sort); }
  // run fn on all nested paths from the current state; state restored afterwards
  nested(fn, onThrow) {
    const results = [];
    const work = [[]];
    let paths = 0;
    while (work.length) {
      if (++paths > 600) throw new Unsupported("nested path budget exceeded");
      const prefix = work.pop();
      const frame = { prefix, taken: [], pos: 0, pending: [] };
      this.frames.push(frame);
      const m = this.mark();
      try { results.push(fn(m)); } catch (e) {
        if (!(e instanceof Infeasible)) { this.undo(m); this.frames.pop(); throw e; }
      }
      this.undo(m);
      this.frames.pop();
      work.push(...frame.pending.reverse());
    }
    return results;
  }
  mark() { return { trail: this.trail.length, pc: this.pc.length, foralls: this.foralls.length, idx: this.idxLog.length, depth: this.depth, bound: this.boundStack.length, born: peekSerial() }; }
  undo(m) {
    while (this.trail.length > m.trail) {
      const e = this.trail.pop();
      if (e.undo) e.undo();
      else if (e.owner && e.owner.id >= m.born) continue; // objects created since the mark keep their state
      else if (e.m) { if (e.had) e.m.set(e.k, e.old); else e.m.delete(e.k); }
      else e.o[e.f] = e.old;
    }
    this.pc.length = m.pc;
    this.foralls.length = m.foralls;
    this.idxLog.length = m.idx;
    this.depth = m.depth;
    this.boundStack.length = m.bound;
  }
  // frame: what the code changed since a mark in the state its own modules hold
  moduleWrites(m) {
    const out = new Map();
    for (let j = m.trail; j < this.trail.length; j++) {
      const e = this.trail[j];
      if (e.undo || !e.owner || e.owner.id === undefined || e.owner.id >= m.born) continue;
      let best = null;
      for (const r of this.moduleRanges ?? []) if (e.owner.id >= r.from && e.owner.id < r.to && (!best || r.from >= best.from)) best = r;
      if (!best?.own) continue;
      const key = e.m ? `${e.owner.id}.p.${typeof e.k === "object" ? "?" : e.k}` : `${e.owner.id}.f.${e.f}`;
      if (!out.has(key)) out.set(key, { e, module: best.key });
    }
    const changed = [];
    for (const { e, module } of out.values()) {
      const was = e.m ? (e.had ? e.old : ABSENT) : e.old, is = e.m ? (e.m.has(e.k) ? e.m.get(e.k) : ABSENT) : e.o[e.f];
      if (was === is || (was instanceof Sym && is instanceof Sym && was.t === is.t)) continue;
      changed.push({ what: `${module}: ${e.owner.kind ?? "variable"} ${e.m ? String(e.k?.description ?? e.k) : e.f}`, is });
    }
    return changed;
  }
  // ---------- mutation primitives
  setField(o, f, v) { if (o.inst || o.ref) this.noteInstMutation(o); this.trail.push({ o, f, old: o[f], owner: o }); o[f] = v; }
  setMap(owner, m, k, v) { if (owner.inst || owner.ref) this.noteInstMutation(owner); this.trail.push({ m, k, had: m.has(k), old: m.get(k), owner }); m.set(k, v); }
  delMap(owner, m, k) { if (m.has(k)) { if (owner.inst || owner.ref) this.noteInstMutation(owner); this.trail.push({ m, k, had: true, old: m.get(k), owner }); m.delete(k); } }
  // input objects that are elements of a symbolic collection: writes are only tracked when aliasing is decided
  noteInstMutation(o) {
    const r = o.inst ?? o.ref;
    if (o.dirty) return;
    o.dirty = true; this.trail.push({ undo: () => { o.dirty = false; } });
    if (r.idx.length === 0) return;
    const bound = new Set(this.boundStack.map((b) => T.ufSymbol(b)));
    for (const t of r.idx) for (const k of T.symsOf(t).keys()) if (bound.has(k) || k.includes("$e")) throw new Unsupported("mutation of an element of a symbolic collection in a loop");
    for (const other of this.instIdx.get(r.path) ?? []) if (other !== r.idx) this.needDistinct(r.idx, other);
    this.mutated.push(r); this.trail.push({ undo: () => this.mutated.pop() });
  }
  needDistinct(a, b) {
    if (a.every((t, i) => t === b[i])) return;
    const eq = T.and(a.map((t, i) => T.eq(t, b[i])));
    if (this.feasible(eq)) throw new Unsupported("possible aliasing of a mutated collection element");
  }
  noteInst(path, idx) {
    const l = this.instIdx.get(path) ?? [];
    this.instIdx.set(path, [...l, idx]); this.trail.push({ undo: () => this.instIdx.set(path, l) });
    for (const m of this.mutated) if (m.path === path) this.needDistinct(m.idx, idx);
  }
  // ---------- forall facts
  noteIdx(base, t) {
    const root = base.root;
    let l = this.idxTerms.get(root);
    if (!l) { l = []; this.idxTerms.set(root, l); }
    if (l.includes(t)) return;
    l.push(t); this.idxLog.push({ base, t }); this.trail.push({ undo: () => { const i = l.lastIndexOf(t); if (i >= 0) l.splice(i, 1); } });
    for (const fa of this.foralls.slice()) if (fa.base.root === root) this.assume(T.implies(fa.base.inRange(t), fa.f(t)));
  }
  addForall(base, f) {
    this.foralls.push({ base, f });
    for (const t of (this.idxTerms.get(base.root) ?? []).slice()) this.assume(T.implies(base.inRange(t), f(t)));
  }
  // ---------- forcing unions
  force(v) {
    let n = 0;
    while (v instanceof Union) {
      if (n++ > 50) throw new Unsupported("union nesting");
      const i = this.choose(v.alts.map((a) => a.cond));
      v = v.alts[i].make();
    }
    if (v instanceof Poison) { const e = new Unsupported("loop-carried value outside the supported accumulator forms: " + v.why); e.poison = v.key; throw e; }
    return v;
  }
  // ---------- substitution on values
  substV(v, map, born, memo = new Map()) {
    if (v instanceof Sym) { const t = T.subst(v.t, map); return t === v.t ? v : wrap(t); }
    if (v instanceof Union) {
      if (memo.has(v)) return memo.get(v);
      const u = new Union(v.key, v.alts.map((a) => ({ cond: T.subst(a.cond, map), make: () => this.substV(a.make(), map, born, memo) })));
      memo.set(v, u);
      return u;
    }
    if (v instanceof Seg) return this.substSeg(v, map, born, memo);
    if (v instanceof HObj) {
      if (memo.has(v)) return memo.get(v);
      const ref = v.inst ?? v.ref;
      if (ref) {
        const idx = ref.idx.map((t) => T.subst(t, map));
        if (idx.every((t, i) => t === ref.idx[i])) return v;
        if (v.dirty) throw new Unsupported("modified element of a symbolic collection");
        return ref.make(idx);
      }
      if (v.id < born) return v;
      if (v.kind === "Function") { const f = new HObj("Function", v.proto); Object.assign(f, { ...v, props: v.props, id: f.id, poisonCall: v.native ? undefined : "closure created per loop element" }); f.kind = "Function"; memo.set(v, f); return f; }
      const o = new HObj(v.kind, v.proto);
      memo.set(v, o);
      for (const [k, x] of v.props) o.props.set(k, x instanceof Acc ? x : this.substV(x, map, born, memo));
      for (const k of Object.keys(v)) {
        if (["kind", "proto", "props", "id"].includes(k)) continue;
        if (k === "segs") o.segs = v.segs.map((x) => this.substV(x, map, born, memo));
        else if (k === "layers") o.layers = v.layers?.map((l) => this.substLayer(l, map, born, memo));
        else o[k] = v[k] instanceof Sym || v[k] instanceof HObj || v[k] instanceof Union ? this.substV(v[k], map, born, memo) : v[k];
      }
      return o;
    }
    return v;
  }
  substLayer(l, map, born, memo) {
    if (l.seg) return { seg: this.substSeg(l.seg, map, born, memo) };
    if (l.k !== undefined) return { ...l, k: this.substV(l.k, map, born, memo), v: this.substV(l.v, map, born, memo) };
    if (l.props) return { props: new Map([...l.props].map(([k, x]) => [k, this.substV(x, map, born, memo)])) };
    return l;
  }
  substSeg(s, map, born, memo) {
    if (map.has(s.v.id)) { map = new Map(map); map.delete(s.v.id); }
    const r = new Seg(this.substBase(s.base, map), s.v, s.cases.map((c) => this.substCase(c, map, born)));
    r.born = Math.min(s.born ?? Infinity, born);
    return r;
  }
  substCase(c, map, born) {
    const memo = new Map();
    return {
      cond: T.subst(c.cond, map), facts: c.facts.map((f) => T.subst(f, map)),
      notes: (c.notes ?? []).map((n) => ({ base: this.substBase(n.base, map), t: T.subst(n.t, map) })),
      foralls: (c.foralls ?? []).map((fa) => ({ base: this.substBase(fa.base, map), f: (t) => { const ph = T.mkVar("$hole", fa.base.sort); return T.subst(T.subst(fa.f(ph), map), new Map([[ph.id, t]])); } })),
      items: c.items.map((x) => this.substV(x, map, born, memo)),
    };
  }
  substBase(b, map) {
    if (b instanceof PrefixBase) return new PrefixBase(this.substBase(b.inner, map), T.subst(b.w, map));
    if (b instanceof SuffixBase) return new SuffixBase(this.substBase(b.inner, map), T.subst(b.w, map));
    return b.substFn ? b.substFn(map) : b;
  }
  // choose the case of seg at index term w, assume its facts, return its items
  instantiate(seg, w) {
    this.noteIdx(seg.base, w);
    const map = new Map([[seg.v.id, w]]);
    const conds = seg.cases.map((c) => T.subst(c.cond, map));
    const i = seg.cases.length === 1 ? 0 : this.choose(conds);
    return this.enterCase(seg, seg.cases[i], w, map);
  }
  enterCase(seg, c, w, map = new Map([[seg.v.id, w]])) {
    const cs = w === seg.v ? c : this.substCase(c, map, seg.born ?? Infinity);
    this.assume(cs.cond);
    for (const f of cs.facts) this.assume(f);
    for (const n of cs.notes ?? []) this.noteIdx(n.base, n.t);
    for (const fa of cs.foralls ?? []) this.addForall(fa.base, fa.f);
    return cs.items;
  }
  // ---------- iteration with summarisation
  iterate(segs, body, raw = false) { // raw: a break is reported, not absorbed
    for (const e of segs) {
      if (e instanceof Mark) throw new Unsupported("iteration over a loop-carried accumulator");
      const c = e instanceof Seg ? this.summarize(e, body) : body(e);
      if (!c) continue;
      if (c.k === "continue" && !c.l) continue;
      if (c.k === "break" && !c.l && !raw) return undefined;
      if (c.k === "$done") continue;
      return c;
    }
    return undefined;
  }
  // Loop-carried locations are treated, in this order, as: "stable" (never changes), "acc" (accumulates),
  // "lin" (advances by a constant), "pin" (keeps its value until some first iteration changes it).
  summarize(seg, body) {
    const bv = T.mkVar(this.freshName("$i"), seg.base.sort);
    const locs = new Map();
    let cases;
    for (let pass = 0; ; pass++) {
      if (pass > 24) throw new Unsupported("loop write-set does not stabilise");
      const m0 = this.mark();
      const born = peekSerial();
      this.installPlaceholders(locs, seg, bv);
      this.boundStack.push(bv);
      const outerBorn = this.loopBorn;
      this.loopBorn = born;
      let failed = null;
      const discovered = new Map();
      try {
        cases = this.nested((m) => {
          this.assume(seg.base.inRange(bv));
          const items = this.instantiate(seg, bv);
          let comp;
          try {
            comp = this.iterate(items, (x) => body(x, bv.sort === "Int" && items.length === 1 ? bv : null), true);
          } catch (e) {
            if (!(e instanceof JSThrow)) throw e;
            comp = { k: "throw", v: e.value };
          }
          if (comp && comp.k === "continue" && !comp.l) comp = undefined;
          for (const l of locs.values()) if (l.mode === "pin" && typeof l.phCur === "boolean") { const f = l.get(); if (f instanceof Sym && f.sort === "Bool") l.set(this.branch(f.t)); }
          for (let j = m.trail; j < this.trail.length; j++) this.noteWrite(discovered, this.trail[j], born);
          const res = { comp, conds: [], facts: [], foralls: this.foralls.slice(m.foralls), notes: this.idxLog.slice(m.idx), finals: new Map() };
          for (let j = m.pc; j < this.pc.length; j++) (this.pc[j].cond ? res.conds : res.facts).push(this.pc[j].t);
          for (const [k, l] of locs) res.finals.set(k, this.snapshot(l.get(), l));
          return res;
        });
      } catch (e) {
        if (!(e instanceof Unsupported)) throw e;
        const l = e.poison !== undefined ? locs.get(e.poison) : undefined;
        if (l && l.mode === "acc" && this.pinnable(l)) { this.undo(m0); l.mode = "pin"; continue; }
        failed = e;
      } finally { this.loopBorn = outerBorn; }
      this.undo(m0);
      if (failed) throw failed;
      let grew = false;
      for (const [k, l] of discovered) if (!locs.has(k)) { l.mode = "stable"; locs.set(k, l); grew = true; }
      if (grew) continue;
      const again = this.escalate(locs, cases, bv);
      for (const l of locs.values()) if (l.mode === "pin") { const f = l.get(); if (f instanceof Sym && f.sort === "Bool") l.set(this.branch(f.t)); }
      if (!again) return this.finishSummary(seg, bv, born, locs, cases, body);
    }
  }
  pinnable(l) { const v = l.init; return v === undefined || v === null || v === ABSENT || typeof v === "boolean" || typeof v === "string" || typeof v === "number"; }
  // a placeholder mutated in place keeps its identity; remember its contents
  snapshot(v, l) {
    if (!(v instanceof HObj) || v !== l.phCur || l.mode !== "acc") return v;
    if (v.segs && v.segs.length === 1 && v.segs[0] instanceof Mark) return v;
    if (v.layers && v.layers.length === 1 && v.props.size === 0) return v;
    const c = new HObj(v.kind, v.proto);
    if (v.segs) c.segs = v.segs; if (v.layers) c.layers = v.layers;
    for (const [k, x] of v.props) c.props.set(k, x);
    c.inPlaceOf = v;
    return c;
  }
  // change the treatment of locations whose present treatment does not fit; true when another pass is needed
  escalate(locs, cases, bv) {
    let again = false;
    for (const [k, l] of locs) {
      const fins = cases.filter((c) => !c.comp).map((c) => c.finals.get(k));
      const all = cases.map((c) => c.finals.get(k));
      if (l.mode === "stable") { if (all.some((f) => f !== l.phCur)) { l.mode = "acc"; again = true; } continue; }
      if (l.mode !== "acc") continue;
      // an integer accumulator that received real increments is real
      if (l.phCur instanceof Sym && l.phCur.sort === "Int" && !l.forceReal && all.some((f) => f !== l.phCur && isNumV(f) && (!(f instanceof Sym) ? !Number.isInteger(f) : f.sort === "Real"))) { l.forceReal = true; again = true; }
    }
    if (again) return true;
    // does anything but the location itself depend on its placeholder?
    for (const [k, l] of locs) {
      if (l.mode !== "acc" || !this.usedElsewhere(k, l, locs, cases)) continue;
      const d = this.constantStep(k, l, cases);
      if (l.kind === "segs" && !l.oneEach && l.initLen && this.addsOneEach(k, l, cases) && bv?.sort === "Int") { l.oneEach = true; again = true; }
      else if (d !== null && l.canLin) { l.mode = "lin"; l.step = d; again = true; } else if (this.pinnable(l)) { l.mode = "pin"; again = true; } else throw new Unsupported("loop-carried dependency outside the supported accumulator forms");
    }
    return again;
  }
  addsOneEach(k, l, cases) {
    return cases.every((c) => { if (c.comp) return true; const f = c.finals.get(k); return Array.isArray(f) && f[0] === l.phCur[0] && f.length === 2 && !(f[1] instanceof Seg) && !(f[1] instanceof Mark); });
  }
  constantStep(k, l, cases) {
    if (!(l.phCur instanceof Sym) || l.phCur.sort !== "Int") return null;
    let d = null;
    for (const c of cases) {
      if (c.comp) continue;
      const f = c.finals.get(k);
      if (!isNumV(f) || !termOf(f)) return null;
      const x = f === l.phCur ? T.intLit(0) : T.sub(termOf(f), l.phCur.t);
      if (!T.isLit(x) || (d !== null && d !== x)) return null;
      d = x;
    }
    return d;
  }
  usedElsewhere(k, l, locs, cases) {
    const ph = l.phCur;
    const inTerm = (t) => (ph instanceof Sym && T.symsOf(t).has(T.ufSymbol(ph.t))) || (l.lenVar !== undefined && !l.oneEach && T.symsOf(t).has(T.ufSymbol(l.lenVar)));
    for (const l2 of locs.values()) if (l2.fills?.some((t) => inTerm(t) && t !== l.lenVar)) return true;
    for (const c of cases) {
      if (c.conds.some(inTerm) || c.facts.some(inTerm) || c.notes.some((n) => inTerm(n.t))) return true;
      if (c.foralls.some((fa) => inTerm(fa.f(T.mkVar("$hole", fa.base.sort))))) return true;
      if (c.comp && this.dependsOn(c.comp.v, ph)) return true;
      for (const [k2] of locs) {
        const f = c.finals.get(k2);
        if (k2 !== k) { if (this.dependsOn(f, ph, undefined, true)) return true; continue; }
        if (f !== ph) { const e = this.classify(l, f, true); if (!e) return true; }
      }
    }
    return false;
  }
  noteWrite(out, e, born) {
    if (e.undo || !e.owner || e.owner.id === undefined || e.owner.id >= born) return;
    const owner = e.owner;
    if (e.m) {
      const key = `${owner.id}.p.${typeof e.k === "object" ? "?" : e.k}`;
      if (!out.has(key)) out.set(key, { kind: "map", owner, m: e.m, k: e.k, get: () => (e.m.has(e.k) ? e.m.get(e.k) : ABSENT), set: (v) => { if (v === ABSENT) this.delMap(owner, e.m, e.k); else this.setMap(owner, e.m, e.k, v); } });
    } else {
      const key = `${owner.id}.f.${e.f}`;
      if (!out.has(key)) out.set(key, { kind: e.f === "segs" ? "segs" : e.f === "layers" ? "layers" : "field", owner, f: e.f, get: () => e.o[e.f], set: (v) => this.setField(e.o, e.f, v) });
    }
  }
  installPlaceholders(locs, seg, bv) {
    for (const [key, l] of locs) {
      const cur = l.get();
      l.init = cur;
      let ph;
      if (l.mode === "stable" || l.mode === "pin") { l.phCur = cur; continue; }
      if (l.kind === "segs") ph = [this.loopMark(key, l, cur, seg, bv)];
      else if (l.kind === "layers") ph = [{ mark: key }];
      else if (isStrV(cur)) ph = new Sym(this.fresh("acc$s", "String"));
      else if (isNumV(cur)) {
        const real = l.forceReal || (typeof cur === "number" ? !Number.isInteger(cur) : cur.sort === "Real");
        l.canLin = !real && bv.sort === "Int" && !!termOf(cur);
        ph = l.mode === "lin" ? wrap(T.add(termOf(cur), T.mul(l.step, T.sub(bv, seg.base.start)))) : new Sym(this.fresh("acc$n", real ? "Real" : "Int"));
      } else if (isBoolV(cur)) ph = new Sym(this.fresh("acc$b", "Bool"));
      else if (cur instanceof HObj && cur.kind === "Array") { ph = new HObj("Array", cur.proto); ph.segs = [new Mark(key)]; }
      else if (cur instanceof HObj && cur.kind === "Object" && !cur.inst && this.isPlain(cur)) { ph = new HObj("Object", cur.proto); ph.layers = [{ mark: key }]; }
      else ph = new Poison(`loop-carried ${key}`, key);
      l.phCur = ph;
      l.set(ph);
    }
  }
  // stands for the elements gathered by earlier iterations; its length is known when every iteration adds exactly one
  loopMark(key, l, cur, seg, bv) {
    const m = new Mark(key);
    m.fills = l.fills = [];
    l.initLen = null;
    l.lenRead = false;
    if (cur.length === 1 && cur[0] instanceof Reserve) l.initLen = T.intLit(0);
    else if (!cur.some((e) => e instanceof Mark)) { const n = this.arrayLength({ segs: cur }); l.initLen = termOf(n); }
    l.lenVar ??= this.fresh("acc$len", "Int");
    m.lenVar = l.lenVar; m.oneEach = l.oneEach;
    m.lenNow = () => (l.oneEach ? T.add(l.initLen, T.sub(bv, seg.base.start)) : l.lenVar);
    l.mark = m;
    return m;
  }
  isPlain(o) { return o.proto === this.realm?.ObjectProto || o.proto === null; }
  finishSummary(seg, bv, born, locs, cases, body) {
    for (const [k, l] of locs) {
      if (!l.fills?.length) continue;
      const at = seg.base.sort === "Int" && l.initLen ? T.add(l.initLen, T.sub(bv, seg.base.start)) : null;
      if (l.fills.every((t) => t === l.lenVar)) continue; // always at its end
      if (!at || !l.fills.every((t) => T.sub(t, at) === T.intLit(0)) || !this.addsOneEach(k, l, cases)) throw new Unsupported("assignment to symbolic array element" + (process.env.VDEBUG ? `${l.initLen} ${l.fills.length} ${l.fills.map((t) => T.smt(T.sub(t, at)))} ${this.addsOneEach(k, l, cases)}` : ""));
    }
    // normalise cases
    for (const c of cases) {
      c.cond = T.and(c.conds);
      c.effects = new Map();
      for (const [k, l] of locs) {
        const e = this.classify(l, c.finals.get(k));
        if (l.mode === "pin" && e.type !== "none" && !c.comp) c.comp = { k: "$phase" };
        c.effects.set(k, e);
      }
    }
    if ((seg.phase ?? 0) > 4 && cases.some((c) => c.comp?.k === "$phase")) throw new Unsupported("loop-carried state changes too often");
    const exits = cases.filter((c) => c.comp);
    const normals = cases.filter((c) => !c.comp);
    const mkSeg = (base, list, itemsOf) => { const s = new Seg(base, bv, list.map((c) => ({ cond: c.cond, facts: c.facts, foralls: c.foralls, notes: c.notes, items: itemsOf(c) }))); s.born = born; return s; };
    const applyAll = (base) => {
      for (const [k, l] of locs) this.applyLoc(l, k, base, bv, born, normals, mkSeg);
    };
    const exitCond = (t) => T.or(exits.map((c) => T.subst(c.cond, new Map([[bv.id, t]]))));
    if (exits.length === 0) { applyAll(seg.base); return undefined; }
    // does some iteration exit?
    const w = this.fresh("w", seg.base.sort);
    const which = this.fork(2, "exit");
    if (which === 0) {
      if (normals.length === 0) {
        // every element exits: no exit means empty range
        this.addForall(seg.base, () => T.FALSE);
        if (seg.base instanceof SeqBase) this.assume(T.eq(seg.base.len, T.intLit(0)));
        this.checkFeasible();
        return { k: "$done" };
      }
      this.addForall(seg.base, (t) => T.not(exitCond(t)));
      applyAll(seg.base);
      this.checkFeasible();
      return { k: "$done" };
    }
    this.assume(seg.base.inRange(w));
    if (normals.length === 0 && seg.base.sort === "Int") this.assume(T.eq(w, seg.base.start)); // every element exits: the first one does
    const prefix = new PrefixBase(seg.base, w);
    this.addForall(prefix, (t) => T.not(exitCond(t)));
    this.noteIdx(seg.base, w);
    const map = new Map([[bv.id, w]]);
    const ei = exits.length === 1 ? (this.assume(T.subst(exits[0].cond, map), true), 0) : this.chooseAmong(exits.map((c) => T.subst(c.cond, map)));
    const c = exits[ei];
    this.enterCase({ v: bv, born }, { cond: c.cond, facts: c.facts, foralls: c.foralls, notes: c.notes, items: [] }, w, map);
    this.checkFeasible();
    // state: accumulated prefix, then this iteration's own effects
    for (const [k, l] of locs) {
      this.applyLoc(l, k, prefix, bv, born, normals, mkSeg);
    }
    const memo = new Map();
    const S = (v) => this.substV(v, map, born, memo);
    for (const [k, l] of locs) {
      const e = c.effects.get(k);
      this.applyEffect(l, e, S, map, born);
    }
    if (c.comp.k === "throw") throw new JSThrow(S(c.comp.v));
    if (c.comp.k === "return") return { k: "return", v: S(c.comp.v) };
    if (c.comp.k === "$phase") {
      const rest = new Seg(new SuffixBase(seg.base, w), seg.v, seg.cases);
      rest.born = seg.born; rest.phase = (seg.phase ?? 0) + 1;
      return this.summarize(rest, body) ?? { k: "$done" };
    }
    return c.comp;
  }
  // like choose, but the conditions need not be exhaustive
  chooseAmong(conds) {
    const frame = this.frames[this.frames.length - 1];
    let i;
    if (frame.pos < frame.prefix.length) i = frame.prefix[frame.pos];
    else {
      const cand = conds.map((c, j) => j).filter((j) => this.feasible(conds[j]));
      if (cand.length === 0) throw new Infeasible();
      i = cand[0];
      for (const j of cand.slice(1)) frame.pending.push([...frame.taken, j]);
    }
    frame.pos++; frame.taken.push(i);
    this.assume(conds[i], true);
    return i;
  }
  checkFeasible() {
    const pc = this.pcTerms();
    if (this.solver.sat(pc, { timeout: 700 }) === "unsat") throw new Infeasible();
  }
  classify(l, fin, probe = false) {
    const ph = l.phCur;
    if (fin === ph) return l.mode === "lin" ? { type: "sum", t: T.intLit(0) } : { type: "none" };
    if (l.mode === "stable") throw new Unsupported("unstable location");
    if (l.mode === "pin") return { type: "set", v: fin };
    if (l.kind === "segs") {
      if (fin[0] === ph[0] && !fin.slice(1).includes(ph[0])) return fin.length === 1 ? { type: "none" } : { type: "append", items: fin.slice(1) };
      if (probe) return null;
      throw new Unsupported("loop rewrites an outer array");
    }
    if (l.kind === "layers") {
      if (fin?.[0] === ph[0]) return fin.length === 1 ? { type: "none" } : { type: "layers", layers: fin.slice(1) };
      if (probe) return null;
      throw new Unsupported("loop rewrites an outer object");
    }
    if (ph instanceof Sym && ph.sort === "String" && isStrV(fin)) {
      const parts = T.flatConcat(termOf(fin));
      if (parts[0] === ph.t && !parts.slice(1).some((p) => T.symsOf(p).has(T.ufSymbol(ph.t)))) return { type: "concat", t: T.concatList(parts.slice(1)) };
    }
    if (l.mode === "lin") return { type: "sum", t: T.sub(termOf(fin), termOf(ph)) };
    if (ph instanceof Sym && (ph.sort === "Int" || ph.sort === "Real") && isNumV(fin) && termOf(fin)) {
      const d = T.sub(termOf(fin), ph.t);
      if (!T.symsOf(d).has(T.ufSymbol(ph.t))) return { type: "sum", t: d };
    }
    if (ph instanceof HObj && fin instanceof HObj && ph.kind === "Array" && fin.kind === "Array" && fin.segs[0] === ph.segs[0]) return { type: "arr", items: fin.segs.slice(1), proto: fin.proto, inPlace: fin.inPlaceOf === ph };
    if (ph instanceof HObj && fin instanceof HObj && ph.kind === "Object" && fin.kind === "Object" && !fin.inst && fin.layers?.[0] === ph.layers[0]) {
      if (fin.inPlaceOf === ph) { if (probe) return null; throw new Unsupported("loop mutates a replaced object in place"); }
      const ls = fin.layers.slice(1);
      if (fin.props.size) ls.push({ props: fin.props });
      return { type: "obj", layers: ls };
    }
    if (this.dependsOn(fin, ph)) { if (probe) return null; throw new Unsupported("loop-carried dependency outside the supported accumulator forms"); }
    return { type: "set", v: fin };
  }
  dependsOn(v, ph, seen = new Set()) {
    if (v === ph) return !(v === undefined || v === null || typeof v !== "object");
    const lv = Array.isArray(ph) && ph[0] instanceof Mark && ph[0].lenVar && !ph[0].oneEach ? T.ufSymbol(ph[0].lenVar) : undefined;
    if (v instanceof Sym) return (ph instanceof Sym && T.symsOf(v.t).has(T.ufSymbol(ph.t))) || (lv !== undefined && T.symsOf(v.t).has(lv));
    if (v instanceof Union) return ph instanceof Sym && v.alts.some((a) => T.symsOf(a.cond).has(T.ufSymbol(ph.t)));
    if (Array.isArray(v)) return v.some((x) => this.dependsOn(x, ph, seen));
    if (v instanceof Seg) return v.cases.some((c) => (ph instanceof Sym && [c.cond, ...c.facts].some((t) => T.symsOf(t).has(T.ufSymbol(ph.t)))) || c.items.some((x) => this.dependsOn(x, ph, seen)));
    if (v instanceof Mark) return Array.isArray(ph) && ph[0] === v;
    if (v instanceof HObj) {
      if (seen.has(v)) return false; seen.add(v);
      if (ph instanceof HObj && v.segs && ph.segs && v.segs.includes(ph.segs[0])) return true;
      if (Array.isArray(ph) && v.layers && v.layers[0] === ph[0]) return true;
      for (const x of v.props.values()) if (this.dependsOn(x, ph, seen)) return true;
      for (const x of v.segs ?? []) if (this.dependsOn(x, ph, seen)) return true;
      for (const x of v.layers ?? []) if (this.dependsOn(x.seg ?? x.v ?? (x.props ? [...x.props.values()] : undefined), ph, seen) || (x.k !== undefined && this.dependsOn(x.k, ph, seen))) return true;
      return false;
    }
    if (v && typeof v === "object" && v.seg) return this.dependsOn(v.seg, ph, seen);
    return false;
  }
  applyEffect(l, e, S, map, born) {
    const cur = l.get();
    switch (e.type) {
      case "none": return;
      case "append": return l.set([...cur, ...e.items.map(S)]);
      case "layers": return l.set([...(cur ?? this.toLayers(l.owner)), ...e.layers.map((x) => this.substLayer(x, map, born, new Map()))]);
      case "concat": return l.set(wrap(T.concat(termOf(cur), T.subst(e.t, map))));
      case "sum": return l.set(wrap(T.add(termOf(cur), T.subst(e.t, map))));
      case "arr": { if (e.inPlace) return this.setField(cur, "segs", [...cur.segs, ...e.items.map(S)]); const a = new HObj("Array", cur.proto); a.segs = [...cur.segs, ...e.items.map(S)]; return l.set(a); }
      case "obj": { const o = new HObj("Object", cur.proto); o.layers = [...this.layersOf(cur), ...e.layers.map((x) => this.substLayer(x, map, born, new Map()))]; return l.set(o); }
      case "set": return l.set(e.v === ABSENT ? ABSENT : S(e.v));
    }
  }
  layersOf(o) { const l = o.layers ? o.layers.slice() : o.dict || o.inst ? [{ base: o }] : []; if (o.props.size) l.push({ props: new Map(o.props) }); return l; }
  toLayers(o) { return this.layersOf(o); }
  applyLoc(l, key, base, bv, born, normals, mkSeg) {
    const types = new Set(normals.map((c) => c.effects.get(key).type).filter((t) => t !== "none"));
    if (types.size === 0) return;
    if (types.size > 1) throw new Unsupported("mixed accumulator updates in loop: " + [...types]);
    const type = [...types][0];
    const cur = l.get();
    const eff = (c) => c.effects.get(key);
    switch (type) {
      case "append": {
        const s = mkSeg(base, normals, (c) => eff(c).items ?? []);
        if (cur.length === 1 && cur[0] instanceof Reserve && this.quick(T.eq(this.segLength(s), cur[0].len)) === true) { l.set([s]); return; }
        l.set([...cur, s]); return;
      }
      case "arr": { if (normals.some((c) => eff(c).inPlace)) throw new Unsupported("loop mutates a replaced array in place"); const a = new HObj("Array", cur.proto); a.segs = [...cur.segs, mkSeg(base, normals, (c) => eff(c).items ?? [])]; l.set(a); return; }
      case "layers": case "obj": {
        // entries as [k,v] pairs, last wins
        const seg = mkSeg(base, normals, (c) => (eff(c).layers ?? []).flatMap((x) => {
          if (x.k !== undefined) return [{ k: x.k, v: x.v }];
          if (x.props) return [...x.props].map(([k, v]) => ({ k, v }));
          if (x.seg) return [x.seg];
          throw new Unsupported("object accumulator");
        }).map((p) => { if (p instanceof Seg) return p; const a = new HObj("Array", this.realm.ArrayProto); a.segs = [p.k, p.v]; return a; }));
        if (type === "layers") l.set([...(cur ?? this.layersOf(l.owner)), { seg }]);
        else { const o = new HObj("Object", cur.proto); o.layers = [...this.layersOf(cur), { seg }]; l.set(o); }
        return;
      }
      case "concat": {
        const s = mkSeg(base, normals, (c) => [wrap(eff(c).t ?? T.strLit(""))]);
        l.set(wrap(T.concat(termOf(cur), this.opaqueTerm("join", { segs: [s], sep: "" }, "String"))));
        return;
      }
      case "sum": {
        const deltas = normals.map((c) => eff(c).t ?? T.intLit(0));
        const same = deltas.every((d) => d === deltas[0]) && !T.symsOf(deltas[0]).has(T.ufSymbol(bv));
        if (same && base.len) { l.set(wrap(T.add(termOf(cur), T.mul(deltas[0], base.len)))); return; }
        const real = deltas.some((d) => d.sort === "Real");
        const s = mkSeg(base, normals, (c) => [wrap(eff(c).t ?? T.intLit(0))]);
        const sum = this.opaqueTerm("sum", { segs: [s] }, real ? "Real" : "Int");
        if (deltas.every((d) => T.isLit(d) && d.v >= 0)) { this.assume(T.le(T.intLit(0), sum)); }
        l.set(wrap(T.add(termOf(cur), sum)));
        return;
      }
      case "set": {
        const setCases = normals.filter((c) => eff(c).type === "set");
        const rest = normals.filter((c) => eff(c).type !== "set");
        const cond = (t) => T.or(setCases.map((c) => T.subst(c.cond, new Map([[bv.id, t]]))));
        const k = this.fork(2, "lastset");
        if (k === 0) {
          if (rest.length === 0) { this.addForall(base, () => T.FALSE); if (base instanceof SeqBase) this.assume(T.eq(base.len, T.intLit(0))); }
          else this.addForall(base, (t) => T.not(cond(t)));
          this.checkFeasible();
          return;
        }
        const w = this.fresh("wl", base.sort);
        this.assume(base.inRange(w));
        this.noteIdx(base, w);
        if (rest.length === 0 && base instanceof SeqBase) this.assume(T.eq(w, T.sub(base.len, T.intLit(1))));
        this.addForall(base, (t) => T.implies(base.before(w, t), T.not(cond(t))));
        const map = new Map([[bv.id, w]]);
        const i = setCases.length === 1 ? (this.assume(T.subst(setCases[0].cond, map), true), 0) : this.chooseAmong(setCases.map((c) => T.subst(c.cond, map)));
        const c = setCases[i];
        this.enterCase({ v: bv, born }, { cond: c.cond, facts: c.facts, foralls: c.foralls, notes: c.notes, items: [] }, w, map);
        this.checkFeasible();
        const v = eff(c).v;
        l.set(v === ABSENT ? ABSENT : this.substV(v, map, born));
        return;
      }
    }
  }
  // ---------- opaque terms standing for structured payloads (joins, sums, JSON texts, counts...)
  opaqueTerm(kind, payload, sort) {
    const free = this.boundStack.slice();
    const c = this.canonPayload(payload, free);
    const key = kind + "/" + sort + "/" + c.text;
    let e = this.opaqueByCanon.get(key);
    const params = free.filter((b) => c.used.has(b.id));
    if (!e) {
      e = { name: `${kind}$${this.opaqueByCanon.size}`, kind, payload, params, born: peekSerial() };
      this.opaqueByCanon.set(key, e);
      this.opaque.set(e.name, e);
    }
    return T.uf(e.name, params, sort);
  }
  opaqueOf(t) { return t.op === "uf" || t.op === "var" ? this.opaque.get(t.name) : undefined; }
  opaquePayload(t) {
    const e = this.opaqueOf(t);
    if (!e) return null;
    if (e.params.length === 0) return e.payload;
    const map = new Map(e.params.map((p, i) => [p.id, t.args[i]]));
    const out = {};
    for (const k of Object.keys(e.payload)) {
      const p = e.payload[k];
      out[k] = Array.isArray(p) ? p.map((x) => this.substV(x, map, 0)) : this.substV(p, map, 0);
    }
    return out;
  }
  canonPayload(payload, free) {
    const used = new Set();
    const map = new Map(free.map((b, i) => [b.id, T.mkVar(`$p${i}`, b.sort)]));
    let depth = 0;
    const seen = new Map();
    const term = (t, m) => { for (const [, s] of T.symsOf(t)) if (map.has(s.id)) used.add(s.id); return "t" + T.subst(t, m).id; };
    const val = (v, m) => {
      if (v === undefined) return "u";
      if (v === null) return "n";
      if (v instanceof Sym) return term(v.t, m);
      if (v instanceof Union) return "U(" + v.alts.map((a) => term(a.cond, m)).join(",") + ")";
      if (v instanceof Seg) {
        const cv = T.mkVar(`$q${depth++}`, v.base.sort);
        const m2 = new Map(m); m2.set(v.v.id, cv);
        const cs = v.cases.map((c) => `${term(c.cond, m2)}:${c.items.map((x) => val(x, m2)).join(",")}`).sort();
        depth--;
        return `S(${base(v.base, m)};${cs.join("|")})`;
      }
      if (v instanceof Mark) return "M" + v.name;
      if (v instanceof HObj) {
        const ref = v.inst ?? v.ref;
        if (ref && !v.dirty) return `I${ref.path}[${ref.idx.map((t) => term(t, m)).join(",")}]`;
        if (seen.has(v)) return "@" + seen.get(v);
        seen.set(v, seen.size);
        if (v.kind === "Function" || v.kind === "Ext") return `${v.kind}#${v.extPath ?? v.id}`;
        let s = v.kind + "{" + [...v.props].map(([k, x]) => JSON.stringify(k) + ":" + (x instanceof Acc ? "acc" : val(x, m))).join(",") + "}";
        if (v.segs) s += "[" + v.segs.map((x) => val(x, m)).join(",") + "]";
        if (v.layers) s += "L" + v.layers.map((l) => (l.seg ? val(l.seg, m) : l.k !== undefined ? val(l.k, m) + "=" + val(l.v, m) : l.props ? [...l.props].map(([k, x]) => k + ":" + val(x, m)).join() : l.base ? "B" + val(l.base, m) : "?")).join(";");
        if (v.t !== undefined) s += "t" + val(v.t, m);
        if (v.kind === "Object" && !this.isPlain(v)) s += "P" + (v.proto?.id ?? "");
        return s;
      }
      if (Array.isArray(v)) return "[" + v.map((x) => val(x, m)).join(",") + "]";
      return typeof v + JSON.stringify(v);
    };
    const base = (b, m) => {
      if (b instanceof PrefixBase) return `${base(b.inner, m)}<${term(b.w, m)}`;
      if (b instanceof SuffixBase) return `${base(b.inner, m)}>${term(b.w, m)}`;
      return b.canon ? b.canon((t) => term(t, m)) : b.key;
    };
    const text = Object.keys(payload).sort().map((k) => k + "=" + val(payload[k], map)).join("&");
    return { text, used };
  }
}
export const ABSENT = { absent: true };

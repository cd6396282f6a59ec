// Object model, operators, promises: methods mixed into Interp.
import * as T from "./term.mjs";
import { Sym, Union, HObj, Acc, Seg, Mark, Reserve, Poison, SeqBase, KeysBase, PrefixBase, Unsupported, Infeasible, JSThrow, PathStop, wrap, nextSerial, peekSerial, isStrV, isNumV, isBoolV, isAtomV } from "./values.mjs";
import { termOf, ABSENT } from "./engine.mjs";
import { Interp } from "./interp.mjs";

const P = Interp.prototype;
const isIdx = (k) => /^(0|[1-9]\d*)$/.test(k);
const def = (o) => Object.assign(P, o);
export const NUM2STR = (t) => T.uf("num2str", [T.toReal(t)], "String");

def({
  // ---------- property access
  get(o, k, node) {
    o = this.force(o);
    if (o === undefined || o === null) {
      this.throwError("TypeError", typeof k === "string" ? `Cannot read properties of ${o} (reading '${k}')` : `Cannot read properties of ${o}`);
    }
    if (typeof k === "number") { if (o instanceof HObj && o.segs && o.kind === "Array") return this.arrayGet(o, k); if (isStrV(o)) return this.charAt(o, k); k = String(k); }
    if (k instanceof Sym && k.sort !== "String") {
      if (o instanceof HObj && o.kind === "Array") return this.arrayGet(o, k);
      if (isStrV(o)) return this.charAt(o, k);
      k = this.toStr(k);
    }
    if (isStrV(o)) {
      if (k === "length") return wrap(T.strLen(termOf(o)));
      if (typeof k === "string" && isIdx(k)) return this.charAt(o, Number(k));
      return this.protoGet("String", k, o, node);
    }
    if (isNumV(o)) return this.protoGet("Number", k, o, node);
    if (isBoolV(o)) return this.protoGet("Boolean", k, o, node);
    if (typeof o === "bigint") return this.protoGet("BigInt", k, o, node);
    if (isAtomV(o)) return this.unsupported(`property ${k} of an abstract value`, node);
    return this.getFrom(o, k, o, node);
  },
  getOpt(o, k) { return this.get(o, k); },
  protoGet(type, k, o, node) {
    const p = this.realm.protos[type];
    if (typeof k !== "string") this.unsupported("symbolic property of primitive", node);
    if (p.props.has(k)) return p.props.get(k);
    const op = this.realm.ObjectProto;
    if (op.props.has(k)) return op.props.get(k);
    if (this.realm.knownMissing?.(type, k)) this.unsupported(`${type}.prototype.${k}`, node);
    return undefined;
  },
  getFrom(start, k, receiver, node) {
    let o = start;
    for (let i = 0; o && i < 60; i++) {
      const v = this.ownGet(o, k);
      if (v !== ABSENT) {
        if (v instanceof Acc) {
          if (v.get === null) return undefined;
          if (v.get.host) return v.get.host();
          return this.call(v.get, receiver, []);
        }
        if (v instanceof Poison) throw new Unsupported(v.why);
        return v;
      }
      if (o.kind === "Ext" && !(o.proto)) return this.extProp(receiver instanceof HObj && receiver.kind === "Ext" ? receiver : o, k);
      if (o.kind === "Ext") { // constructed subclass instance: user prototype chain first
        let p = o.proto;
        while (p) {
          const pv = this.ownGet(p, k);
          if (pv !== ABSENT) return pv instanceof Acc ? (pv.get ? this.call(pv.get, receiver, []) : undefined) : pv;
          p = p.proto;
        }
        return this.extProp(o, k);
      }
      o = o.proto;
    }
    if (start.kind === "Function" && start.classInfo) {
      let c = start;
      while (c && c.classInfo) c = c.classInfo.parent;
      if (c && c.kind === "Ext") return this.extProp(c, k);
    }
    if (typeof k === "string" && start instanceof HObj && start.kind !== "Object" && this.realm.knownMissing?.(start.kind, k)) this.unsupported(`${start.kind}.prototype.${k}`, node);
    return undefined;
  },
  ownGet(o, k) {
    if (o.kind === "Array") {
      if (k === "length") return this.arrayLength(o);
      if (typeof k === "string" && isIdx(k)) { return this.arrayGet(o, Number(k)); }
      if (k instanceof Sym) this.unsupported("symbolic string index on array");
    }
    if (o.kind === "Function" && k === "prototype" && o.lazyProto && !o.props.has("prototype")) { const p = new HObj("Object", this.realm.ObjectProto); p.props.set("constructor", o); o.props.set("prototype", p); }
    if (o.kind === "Function" && k === "name" && !o.props.has("name")) return o.name;
    if (o.kind === "Function" && k === "length" && o.node) return o.node.parameters.filter((p) => !p.initializer && !p.dotDotDotToken).length;
    if ((o.kind === "Set" || o.kind === "Map") && k === "size") return this.collSize(o);
    return this.lookupOwn(o, k);
  },
  lookupOwn(o, k) {
    if (typeof k === "string") {
      if (o.props.has(k)) return o.props.get(k);
    } else if (o.props.size) {
      for (const [name, v] of o.props) if ((!o.hidden?.has(name) || (v instanceof HObj && v.node && name !== "constructor") || (v instanceof Acc && v.get?.node)) && this.branch(T.eq(k.t, T.strLit(name)))) return v;
    }
    if (o.layers) {
      for (let i = o.layers.length - 1; i >= 0; i--) {
        const v = this.layerGet(o.layers[i], k);
        if (v !== undefined) return v.v;
      }
      return ABSENT;
    }
    return this.baseGet(o, k);
  },
  baseGet(o, k) {
    if (o.dict) {
      const kt = termOf(k);
      if (!this.branch(o.dict.has(kt))) return ABSENT;
      if (o.dict.keysBase) this.noteIdx(o.dict.keysBase, kt);
      return o.dict.val(kt);
    }
    if (o.inst) {
      if (typeof k === "string") {
        const f = o.inst.fields[k];
        if (!f) return ABSENT;
        if (f.present && !this.branch(f.present)) return ABSENT;
        return f.get();
      }
      for (const [name, f] of Object.entries(o.inst.fields)) {
        if (this.branch(T.eq(k.t, T.strLit(name)))) { if (f.present && !this.branch(f.present)) return ABSENT; return f.get(); }
      }
      return ABSENT;
    }
    return ABSENT;
  },
  // {v} or undefined when the layer does not define k
  layerGet(l, k) {
    if (l.mark) throw new Unsupported("read of a loop-carried object");
    const kt = termOf(k);
    if (l.k !== undefined) return this.branch(T.eq(kt, termOf(l.k))) ? { v: l.v } : undefined;
    if (l.props) {
      if (typeof k === "string") return l.props.has(k) ? { v: l.props.get(k) } : undefined;
      for (const [name, v] of l.props) if (this.branch(T.eq(kt, T.strLit(name)))) return { v };
      return undefined;
    }
    if (l.base) { const v = this.baseGet(l.base, k); return v === ABSENT ? undefined : { v }; }
    if (l.seg) return this.segLookup(l.seg, kt);
    throw new Unsupported("object layer");
  },
  segLookup(seg, q) {
    const b = seg.base;
    const pairs = seg.cases.map((c) => c.items.map((p) => { if (p instanceof Seg) throw new Unsupported("lookup in nested object comprehension"); return { k: termOf(this.force(p.segs[0])), v: p.segs[1] }; }));
    if (b.sort === "String" && pairs.every((ps) => ps.every((p) => p.k === seg.v))) {
      // key is the bound key itself
      if (!this.branch(b.inRange(q))) return undefined;
      const items = this.instantiate(seg, q);
      if (items.length === 0) return undefined;
      return { v: items[items.length - 1].segs[1] };
    }
    if (b.sort === "String") for (const ps of pairs) for (const p of ps) { const x = this.stripAround(p.k, seg.v, q); if (x) this.noteIdx(b, x); }
    const match = (t) => T.or(seg.cases.map((c, i) => T.and(T.subst(c.cond, new Map([[seg.v.id, t]])), T.or(pairs[i].map((p) => T.eq(T.subst(p.k, new Map([[seg.v.id, t]])), q))))));
    if (this.fork(2, "lookup") === 0) { this.addForall(b, (t) => T.not(match(t))); this.checkFeasible(); return undefined; }
    const w = this.fresh("wk", b.sort);
    this.assume(b.inRange(w));
    this.addForall(b, (t) => T.implies(b.before(w, t), T.not(match(t))));
    const items = this.instantiate(seg, w);
    // last matching pair of the case
    for (let i = items.length - 1; i >= 0; i--) {
      if (this.branch(T.eq(termOf(this.force(items[i].segs[0])), q))) { this.checkFeasible(); return { v: items[i].segs[1] }; }
    }
    throw new Infeasible();
  },
  // the x with k[v := x] = q when k is v between constant texts and q shows those texts
  stripAround(k, v, q) {
    const ks = T.flatConcat(k), at = ks.indexOf(v);
    if (at < 0 || ks.indexOf(v, at + 1) >= 0 || !ks.every((x) => x === v || T.isLit(x))) return null;
    const pre = ks.slice(0, at).map((x) => x.v).join(""), suf = ks.slice(at + 1).map((x) => x.v).join("");
    const qs = T.flatConcat(q).slice();
    const first = qs[0], text = (x) => (x && T.isLit(x) ? x.v : null);
    if (pre) { const t = text(first); if (t === null || !t.startsWith(pre)) return null; qs[0] = T.strLit(t.slice(pre.length)); }
    if (suf) { const t = text(qs[qs.length - 1]); if (t === null || !t.endsWith(suf)) return null; qs[qs.length - 1] = T.strLit(t.slice(0, t.length - suf.length)); }
    return T.concat(...qs);
  },
  hasOwn(o, k) { // boolean, may fork
    o = this.force(o);
    if (isStrV(o)) return k === "length" || (typeof k === "string" && isIdx(k));
    if (!(o instanceof HObj)) return false;
    if (o.kind === "Ext" && !o.props.has(k)) return false;
    if (o.kind === "Array") { if (k === "length") return true; if (typeof k === "string" && isIdx(k)) return this.branch(T.lt(T.intLit(Number(k)), termOf(this.arrayLength(o)))); return o.props.has(k); }
    return this.lookupOwn(o, k) !== ABSENT;
  },
  hasProp(o, k) {
    if (!(o instanceof HObj)) this.throwError("TypeError", "Cannot use 'in' operator");
    let p = o;
    while (p) { if (this.hasOwn(p, k)) return true; p = p.proto; }
    return false;
  },
  set(o, k, v) {
    o = this.force(o);
    if (o === undefined || o === null) this.throwError("TypeError", `Cannot set properties of ${o}`);
    if (!(o instanceof HObj)) return;
    if (o.frozen) this.throwError("TypeError", "Cannot assign to read only property");
    if (o.kind === "Array") {
      if (typeof k === "number" || (typeof k === "string" && isIdx(k)) || (k instanceof Sym && k.sort === "Int")) return this.arraySet(o, typeof k === "string" ? Number(k) : k, v);
      if (k === "length") { if (v === 0) return this.setField(o, "segs", []); this.unsupported("array length assignment"); }
    }
    if (typeof k === "number") k = String(k);
    if (k instanceof Sym && k.sort !== "String") k = this.toStr(k);
    // setters
    let p = o;
    while (p) {
      const x = typeof k === "string" ? p.props.get(k) : undefined;
      if (x instanceof Acc) { if (!x.set) this.throwError("TypeError", "Cannot set property which has only a getter"); this.call(x.set, o, [v]); return; }
      if (x !== undefined) break;
      p = p.proto;
    }
    if (o.kind === "Ext") { this.extSet(o, k, v); return; }
    this.setOwn(o, k, v);
  },
  setOwn(o, k, v) {
    if (typeof k === "string") {
      if (o.layers) { const l = o.layers[o.layers.length - 1]; if (l?.mark || o.layers.some((x) => x.mark)) { this.setField(o, "layers", [...this.layersOf(o), { props: new Map([[k, v]]) }]); this.clearProps(o); return; } }
      this.setMap(o, o.props, k, v);
      return;
    }
    const layers = this.layersOf(o);
    if (!o.layers && !o.dict && !o.inst && layers.length === 0) layers.push({ props: new Map() });
    this.setField(o, "layers", [...layers, { k, v }]);
    this.clearProps(o);
  },
  clearProps(o) { for (const k of [...o.props.keys()]) if (!o.hidden?.has(k)) this.delMap(o, o.props, k); },
  layersOf(o) {
    const l = o.layers ? o.layers.slice() : o.dict || o.inst ? [{ base: o.baseObj ?? this.bareBase(o) }] : [];
    if (o.props.size) l.push({ props: new Map(o.props) });
    return l;
  },
  bareBase(o) { const b = new HObj("Object", o.proto); b.dict = o.dict; b.inst = o.inst; return b; },
  deleteProp(o, k) {
    if (!(o instanceof HObj)) return;
    if (o.kind === "Array") this.unsupported("delete on array");
    if (typeof k === "string" && !o.layers && !o.dict && !o.inst) { this.delMap(o, o.props, k); return; }
    if (typeof k === "string") { this.setMap(o, o.props, k, ABSENT); return; }
    this.setOwn(o, k, ABSENT);
  },
  // Object.assign / spread: copy own enumerable props of src into o
  assignInto(o, src) {
    src = this.force(src);
    if (src === undefined || src === null || !(src instanceof HObj)) { if (typeof src === "string") this.unsupported("spread of string into object"); return; }
    if (src.kind === "Ext") { if (src.props.size === 0) this.setOwn(o, `...${src.extPath}`, src); for (const [k, v] of src.props) this.setOwn(o, k, v); return; }
    if (src.kind === "Array") { const n = this.arrayLength(src); if (typeof n !== "number") this.unsupported("spread of symbolic array into object"); for (let i = 0; i < n; i++) this.setOwn(o, String(i), this.arrayGet(src, i)); return; }
    if (!src.layers && !src.dict && !src.inst) {
      for (const [k, v] of src.props) { if (src.hidden?.has(k) || k.startsWith("#")) continue; this.setOwn(o, k, v instanceof Acc ? this.get(src, k) : v); }
      return;
    }
    if (src.inst && !src.layers) {
      // known finite field set
      for (const k of this.concreteKeys(src)) { const v = this.lookupOwn(src, k); if (v !== ABSENT) this.setOwn(o, k, v); }
      return;
    }
    const layers = this.layersOf(src);
    this.setField(o, "layers", [...this.layersOf(o), ...layers]);
    this.clearProps(o);
  },
  concreteKeys(o) {
    const ks = [];
    if (o.inst) ks.push(...Object.keys(o.inst.fields));
    for (const k of o.props.keys()) if (!ks.includes(k) && !o.hidden?.has(k) && !k.startsWith("#")) ks.push(k);
    return ks;
  },
  omitKeys(v, used) {
    const o = this.newObj();
    this.assignInto(o, v);
    for (const k of used) { if (typeof k === "string" && !o.layers) this.delMap(o, o.props, k); else this.deleteProp(o, k); }
    return o;
  },
  newObj(props) { const o = new HObj("Object", this.realm.ObjectProto); if (props) for (const [k, v] of Object.entries(props)) o.props.set(k, v); return o; },
  // own enumerable string keys, as array value
  ownKeys(o) {
    o = this.force(o);
    if (o === undefined || o === null) this.throwError("TypeError", "Cannot convert undefined or null to object");
    if (typeof o === "string") return this.arrayOf([...o].map((_, i) => String(i)));
    if (!(o instanceof HObj)) return this.arrayOf([]);
    if (o.kind === "Array") { const n = this.arrayLength(o); if (typeof n === "number") return this.arrayOf([...Array(n).keys()].map(String)); const b = this.rangeBase(termOf(n), 0); const v = T.mkVar(this.freshName("$r"), "Int"); return this.arrayOf([new Seg(b, v, [{ cond: T.TRUE, facts: [], items: [wrap(NUM2STR(v))] }])]); }
    if (o.kind === "Ext") { if (o.props.size) return this.arrayOf([...o.props.keys()]); this.unsupported("keys of external object " + o.extPath); }
    const segs = [];
    const layers = o.layers || o.dict ? this.layersOf(o) : null;
    if (!layers) {
      for (const k of this.concreteKeys(o)) {
        if (o.props.has(k)) { if (o.props.get(k) !== ABSENT) segs.push(k); } else if (this.lookupOwn(o, k) !== ABSENT) segs.push(k);
      }
      return this.arrayOf(segs);
    }
    // union of the keys of all layers, first occurrence order
    const earlier = []; // predicates term -> Bool term that key already present
    const seenLit = new Set();
    const deletedLater = (i, kt) => {
      const cs = [];
      for (let j = i + 1; j < layers.length; j++) {
        const l = layers[j];
        if (l.k !== undefined && l.v === ABSENT) cs.push(T.eq(kt, termOf(l.k)));
        if (l.props) for (const [n, v] of l.props) if (v === ABSENT) cs.push(T.eq(kt, T.strLit(n)));
      }
      return T.or(cs);
    };
    layers.forEach((l, i) => {
      const dup = (kt) => T.or(earlier.map((f) => f(kt)));
      const lits = (names) => { for (const n of names) { const kt = T.strLit(n); if (seenLit.has(n)) continue; if (this.branch(dup(kt))) continue; if (this.branch(deletedLater(i, kt))) continue; segs.push(n); seenLit.add(n); } };
      if (l.mark) throw new Unsupported("keys of a loop-carried object");
      if (l.props) { const names = [...l.props].filter(([, v]) => v !== ABSENT).map(([k]) => k); lits(names); earlier.push((kt) => T.or(names.map((n) => T.eq(kt, T.strLit(n))))); } else if (l.k !== undefined) {
        if (l.v === ABSENT) return;
        const kt = termOf(l.k);
        if (!this.branch(dup(kt)) && !this.branch(deletedLater(i, kt))) segs.push(l.k);
        earlier.push((x) => T.eq(x, kt));
      } else if (l.base && l.base.inst) {
        const names = this.concreteKeys(l.base).filter((n) => this.baseGet(l.base, n) !== ABSENT);
        lits(names); earlier.push((kt) => T.or(names.map((n) => T.eq(kt, T.strLit(n)))));
      } else if (l.base && l.base.dict) {
        const d = l.base.dict;
        const v = T.mkVar(this.freshName("$k"), "String");
        const excl = T.or(dup(v), deletedLater(i, v));
        segs.push(this.condSeg(d.keysBase, v, T.not(excl), [new Sym(v)]));
        earlier.push((kt) => d.has(kt));
      } else if (l.seg) {
        const s = l.seg;
        const vkeys = s.cases.every((c) => c.items.every((p) => !(p instanceof Seg) && p.segs[0] instanceof Sym && p.segs[0].t === s.v));
        if (!vkeys && !this.keysInjective(s)) throw new Unsupported("keys of object comprehension with non-injective keys");
        const v = s.v;
        const excl = T.or(dup(v), deletedLater(i, v));
        if (excl !== T.FALSE && !vkeys) throw new Unsupported("keys of overlapping object comprehensions");
        const cases = s.cases.map((c) => ({ ...c, items: c.items.map((p) => p.segs[0]) }));
        let ns = new Seg(s.base, v, excl === T.FALSE ? cases : [...cases.map((c) => ({ ...c, cond: T.and(c.cond, T.not(excl)) })), { cond: excl, facts: [], items: [] }]);
        ns.born = s.born;
        segs.push(ns);
        earlier.push((kt) => (vkeys ? T.and(s.base.inRange(kt), T.or(s.cases.filter((c) => c.items.length).map((c) => T.subst(c.cond, new Map([[v.id, kt]]))))) : T.uf("haskey$" + s.v.name, [kt], "Bool")));
      } else throw new Unsupported("object layer keys");
    });
    return this.arrayOf(segs);
  },
  keysInjective(s) { // e.g. constant prefix + bound key
    return s.base.sort === "String" && s.cases.every((c) => c.items.length <= 1 && c.items.every((p) => { if (p instanceof Seg) return false; const t = termOf(p.segs[0]); const parts = t ? T.flatConcat(t) : []; return parts.filter((x) => x === s.v).length === 1 && parts.every((x) => x === s.v || T.isLit(x)); })) && s.cases.filter((c) => c.items.length).length <= 1;
  },
  condSeg(base, v, cond, items) {
    if (cond === T.TRUE) return new Seg(base, v, [{ cond: T.TRUE, facts: [], items }]);
    return new Seg(base, v, [{ cond, facts: [], items }, { cond: T.not(cond), facts: [], items: [] }]);
  },
  // ---------- arrays
  arrayOf(segs) { const a = new HObj("Array", this.realm.ArrayProto); a.segs = segs; return a; },
  asArray(v) {
    v = this.force(v);
    if (v instanceof HObj && v.kind === "Array") return v;
    return this.arrayOf(this.iterSegs(v));
  },
  iterSegs(v) {
    v = this.force(v);
    if (v instanceof HObj) {
      switch (v.kind) {
        case "Array": return v.segs;
        case "Set": return this.setSegs(v);
        case "Map": return this.mapEntries(v).segs;
        case "Ext": { const f = v.iter; if (f) return f; this.unsupported("iteration over external object " + v.extPath); }
      }
      if (v.iterSegs) return v.iterSegs;
      this.throwError("TypeError", "object is not iterable");
    }
    if (typeof v === "string") return [...v];
    if (v instanceof Sym && v.sort === "String") { const d = this.digitChars(v.t); return d ? d.map(wrap) : [this.charsSeg(v)]; }
    this.throwError("TypeError", `${this.describe(v)} is not iterable`);
  },
  charsSeg(v) {
    const t = v.t;
    const mk = (t) => new SeqBase("chars:" + t.id, T.strLen(t), (i) => wrap(T.app("str.at", [t, i], "String")), (map) => mk(T.subst(t, map)));
    return this.idSeg(mk(t));
  },
  idSeg(base) {
    const v = T.mkVar(this.freshName("$e"), "Int");
    if (base.len) { (this.lenOwner ??= new Map()).set(base.len.id, base); }
    const born = peekSerial();
    const s = new Seg(base, v, [{ cond: T.TRUE, facts: [], items: [base.elem(v)] }]);
    s.born = born;
    return s;
  },
  segRegular(s) { // number of items per element when constant, else -1
    const n = s.cases[0].items.length;
    for (const c of s.cases) if (c.items.length !== n || c.items.some((x) => x instanceof Seg)) return -1;
    return n;
  },
  baseLen(b) {
    if (b.len) return b.len;
    const n = T.uf("nkeys$" + b.key, [], "Int");
    this.assume(T.le(T.intLit(0), n));
    return n;
  },
  arrayLength(a) {
    if (a.segs.every((e) => !(e instanceof Seg) && !(e instanceof Mark))) return a.segs.length;
    let total = T.intLit(0);
    if (a.segs.length === 1 && a.segs[0] instanceof Reserve) return wrap(a.segs[0].len);
    for (const e of a.segs) {
      if (e instanceof Mark && e.lenNow && e === a.segs[0]) { total = T.add(total, e.lenNow()); continue; }
      if (e instanceof Mark) throw new Unsupported("length of a loop-carried array");
      if (!(e instanceof Seg)) { total = T.add(total, T.intLit(1)); continue; }
      total = T.add(total, this.segLength(e));
    }
    return wrap(total);
  },
  segLength(s) {
    const n = this.segRegular(s);
    if (n >= 0) {
      if (n === 0) return T.intLit(0);
      const L = this.baseLen(s.base);
      this.assume(T.le(T.intLit(0), L));
      if (s.base instanceof SeqBase) (this.lenOwner ??= new Map()).set(L.id, s.base);
      else if (s.base instanceof KeysBase) this.linkKeys(s.base, L);
      return T.mul(T.intLit(n), L);
    }
    // irregular: empty or has a witness
    const flat = s.cases.every((c) => c.items.every((x) => !(x instanceof Seg)));
    let cnt;
    if (flat) { const ns = new Seg(s.base, s.v, s.cases.map((c) => ({ ...c, items: [c.items.length] }))); ns.born = s.born; cnt = this.opaqueTerm("sum", { segs: [ns] }, "Int"); } else cnt = this.opaqueTerm("count", { segs: [s] }, "Int");
    this.assume(T.le(T.intLit(0), cnt));
    const max = Math.max(...s.cases.map((c) => (c.items.some((x) => x instanceof Seg) ? Infinity : c.items.length)));
    if (max !== Infinity) this.assume(T.le(cnt, T.mul(T.intLit(max), this.baseLen(s.base))));
    const zero = T.eq(cnt, T.intLit(0));
    if (this.quick(zero) !== undefined) return cnt;
    if (max === Infinity) return cnt;
    const nonEmpty = (t) => T.or(s.cases.filter((c) => c.items.length).map((c) => T.subst(c.cond, new Map([[s.v.id, t]]))));
    if (this.branch(zero)) { this.addForall(s.base, (t) => T.not(nonEmpty(t))); this.checkFeasible(); return T.intLit(0); }
    const w = this.fresh("wc", s.base.sort);
    this.assume(s.base.inRange(w));
    this.assume(nonEmpty(w));
    this.noteIdx(s.base, w);
    this.checkFeasible();
    return cnt;
  },
  linkKeys(base, L) { // L = 0 iff no key
    if (this.known.get(L.id) === "linked") return;
    const zero = T.eq(L, T.intLit(0));
    if (this.quick(zero) !== undefined) return;
    if (this.branch(zero)) { this.addForall(base, () => T.FALSE); return; }
    const w = this.fresh("wkey", "String");
    this.assume(base.inRange(w)); this.noteIdx(base, w);
  },
  arrayGet(a, i) {
    const it = typeof i === "number" ? (Number.isInteger(i) && i >= 0 ? T.intLit(i) : null) : i.t;
    if (!it) return undefined;
    if (it.sort !== "Int") this.unsupported("non-integer array index");
    let off = it;
    for (const e of a.segs) {
      if (e instanceof Mark) throw new Unsupported("index into a loop-carried array");
      if (!(e instanceof Seg)) {
        if (T.isLit(off)) { if (off.v === 0) return e; off = T.intLit(off.v - 1); if (off.v < 0) return undefined; } else { if (this.branch(T.eq(off, T.intLit(0)))) return e; off = T.sub(off, T.intLit(1)); }
        continue;
      }
      const n = this.segRegular(e);
      if (n === 0) continue;
      if (n === 1 && e.base.sort === "Int") {
        const L = e.base.len;
        if (this.branch(T.lt(off, L))) {
          if (!T.isLit(off) && !this.branch(T.le(T.intLit(0), off))) return undefined;
          return this.instantiate(e, T.add(off, e.base.start))[0];
        }
        off = T.sub(off, L);
        continue;
      }
      if (T.isLit(off) && off.v === 0) {
        const r = this.iterate([e], (x) => ({ k: "return", v: x }));
        if (r) return r.v;
        continue;
      }
      this.unsupported("index into filtered array");
    }
    return undefined;
  },
  arrayLast(a) {
    for (let j = a.segs.length - 1; j >= 0; j--) {
      const e = a.segs[j];
      if (!(e instanceof Seg)) return e;
      const n = this.segRegular(e);
      if (n === 0) continue;
      if (n === 1 && e.base.sort === "Int") {
        if (this.branch(T.lt(T.intLit(0), e.base.len))) return this.instantiate(e, T.sub(T.add(e.base.start, e.base.len), T.intLit(1)))[0];
        continue;
      }
      const holder = this.newObj({ v: ABSENT });
      this.iterate([e], (x) => { this.setMap(holder, holder.props, "v", x); return undefined; });
      const r = holder.props.get("v");
      if (r !== ABSENT) return r;
    }
    return undefined;
  },
  arraySet(a, i, v) {
    const n = a.segs.length;
    const plain = a.segs.every((e) => !(e instanceof Seg) && !(e instanceof Mark));
    // in a loop over which this array lives: a first pass, repeated once the loop is known to write it
    if (typeof i !== "number" && a.id < this.loopBorn && !(a.segs[0] instanceof Mark && a.segs[0].fills)) { this.setField(a, "segs", [...a.segs, v]); return; }
    if (plain && typeof i === "number") { const s = a.segs.slice(); while (s.length < i) s.push(undefined); s[i] = v; this.setField(a, "segs", s); return; }
    if (plain) {
      for (let j = 0; j < n; j++) if (this.branch(T.eq(i.t, T.intLit(j)))) { const s = a.segs.slice(); s[j] = v; this.setField(a, "segs", s); return; }
      if (this.branch(T.eq(i.t, T.intLit(n)))) { this.setField(a, "segs", [...a.segs, v]); return; }
    }
    // element by element filling in a loop: checked when the loop has been summarised
    if (a.segs.length === 1 && a.segs[0] instanceof Mark && a.segs[0].fills && typeof i !== "number") { a.segs[0].fills.push(i.t); this.setField(a, "segs", [...a.segs, v]); return; }
    // append at length
    const len = this.arrayLength(a);
    if (this.quick(T.eq(termOf(len), termOf(i))) === true) { this.setField(a, "segs", [...a.segs, v]); return; }
    this.unsupported("assignment to symbolic array element");
  },
  arraySlice(a, start, end) {
    let segs = a.segs.slice();
    let s = typeof start === "number" ? start : NaN;
    if (Number.isNaN(s)) this.unsupported("slice with symbolic start");
    const plain = segs.every((e) => !(e instanceof Seg) && !(e instanceof Mark));
    if (plain && (end === undefined || typeof end === "number")) return this.arrayOf(segs.slice(s, end));
    if (s < 0) {
      if (end === undefined && s === -1) { const len = termOf(this.arrayLength(a)); if (this.branch(T.eq(len, T.intLit(0)))) return this.arrayOf([]); return this.arrayOf([this.arrayLast(a)]); }
      this.unsupported("negative slice of symbolic array");
    }
    if (end !== undefined) {
      if (s === 0) {
        // take
        if (typeof end === "number" && end >= 0) {
          const out = [];
          for (let i = 0; i < end; i++) { if (!this.branch(T.lt(T.intLit(i), termOf(this.arrayLength(a))))) break; out.push(this.arrayGet(a, i)); }
          return this.arrayOf(out);
        }
        if (end instanceof Sym && segs.length === 1 && this.segRegular(segs[0]) === 1 && segs[0].base instanceof SeqBase) {
          const L = segs[0].base.len;
          if (this.branch(T.le(L, end.t))) return this.arrayOf(segs);
          if (!this.branch(T.le(T.intLit(0), end.t))) this.unsupported("negative slice end");
          const ns = new Seg(new PrefixBase(segs[0].base, end.t), segs[0].v, segs[0].cases); ns.born = segs[0].born;
          return this.arrayOf([ns]);
        }
      }
      this.unsupported("slice of symbolic array");
    }
    while (s > 0 && segs.length) {
      const e = segs[0];
      if (!(e instanceof Seg)) { segs.shift(); s--; continue; }
      if (this.segRegular(e) === 1 && e.base instanceof SeqBase) {
        const L = e.base.len;
        if (this.branch(T.le(T.intLit(s), L))) { segs[0] = this.dropSeg(e, s); s = 0; break; }
        // shorter than s: enumerate
        for (let i = 0; i < s; i++) if (this.branch(T.eq(L, T.intLit(i)))) { segs.shift(); s -= i; break; }
        continue;
      }
      this.unsupported("slice of filtered array");
    }
    return this.arrayOf(segs);
  },
  dropSeg(e, k) {
    const kt = T.intLit(k);
    const src = e.base;
    const mk = (src) => {
      const b = new SeqBase(`drop${k}:${src.key}`, T.sub(src.len, kt), (i) => src.elem(T.add(i, kt)), (map) => mk(src.substFn ? src.substFn(map) : src));
      return b;
    };
    const v = T.mkVar(this.freshName("$d"), "Int");
    const map = new Map([[e.v.id, T.add(v, kt)]]);
    const s = new Seg(mk(src), v, e.cases.map((c) => this.substCase(c, map, e.born ?? Infinity)));
    s.born = e.born;
    return s;
  },
  // t = d0*10^k + ... + dk with every d a digit and d0 > 0
  decimalForm(t) {
    const parts = t.op === "+" ? t.args : [t];
    if (parts.length < 2) return null;
    const by = new Map();
    for (const p of parts) {
      const c = p.op === "*" && T.isLit(p.args[0]) ? p.args[0].v : T.isLit(p) ? 0 : 1;
      const k = Math.log10(c);
      if (!Number.isInteger(k) || k < 0 || by.has(k)) return null;
      by.set(k, c === 1 ? p : p.args[1]);
    }
    const ds = [];
    for (let k = by.size - 1; k >= 0; k--) { const d = by.get(k); if (!d || !this.holds(T.and(T.le(T.intLit(ds.length ? 0 : 1), d), T.le(d, T.intLit(9))))) return null; ds.push(d); }
    this.digitTerms ??= new Set();
    const out = ds.map((d) => { const c = NUM2STR(d); this.digitTerms.add(c.id); return c; });
    return out;
  },
  // decimal digits of an integer's text: the terms of its characters, or null when it has more than 16 digits
  digitChars(st) {
    if (st.op === "str.++") {
      const out = [];
      for (const a of st.args) { const d = T.isLit(a) ? [...a.v].map(T.strLit) : this.digitTerms?.has(a.id) ? [a] : this.digitChars(a); if (!d) return null; out.push(...d); }
      return out;
    }
    if (this.digitTerms?.has(st.id)) return [st];
    if (st.op !== "uf" || st.name !== "num2str") return null;
    let t = st.args[0];
    if (t.op === "to_real") t = t.args[0];
    if (t.sort !== "Int" || T.isLit(t)) return null;
    const known = this.decimalForm(t);
    if (known) return known;
    const neg = this.branch(T.lt(t, T.intLit(0)));
    const a = neg ? T.neg(t) : t;
    let n = 1;
    while (n <= 16 && !this.branch(T.lt(a, T.intLit(10 ** n)))) n++;
    if (n > 16) return null;
    const ds = [];
    for (let k = 0; k < n; k++) {
      const d = T.uf(`digit${k}of${n}`, [a], "Int");
      this.assume(T.and(T.le(T.intLit(0), d), T.le(d, T.intLit(9))));
      ds.push(d);
    }
    this.assume(T.eq(a, T.add(...ds.map((d, k) => T.mul(T.intLit(10 ** (n - 1 - k)), d)))));
    if (n > 1) this.assume(T.le(T.intLit(1), ds[0]));
    this.digitTerms ??= new Set();
    const out = ds.map((d) => { const c = NUM2STR(d); this.digitTerms.add(c.id); this.assume(T.eq(T.strLen(c), T.intLit(1))); this.assume(T.eq(T.app("str.to_code", [c], "Int"), T.add(T.intLit(48), d))); return c; });
    if (neg) out.unshift(T.strLit("-"));
    this.assume(T.eq(st, T.concatList(out)));
    return out;
  },
  charAt(s, i) {
    if (typeof s === "string" && typeof i === "number") return s[i];
    if (s instanceof Sym && typeof i === "number") { const d = this.digitChars(s.t); if (d) return d[i] === undefined ? undefined : wrap(d[i]); }
    const st = termOf(s), it = termOf(i);
    if (!it || it.sort !== "Int") return undefined;
    if (this.branch(T.and(T.le(T.intLit(0), it), T.lt(it, T.strLen(st))))) return wrap(T.app("str.at", [st, it], "String"));
    return undefined;
  },
  // ---------- Set / Map (Set.raw may contain duplicates; deduplicated on read)
  setSegs(s) {
    const raw = s.segs;
    const out = [];
    const seen = []; // predicates value -> Term|boolean
    for (const e of raw) {
      if (e instanceof Mark) throw new Unsupported("iteration over a loop-carried set");
      if (!(e instanceof Seg)) {
        let dup = false;
        for (const f of seen) { if (this.branch(f(e))) { dup = true; break; } }
        if (!dup) out.push(e);
        seen.push((x) => this.sameValueZero(x, e));
        continue;
      }
      const distinctKeys = e.base.sort === "String" && e.cases.every((c) => c.items.every((x) => x instanceof Sym && x.t === e.v));
      if (distinctKeys) {
        const excl = T.or(seen.map((f) => { const r = f(new Sym(e.v)); return typeof r === "boolean" ? T.boolLit(r) : r; }));
        const cases = excl === T.FALSE ? e.cases : [...e.cases.map((c) => ({ ...c, cond: T.and(c.cond, T.not(excl)) })), { cond: excl, facts: [], items: [] }];
        const ns = new Seg(e.base, e.v, cases); ns.born = e.born;
        out.push(ns);
        seen.push((x) => { const t = termOf(x); return t && t.sort === "String" ? T.and(e.base.inRange(t), T.or(e.cases.filter((c) => c.items.length).map((c) => T.subst(c.cond, new Map([[e.v.id, t]]))))) : false; });
        continue;
      }
      if (raw.length === 1 && this.segRegular(e) === 1) {
        // keep first occurrences, by an uninterpreted first-occurrence predicate
        const first = T.uf("first$" + this.canonPayload({ s: e }, []).text.length + "$" + e.base.key + "$" + e.v.id, [e.v], "Bool");
        const ns = new Seg(e.base, e.v, [...e.cases.map((c) => ({ ...c, cond: T.and(c.cond, first) })), { cond: T.not(first), facts: [], items: [] }]);
        ns.born = e.born; ns.dedup = e;
        out.push(ns);
        seen.push(() => { throw new Unsupported("set of symbolic sequence followed by more elements"); });
        continue;
      }
      throw new Unsupported("iteration over a set built from symbolic sequences");
    }
    return out;
  },
  setHas(s, x) { // boolean, may fork
    x = this.force(x);
    for (const e of s.segs) {
      if (e instanceof Mark) throw new Unsupported("membership test on a loop-carried set");
      if (!(e instanceof Seg)) { if (this.branch(this.sameValueZero(e, x))) return true; continue; }
      const r = this.iterate([e], (y) => (this.branch(this.sameValueZero(y, x)) ? { k: "return", v: true } : undefined));
      if (r) return true;
    }
    return false;
  },
  sameValueZero(a, b) {
    a = this.force(a); b = this.force(b);
    if (typeof a === "number" && typeof b === "number" && Number.isNaN(a) && Number.isNaN(b)) return true;
    return this.strictEq(a, b);
  },
  collSize(o) {
    const keyed = (e) => e instanceof Seg && e.base.sort === "String" && e.cases.every((c) => c.items.every((x) => x instanceof Sym && x.t === e.v));
    if (o.kind === "Set" && o.segs.some((e) => e instanceof Seg && !keyed(e)) && !o.segs.some((e) => e instanceof Mark)) {
      // the number of different values of the sequence
      const segs = o.segs.filter((e) => !(e instanceof Seg) || this.quick(T.eq(this.segLength(e), T.intLit(0))) !== true);
      const len = termOf(this.arrayLength(o)), n = this.opaqueTerm("distinct", { segs }, "Int");
      this.assume(T.and(T.le(T.intLit(0), n), T.le(n, len)));
      this.assume(T.eq(T.eq(n, T.intLit(0)), T.eq(len, T.intLit(0))));
      return wrap(n);
    }
    if (o.kind === "Set") return this.arrayLength({ segs: this.setSegs(o) });
    return this.arrayLength(this.mapEntries(o));
  },
  // Map: list of entries {k,v} in o.entries (concrete structure), string keys over layers supported via o.obj
  mapEntries(m) {
    const obj = m.store;
    const keys = this.ownKeys(obj);
    return this.mapArr(keys, (k) => this.arrayOf([this.mapKeyOut(m, k), this.lookupOwn(obj, k)]));
  },
  mapArr(arr, f) {
    const out = this.arrayOf([]);
    this.iterate(arr.segs, (x) => { const y = f(x); this.setField(out, "segs", [...out.segs, y]); return undefined; });
    return out;
  },
  mapKeyIn(m, k) {
    k = this.force(k);
    if (isStrV(k)) { if (m.numbered && typeof k !== "string") this.unsupported("Map with keys that are numbers and texts"); m.texts ||= typeof k !== "string"; return k; }
    if (isNumV(k)) { if (m.texts) this.unsupported("Map with keys that are numbers and texts"); m.numbered = true; }
    if (typeof k === "number") { (m.keyOut ??= new Map()).set(`n:${k}`, k); return `n:${k}`; }
    if (k instanceof HObj) { (m.keyOut ??= new Map()).set(`o:${k.id}`, k); return `o:${k.id}`; }
    if (k === undefined || k === null || typeof k === "boolean") { (m.keyOut ??= new Map()).set(`p:${k}`, k); return `p:${k}`; }
    // a number that is not known: its text behind the mark of numbers (NaN and -0 are not among the integers)
    if (k instanceof Sym && k.sort === "Int") return wrap(T.concat(T.strLit("n:"), NUM2STR(k.t)));
    this.unsupported("Map key of kind " + this.describe(k));
  },
  mapKeyOut(m, k) {
    if (k instanceof Sym && k.t.op === "str.++" && T.isLit(k.t.args[0]) && k.t.args[0].v === "n:" && k.t.args[1].op === "uf" && k.t.args[1].name === "num2str") { const a = k.t.args[1].args[0]; return wrap(a.op === "to_real" ? a.args[0] : a); }
    return typeof k === "string" && m.keyOut?.has(k) ? m.keyOut.get(k) : k; },
  // ---------- operators
  typeOf(v) {
    v = this.force(v);
    if (v === undefined) return "undefined";
    if (v === null) return "object";
    if (isStrV(v)) return "string";
    if (isNumV(v)) return "number";
    if (isBoolV(v)) return "boolean";
    if (typeof v === "bigint") return "bigint";
    if (v instanceof HObj) { if (v.kind === "Function") return "function"; if (v.kind === "Symbol") return "symbol"; if (v.kind === "Ext") return v.constructed ? "object" : "function"; return "object"; }
    return this.unsupported("typeof abstract value");
  },
  strictEq(a, b) { // boolean or Term
    a = this.force(a); b = this.force(b);
    if (a === b) return !(typeof a === "number" && Number.isNaN(a));
    if (a instanceof Sym || b instanceof Sym) {
      const ta = termOf(a), tb = termOf(b);
      if (!ta || !tb) return false;
      const num = (s) => s === "Int" || s === "Real";
      if (ta.sort !== tb.sort && !(num(ta.sort) && num(tb.sort))) return false;
      return this.simpB(T.eq(ta, tb));
    }
    if (a instanceof HObj && b instanceof HObj) {
      const ra = a.inst ?? a.ref, rb = b.inst ?? b.ref;
      if (ra && rb && ra.path.replace(/^old~/, "") === rb.path.replace(/^old~/, "") && ra.idx.length) return this.simpB(T.and(ra.idx.map((t, i) => T.eq(t, rb.idx[i]))));
    }
    if (a instanceof HObj || b instanceof HObj) return false;
    return a === b;
  },
  looseEq(a, b) {
    a = this.force(a); b = this.force(b);
    if ((a === null || a === undefined) && (b === null || b === undefined)) return true;
    if (a === null || a === undefined || b === null || b === undefined) return false;
    if ((isStrV(a) && isNumV(b)) || (isNumV(a) && isStrV(b))) return this.strictEq(this.toNumeric(a), this.toNumeric(b));
    return this.strictEq(a, b);
  },
  instanceOf(v, c) {
    v = this.force(v); c = this.force(c);
    if (!(v instanceof HObj)) return false;
    if (c.kind === "Ext") { let x = v; if (v.extClass) return v.extClass === c || v.extClass.extPath === c.extPath; return false; }
    const proto = this.get(c, "prototype");
    let p = v.proto;
    while (p) { if (p === proto) return true; p = p.proto; }
    return false;
  },
  toPrim(v, hint) {
    v = this.force(v);
    if (!(v instanceof HObj)) return v;
    if (v.kind === "Date") { if (hint === "number") return v.t; return this.dateToString(v); }
    if (v.kind === "Ext") return this.extToString(v);
    if (v.kind === "Array") return this.arrayJoin(v, ",");
    if (hint !== "string") {
      const vo = this.getFrom(v, "valueOf", v);
      if (vo instanceof HObj && vo !== this.realm.ObjectProto.props.get("valueOf")) { const r = this.call(vo, v, []); if (!(r instanceof HObj)) return r; }
    }
    const tsf = this.getFrom(v, "toString", v);
    if (tsf instanceof HObj) { const r = this.call(tsf, v, []); if (!(r instanceof HObj)) return r; }
    this.throwError("TypeError", "Cannot convert object to primitive value");
  },
  toStr(v) {
    v = this.force(v);
    if (isStrV(v)) return v;
    if (v === undefined) return "undefined";
    if (v === null) return "null";
    if (typeof v === "number" || typeof v === "boolean" || typeof v === "bigint") return String(v);
    if (v instanceof Sym) {
      switch (v.sort) {
        case "Bool": return wrap(T.ite(v.t, T.strLit("true"), T.strLit("false")));
        case "Int": case "Real": return this.num2str(v.t);
        case "Atom": return wrap(T.uf("atom2str", [v.t], "String"));
      }
    }
    if (v instanceof HObj && v.kind === "Symbol") this.throwError("TypeError", "Cannot convert a Symbol value to a string");
    return this.toStr(this.toPrim(v, "string"));
  },
  num2str(t) {
    const s = NUM2STR(t);
    // text of an integer: optional minus and digits
    if (t.sort === "Int" && !T.isLit(t)) this.assume(T.app("in_re", [s], "Bool", '(re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9")))'));
    return wrap(s);
  },
  toNumeric(v) {
    v = this.force(v);
    if (isNumV(v) || typeof v === "bigint") return v;
    if (v === undefined) return NaN;
    if (v === null) return 0;
    if (typeof v === "boolean") return v ? 1 : 0;
    if (v instanceof Sym && v.sort === "Bool") return wrap(T.ite(v.t, T.intLit(1), T.intLit(0)));
    if (typeof v === "string") return Number(v);
    if (v instanceof Sym && v.sort === "String") return this.str2num(v.t, "Number");
    if (v instanceof HObj) return this.toNumeric(this.toPrim(v, "number"));
    return this.unsupported("ToNumber of abstract value");
  },
  // parse of symbolic text: NaN, +-Infinity or a finite number, by uninterpreted classification
  str2num(t, kind) {
    if (t.op === "uf" && t.name === "num2str") { const a = t.args[0]; return wrap(a); }
    const cls = T.uf(`numclass_${kind}`, [t], "Int");
    const empty = T.eq(t, T.strLit(""));
    if (kind === "Number" && this.branch(empty)) return 0;
    if (kind !== "Number" && this.branch(empty)) return NaN;
    const i = this.choose([T.eq(cls, T.intLit(0)), T.eq(cls, T.intLit(1)), T.eq(cls, T.intLit(2)), T.not(T.or(T.eq(cls, T.intLit(0)), T.eq(cls, T.intLit(1)), T.eq(cls, T.intLit(2))))]);
    if (i === 0) return NaN;
    if (i === 1) { if (kind === "parseInt") throw new Infeasible(); return Infinity; }
    if (i === 2) { if (kind === "parseInt") throw new Infeasible(); return -Infinity; }
    return new Sym(T.uf(`numof_${kind}`, [t], kind === "parseInt" ? "Int" : "Real"));
  },
  plus(a, b) {
    a = this.toPrim(a); b = this.toPrim(b);
    if (isStrV(a) || isStrV(b)) return wrap(T.concat(termOf(this.toStr(a)), termOf(this.toStr(b))));
    return this.arith("+", this.toNumeric(a), this.toNumeric(b));
  },
  arith(op, a, b) {
    if (typeof a === "bigint" || typeof b === "bigint") {
      if (typeof a !== typeof b) this.throwError("TypeError", "Cannot mix BigInt");
      switch (op) { case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; default: return a ** b; }
    }
    if (typeof a === "number" && typeof b === "number") {
      switch (op) { case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; default: return a ** b; }
    }
    const nonFin = (x) => typeof x === "number" && !Number.isFinite(x);
    if (nonFin(a) || nonFin(b)) {
      const c = nonFin(a) ? a : b, s = nonFin(a) ? b : a;
      if (Number.isNaN(c)) return NaN;
      switch (op) {
        case "+": return c;
        case "-": return nonFin(a) ? c : -c;
        case "*": case "/": {
          if (op === "/" && nonFin(b)) return 0;
          const st = termOf(s);
          const i = this.choose([T.lt(T.intLit(0), st), T.eq(st, T.intLit(0)), T.lt(st, T.intLit(0))]);
          if (op === "/") return i === 2 ? -c : c;
          return i === 0 ? c : i === 1 ? NaN : -c;
        }
        case "%": return nonFin(a) ? NaN : a;
        default: return this.unsupported("power with infinity");
      }
    }
    const x = termOf(a), y = termOf(b);
    switch (op) {
      case "+": return wrap(T.add(x, y));
      case "-": return wrap(T.sub(x, y));
      case "*": return wrap(T.mul(x, y));
      case "/": {
        if (this.branch(T.eq(y, T.intLit(0)))) {
          const i = this.choose([T.lt(T.intLit(0), x), T.eq(x, T.intLit(0)), T.lt(x, T.intLit(0))]);
          return i === 0 ? Infinity : i === 1 ? NaN : -Infinity;
        }
        return wrap(T.div(x, y));
      }
      case "%": {
        if (this.branch(T.eq(y, T.intLit(0)))) return NaN;
        if (x.sort === "Int" && y.sort === "Int") {
          const m = T.modInt(x, y);
          if (this.branch(T.le(T.intLit(0), x))) return wrap(m);
          return wrap(T.neg(T.modInt(T.neg(x), y)));
        }
        return wrap(T.uf("fmod", [T.toReal(x), T.toReal(y)], "Real"));
      }
      case "**": {
        if (typeof b === "number" && Number.isInteger(b) && b >= 0 && b <= 8) { let r = T.intLit(1); for (let i = 0; i < b; i++) r = T.mul(r, x); return wrap(r); }
        const p = T.uf("pow", [T.toReal(x), T.toReal(y)], "Real");
        if (typeof a === "number" && a > 0) this.assume(T.lt(T.realLit(0), p));
        return wrap(p);
      }
    }
  },
  compare(op, a, b) {
    a = this.toPrim(a, "number"); b = this.toPrim(b, "number");
    if (isStrV(a) && isStrV(b)) {
      if (typeof a === "string" && typeof b === "string") return op === "<" ? a < b : a <= b;
      return wrap(T.app(op === "<" ? "str.<" : "str.<=", [termOf(a), termOf(b)], "Bool"));
    }
    a = this.toNumeric(a); b = this.toNumeric(b);
    if (typeof a !== "object" && typeof b !== "object") return op === "<" ? a < b : a <= b;
    for (const x of [a, b]) if (typeof x === "number" && Number.isNaN(x)) return false;
    if (a === Infinity || b === -Infinity) return false;
    if (a === -Infinity || b === Infinity) return true;
    return wrap(op === "<" ? T.lt(termOf(a), termOf(b)) : T.le(termOf(a), termOf(b)));
  },
  // ---------- promises and time
  newPromise(state, value) { const p = new HObj("Promise", this.realm.PromiseProto); p.state = state; p.value = value; p.reactions = []; return p; },
  promiseResolve(v) {
    v = this.force(v);
    if (v instanceof HObj && v.kind === "Promise") return v;
    if (v instanceof HObj && v.kind !== "Ext" && v.kind !== "Function" && (v.props.has("then") || this.hasMethod(v, "then"))) {
      const p = this.newPromise("pending");
      this.call(this.get(v, "then"), v, [this.native("resolve", (a) => { this.settle(p, "fulfilled", a[0]); }), this.native("reject", (a) => { this.settle(p, "rejected", a[0]); })]);
      return p;
    }
    return this.newPromise("fulfilled", v);
  },
  hasMethod(o, k) { let p = o.proto; while (p) { if (p.props.has(k)) return true; p = p.proto; } return false; },
  promiseReject(v) { return this.newPromise("rejected", v); },
  settle(p, state, value) {
    if (p.state !== "pending" || p.locked) return;
    if (state === "fulfilled") {
      value = this.force(value);
      if (value instanceof HObj && value.kind === "Promise") {
        this.setField(p, "locked", true);
        this.react(value, (v) => { this.setField(p, "locked", false); this.settle(p, "fulfilled", v); }, (e) => { this.setField(p, "locked", false); this.settle(p, "rejected", e); });
        return;
      }
    }
    this.setField(p, "state", state); this.setField(p, "value", value);
    const rs = p.reactions;
    this.setField(p, "reactions", []);
    for (const r of rs) state === "fulfilled" ? r[0](value) : r[1](value);
  },
  react(p, ok, bad) {
    if (p.state === "fulfilled") ok(p.value);
    else if (p.state === "rejected") bad(p.value);
    else this.setField(p, "reactions", [...p.reactions, [ok, bad]]);
  },
  promiseThen(p, f, g) {
    const r = this.newPromise("pending");
    const run = (h, v, pass) => {
      if (!(h instanceof HObj)) return this.settle(r, pass, v);
      try { this.settle(r, "fulfilled", this.call(h, undefined, [v])); } catch (e) { if (!(e instanceof JSThrow)) throw e; this.settle(r, "rejected", e.value); }
    };
    this.react(p, (v) => run(this.force(f), v, "fulfilled"), (e) => run(this.force(g), e, "rejected"));
    return r;
  },
  awaitV(v) {
    v = this.force(v);
    if (v instanceof HObj && v.kind === "Ext" && v.awaited !== undefined) return v.awaited;
    if (!(v instanceof HObj) || v.kind === "Ext") return v;
    if (v.kind !== "Promise") { if (this.hasMethod(v, "then") || v.props.has("then")) v = this.promiseResolve(v); else return v; }
    let n = 0;
    while (v.state === "pending") {
      if (n++ > 400) throw new Unsupported("timer budget");
      if (!this.runNextTimer()) throw new PathStop("hang");
    }
    if (v.state === "rejected") throw new JSThrow(v.value);
    return v.value;
  },
  addTimer(fn, ms, args) {
    const t = { fn, at: this.arith("+", this.clock.now, this.toNumeric(ms ?? 0)), args };
    this.setField(this.clock, "timers", [...this.clock.timers, t]);
    const h = new HObj("Object", this.realm.ObjectProto); h.timer = t;
    return h;
  },
  runNextTimer() {
    const ts = this.clock.timers;
    if (ts.length === 0) return false;
    let best = 0;
    for (let i = 1; i < ts.length; i++) { const c = this.compare("<", ts[i].at, ts[best].at); if (this.truthy(c)) best = i; }
    const t = ts[best];
    this.setField(this.clock, "timers", ts.filter((x) => x !== t));
    const later = this.compare("<", this.clock.now, t.at);
    if (this.truthy(later)) this.setField(this.clock, "now", t.at);
    this.call(t.fn, undefined, t.args);
    return true;
  },
});

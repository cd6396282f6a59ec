// Standard library semantics for the symbolic interpreter.
import * as T from "./term.mjs";
import { Sym, Union, HObj, Acc, Seg, Mark, Reserve, Poison, SeqBase, KeysBase, PrefixBase, Unsupported, Infeasible, JSThrow, PathStop, wrap, peekSerial, isStrV, isNumV, isBoolV, isAtomV } from "./values.mjs";
import { termOf, ABSENT } from "./engine.mjs";
import { Interp, Scope } from "./interp.mjs";
import "./runtime.mjs";
import { parseRegex, RegexUnsupported } from "./regex.mjs";

const P = Interp.prototype;
const conc = (v) => typeof v !== "object" || v === null;

P.createRealm = function () {
  const eng = this;
  const R = { protos: {}, globals: new Map() };
  this.realm = R;
  const mkProto = (n, parent) => { const p = new HObj("Object", parent ?? null); R.protos[n] = p; p.hidden = new Set(); return p; };
  R.ObjectProto = mkProto("Object");
  R.FunctionProto = mkProto("Function", R.ObjectProto);
  for (const n of ["Array", "String", "Number", "Boolean", "BigInt", "Map", "Set", "Date", "RegExp", "Promise", "Error", "Buffer", "Symbol", "Uint8Array", "URL"]) { const p = mkProto(n, R.ObjectProto); R[n + "Proto"] = p; }
  const method = (proto, name, fn) => { proto.props.set(name, eng.native(name, fn)); proto.hidden.add(name); };
  const methods = (proto, o) => { for (const [k, f] of Object.entries(o)) method(proto, k, f); };
  const nativeNames = { Array: Array.prototype, String: String.prototype, Number: Number.prototype, Map: Map.prototype, Set: Set.prototype, Date: Date.prototype, RegExp: RegExp.prototype, Promise: Promise.prototype, Function: Function.prototype, Boolean: Boolean.prototype, BigInt: BigInt.prototype, Buffer: Buffer.prototype };
  R.knownMissing = (type, k) => { const p = nativeNames[type]; return !!p && k in p && !(k in Object.prototype); };
  const glob = (n, v) => R.globals.set(n, v);
  const ctor = (n, proto, call, construct) => { const f = eng.native(n, call, construct); f.props.set("prototype", proto); proto.props.set("constructor", f); (proto.hidden ??= new Set()).add("constructor"); glob(n, f); return f; };
  const statics = (f, o) => { for (const [k, v] of Object.entries(o)) f.props.set(k, typeof v === "function" ? eng.native(k, v) : v); };
  const cb = (f) => (...a) => eng.call(f, undefined, a);

  // ----- Object
  const ObjectC = ctor("Object", R.ObjectProto, (a) => (a[0] instanceof HObj ? a[0] : eng.newObj()), (a) => (a[0] instanceof HObj ? a[0] : eng.newObj()));
  methods(R.ObjectProto, {
    toString(a, t) { t = eng.force(t); const n = t === undefined ? "Undefined" : t === null ? "Null" : eng.typeOf(t) !== "object" ? eng.typeOf(t)[0].toUpperCase() + eng.typeOf(t).slice(1) : ["Array", "Date", "Error", "Map", "Set", "Promise", "RegExp"].includes(t.kind) ? t.kind : t.kind === "Buffer" ? "Uint8Array" : "Object"; return `[object ${n}]`; },
    propertyIsEnumerable(a, t) { return eng.hasOwn(t, eng.toKey(a[0])); },
    valueOf(a, t) { return t; },
    hasOwnProperty(a, t) { return eng.hasOwn(t, eng.toKey(a[0])); },
  });
  const entriesOf = (o) => { o = eng.force(o); if (o instanceof HObj && o.kind === "Array") return eng.mapArr(eng.ownKeys(o), (k) => eng.arrayOf([k, eng.get(o, eng.toNumeric(k))])); return eng.mapArr(eng.ownKeys(o), (k) => eng.arrayOf([k, eng.get(o, k)])); };
  statics(ObjectC, {
    keys: (a) => eng.ownKeys(a[0]),
    values: (a) => { const o = eng.force(a[0]); return o instanceof HObj && o.kind === "Array" ? eng.arrayOf(o.segs) : eng.mapArr(eng.ownKeys(o), (k) => eng.get(o, k)); },
    entries: (a) => entriesOf(a[0]),
    assign: (a) => { for (const s of a.slice(1)) eng.assignInto(eng.force(a[0]), s); return a[0]; },
    freeze: (a) => a[0], seal: (a) => a[0], preventExtensions: (a) => a[0], isFrozen: () => false,
    hasOwn: (a) => eng.hasOwn(a[0], eng.toKey(a[1])),
    getOwnPropertySymbols: (a) => { const o = eng.force(a[0]); if (o instanceof HObj && o.props && [...o.props.keys()].some((k) => typeof k === "string" && k.startsWith("@@"))) eng.unsupported("symbol keys"); return eng.arrayOf([]); },
    getOwnPropertyNames: (a) => eng.ownKeys(a[0]),
    getPrototypeOf: (a) => { const o = eng.force(a[0]); return o instanceof HObj ? o.proto : null; },
    create: (a) => new HObj("Object", eng.force(a[0])),
    is: (a) => { const x = eng.force(a[0]), y = eng.force(a[1]); return conc(x) && conc(y) ? Object.is(x, y) : eng.wrapB(eng.strictEq(x, y)); },
    fromEntries: (a) => {
      const o = eng.newObj();
      eng.iterate(eng.iterSegs(a[0]), (e) => { e = eng.force(e); const k = eng.toKey(eng.get(e, 0)); eng.set(o, k, eng.get(e, 1)); return undefined; });
      return o;
    },
    defineProperty: (a) => {
      const d = eng.force(a[2]); const k = eng.toKey(a[1]);
      const g = eng.get(d, "get"), s = eng.get(d, "set");
      if (g || s) a[0].props.set(k, new Acc(g ?? null, s ?? null)); else eng.setOwn(a[0], k, eng.get(d, "value"));
      return a[0];
    },
    groupBy: (a) => eng.unsupported("Object.groupBy"),
  });

  // ----- Function
  methods(R.FunctionProto, {
    call(a, t) { return eng.call(t, a[0], a.slice(1)); },
    apply(a, t) { return eng.call(t, a[0], a[1] === undefined || a[1] === null ? [] : eng.iterSegs(a[1])); },
    bind(a, t) { const f = new HObj("Function", R.FunctionProto); f.bound = { target: t, thisVal: a[0], args: a.slice(1) }; f.name = "bound " + t.name; return f; },
    toString(a, t) { return t.node && !t.bound ? t.node.getText() : "function"; },
  });
  glob("Function", eng.native("Function", () => eng.unsupported("Function constructor")));
  R.globals.get("Function").props.set("prototype", R.FunctionProto);

  // ----- Array
  const ArrayC = ctor("Array", R.ArrayProto, (a) => mkArray(a), (a) => mkArray(a));
  function mkArray(a) { if (a.length === 1 && typeof a[0] === "number") return eng.arrayOf(Array(a[0]).fill(undefined)); if (a.length === 1 && a[0] instanceof Sym && a[0].sort === "Int") { if (!eng.branch(T.le(T.intLit(0), a[0].t))) eng.throwError("RangeError", "Invalid array length"); if (eng.branch(T.eq(a[0].t, T.intLit(0)))) return eng.arrayOf([]); return eng.arrayOf([new Reserve(a[0].t)]); } return eng.arrayOf(a.slice()); }
  statics(ArrayC, {
    isArray: (a) => { const v = eng.force(a[0]); return v instanceof HObj && v.kind === "Array"; },
    of: (a) => eng.arrayOf(a.slice()),
    from: (a) => {
      const v = eng.force(a[0]);
      let arr;
      if (v instanceof HObj && v.kind === "Object" && !v.iterSegs) {
        const n = eng.toNumeric(eng.get(v, "length"));
        if (typeof n === "number") arr = eng.arrayOf(Array(Math.max(0, Math.floor(n) || 0)).fill(undefined));
        else { const s = eng.idSeg(new SeqBase(`range:${n.t.id}:0`, n.t, () => undefined, null)); eng.assume(T.le(T.intLit(0), n.t)); arr = eng.arrayOf([s]); }
      } else arr = eng.arrayOf(eng.iterSegs(v));
      return a[1] ? idxMap(arr, (x, i) => eng.call(a[1], undefined, [x, i])) : eng.arrayOf(arr.segs);
    },
  });
  // iterate with element index
  const eachIdx = (arr, body) => {
    let off = T.intLit(0); let known = true;
    for (const e of arr.segs) {
      let comp;
      if (e instanceof Seg) {
        const reg = eng.segRegular(e) === 1 && e.base.sort === "Int";
        const o = off, k = known;
        comp = eng.iterate([e], (x, li) => body(x, k && reg && li ? wrap(T.add(o, T.sub(li, e.base.start))) : new Poison("index of a filtered element")));
        if (reg) off = T.add(off, e.base.len); else known = false;
      } else { comp = body(e, known ? wrap(off) : new Poison("index after symbolic segment")); off = T.add(off, T.intLit(1)); }
      if (comp) return comp;
    }
    return undefined;
  };
  const idxMap = (arr, f) => { const out = eng.arrayOf([]); eachIdx(arr, (x, i) => { const y = f(x, i); eng.setField(out, "segs", [...out.segs, y]); return undefined; }); return out; };
  const num = (v, d) => { if (v === undefined) return d; v = eng.toNumeric(v); return v; };
  const pushTo = (out, ...xs) => eng.setField(out, "segs", [...out.segs, ...xs]);
  const arrM = {
    push(a, t) { eng.setField(t, "segs", [...t.segs, ...a]); return t.segs.some((s) => s instanceof Seg || s instanceof Mark) ? new Poison("push result") : t.segs.length; },
    pop(a, t) { const l = t.segs[t.segs.length - 1]; if (l instanceof Seg || l instanceof Mark) eng.unsupported("pop on symbolic array"); if (t.segs.length === 0) return undefined; eng.setField(t, "segs", t.segs.slice(0, -1)); return l; },
    shift(a, t) { if (t.segs.length === 0) return undefined; const f = t.segs[0]; if (f instanceof Seg || f instanceof Mark) { if (f instanceof Seg && eng.segRegular(f) === 1 && f.base instanceof SeqBase) { if (!eng.branch(T.lt(T.intLit(0), f.base.len))) { eng.setField(t, "segs", t.segs.slice(1)); return arrM.shift(a, t); } const v = eng.instantiate(f, T.intLit(0))[0]; eng.setField(t, "segs", [eng.dropSeg(f, 1), ...t.segs.slice(1)]); return v; } eng.unsupported("shift on symbolic array"); } eng.setField(t, "segs", t.segs.slice(1)); return f; },
    unshift(a, t) { eng.setField(t, "segs", [...a, ...t.segs]); return undefined; },
    concat(a, t) { const out = t.segs.slice(); for (let x of a) { x = eng.force(x); if (x instanceof HObj && x.kind === "Array") out.push(...x.segs); else out.push(x); } return eng.arrayOf(out); },
    slice(a, t) { return eng.arraySlice(t, num(a[0], 0), a[1] === undefined ? undefined : eng.toNumeric(a[1])); },
    splice(a, t) { if (t.segs.some((s) => s instanceof Seg || s instanceof Mark)) eng.unsupported("splice on symbolic array"); const c = t.segs.slice(); const r = a.length < 2 ? c.splice(a[0]) : c.splice(a[0], a[1], ...a.slice(2)); eng.setField(t, "segs", c); return eng.arrayOf(r); },
    map(a, t) { return idxMap(t, (x, i) => eng.call(a[0], undefined, [x, i, t])); },
    forEach(a, t) { eachIdx(t, (x, i) => { eng.call(a[0], undefined, [x, i, t]); return undefined; }); return undefined; },
    filter(a, t) { const out = eng.arrayOf([]); eachIdx(t, (x, i) => { if (eng.truthy(eng.call(a[0], undefined, [x, i, t]))) pushTo(out, x); return undefined; }); return out; },
    flatMap(a, t) { const out = eng.arrayOf([]); eachIdx(t, (x, i) => { const r = eng.force(eng.call(a[0], undefined, [x, i, t])); if (r instanceof HObj && r.kind === "Array") pushTo(out, ...r.segs); else pushTo(out, r); return undefined; }); return out; },
    flat(a, t) { const d = a[0] ?? 1; const out = eng.arrayOf([]); eng.iterate(t.segs, (x) => { const r = eng.force(x); if (r instanceof HObj && r.kind === "Array") pushTo(out, ...(d > 1 ? arrM.flat([d - 1], r).segs : r.segs)); else pushTo(out, r); return undefined; }); return out; },
    some(a, t) { const r = eachIdx(t, (x, i) => (eng.truthy(eng.call(a[0], undefined, [x, i, t])) ? { k: "return", v: true } : undefined)); return !!r; },
    every(a, t) { const r = eachIdx(t, (x, i) => (eng.truthy(eng.call(a[0], undefined, [x, i, t])) ? undefined : { k: "return", v: true })); return !r; },
    find(a, t) { const r = eachIdx(t, (x, i) => (eng.truthy(eng.call(a[0], undefined, [x, i, t])) ? { k: "return", v: x } : undefined)); return r ? r.v : undefined; },
    findIndex(a, t) { const r = eachIdx(t, (x, i) => (eng.truthy(eng.call(a[0], undefined, [x, i, t])) ? { k: "return", v: i } : undefined)); return r ? r.v : -1; },
    findLast(a, t) { const out = arrM.filter(a, t); return eng.arrayLast(out); },
    includes(a, t) { const y = eng.force(a[0]); const r = eng.iterate(t.segs, (x) => (eng.branch(eng.sameValueZero(x, y)) ? { k: "return", v: true } : undefined)); return !!r; },
    indexOf(a, t) { const y = eng.force(a[0]); const r = eachIdx(t, (x, i) => (eng.branch(eng.strictEq(x, y)) ? { k: "return", v: i } : undefined)); return r ? r.v : -1; },
    reduce(a, t) {
      const holder = eng.newObj({ acc: a.length > 1 ? a[1] : ABSENT });
      let arr = t;
      if (a.length < 2) {
        if (t.segs.length && !(t.segs[0] instanceof Seg)) { holder.props.set("acc", t.segs[0]); arr = eng.arrayOf(t.segs.slice(1)); } else if (t.segs.length === 0) eng.throwError("TypeError", "Reduce of empty array with no initial value");
        else { const first = eng.arrayGet(t, 0); if (eng.branch(T.eq(termOf(eng.arrayLength(t)), T.intLit(0)))) eng.throwError("TypeError", "Reduce of empty array with no initial value"); holder.props.set("acc", first); arr = eng.arraySlice(t, 1); }
      }
      eachIdx(arr, (x, i) => { const v = eng.call(a[0], undefined, [holder.props.get("acc"), x, i, t]); eng.setMap(holder, holder.props, "acc", v); return undefined; });
      return holder.props.get("acc");
    },
    join(a, t) { return eng.arrayJoin(t, a[0] === undefined ? "," : eng.toStr(a[0])); },
    toString(a, t) { return eng.arrayJoin(t, ","); },
    reverse(a, t) { const r = reversed(t); eng.setField(t, "segs", r); return t; },
    toReversed(a, t) { return eng.arrayOf(reversed(t)); },
    sort(a, t) { eng.setField(t, "segs", eng.sortSegs(t, a[0])); return t; },
    toSorted(a, t) { return eng.arrayOf(eng.sortSegs(t, a[0])); },
    at(a, t) { const i = eng.toNumeric(a[0]); if (i === -1) return eng.arrayLast(t); if (typeof i === "number" && i < 0) { if (t.segs.some((s) => s instanceof Seg)) eng.unsupported("at"); return t.segs.at(i); } return eng.arrayGet(t, i); },
    entries(a, t) { return idxMap(t, (x, i) => eng.arrayOf([i, x])); },
    keys(a, t) { return idxMap(t, (x, i) => i); },
    values(a, t) { return eng.arrayOf(t.segs); },
    fill(a, t) { if (t.segs.length === 1 && t.segs[0] instanceof Reserve && a.length === 1) { const n = t.segs[0].len, v = T.mkVar(eng.freshName("$r"), "Int"); eng.setField(t, "segs", [new Seg(eng.rangeBase(n, 0), v, [{ cond: T.TRUE, facts: [], items: [a[0]] }])]); return t; } if (t.segs.some((s) => s instanceof Seg)) { const r = idxMap(t, () => a[0]); eng.setField(t, "segs", r.segs); } else eng.setField(t, "segs", t.segs.map(() => a[0])); return t; },
    lastIndexOf(a, t) { const n = t.segs.length; if (t.segs.some((s) => s instanceof Seg)) eng.unsupported("lastIndexOf"); for (let i = n - 1; i >= 0; i--) if (eng.branch(eng.strictEq(t.segs[i], a[0]))) return i; return -1; },
  };
  methods(R.ArrayProto, arrM);
  function reversed(t) {
    return t.segs.slice().reverse().map((e) => {
      if (e instanceof Mark) eng.unsupported("reverse of loop-carried array");
      if (!(e instanceof Seg)) return e;
      if (eng.segRegular(e) !== 1 || !(e.base instanceof SeqBase)) eng.unsupported("reverse of symbolic array");
      const src = e.base;
      const mk = (src) => new SeqBase(`rev:${src.key}`, src.len, (i) => src.elem(T.sub(T.sub(src.len, T.intLit(1)), i)), (map) => mk(src.substFn ? src.substFn(map) : src));
      const v = T.mkVar(eng.freshName("$v"), "Int");
      const map = new Map([[e.v.id, T.sub(T.sub(src.len, T.intLit(1)), v)]]);
      const s = new Seg(mk(src), v, e.cases.map((c) => eng.substCase(c, map, e.born ?? Infinity)));
      s.born = e.born;
      return s;
    });
  }
  P.sortSegs = function (t, cmp) {
    const plain = !t.segs.some((s) => s instanceof Seg || s instanceof Mark);
    if (plain) {
      if (!cmp && t.segs.every((x) => typeof x === "string" || typeof x === "number")) return t.segs.slice().sort();
      if (t.segs.length > 6) eng.unsupported("sort of long symbolic array");
      const out = [];
      for (const x of t.segs) {
        let i = out.length;
        while (i > 0) {
          let gt;
          if (cmp) gt = eng.truthy(eng.compare("<", 0, eng.toNumeric(eng.call(cmp, undefined, [out[i - 1], x]))));
          else gt = eng.truthy(eng.compare("<", eng.toStr(x), eng.toStr(out[i - 1])));
          if (!gt) break;
          i--;
        }
        out.splice(i, 0, x);
      }
      return out;
    }
    // opaque permutation of the whole sequence
    const n = termOf(eng.arrayLength(t));
    const id = eng.opaqueTerm("sorted", { segs: t.segs, cmp: cmp ? eng.fnCanon(cmp) : "default" }, "Int").name;
    const src = eng.arrayOf(t.segs);
    const b = new SeqBase("sorted:" + id, n, (i) => { const p = T.uf("perm$" + id, [i], "Int"); eng.assume(T.implies(T.and(T.le(T.intLit(0), i), T.lt(i, n)), T.and(T.le(T.intLit(0), p), T.lt(p, n)))); return eng.arrayGet(src, new Sym(p)); }, null);
    const v = T.mkVar(eng.freshName("$e"), "Int");
    // one item per element, computed lazily at instantiation
    const m = eng.mark();
    const lazy = eng.nested(() => { eng.assume(b.inRange(v)); return b.elem(v); });
    if (lazy.length !== 1) eng.unsupported("sort of heterogeneous symbolic array");
    const s = new Seg(b, v, [{ cond: T.TRUE, facts: [T.and(T.le(T.intLit(0), T.uf("perm$" + id, [v], "Int")), T.lt(T.uf("perm$" + id, [v], "Int"), n))], items: [lazy[0]] }]);
    s.born = peekSerial();
    return [s];
  };
  P.fnCanon = function (f) { f = eng.force(f); return f.node ? f.node.getText().replace(/\s+/g, " ") : f.name; };
  P.arrayJoin = function (t, sep) {
    const toS = (x) => { x = eng.force(x); return x === undefined || x === null ? "" : eng.toStr(x); };
    if (!t.segs.some((s) => s instanceof Seg || s instanceof Mark)) {
      const parts = [];
      t.segs.forEach((x, i) => { if (i) parts.push(termOf(sep)); parts.push(termOf(toS(x))); });
      return wrap(T.concatList(parts));
    }
    const strs = eng.mapArr(t, toS);
    if (!strs.segs.some((s) => s instanceof Seg)) return eng.arrayJoin(strs, sep);
    // the empty array joins to ""
    if (strs.segs.length === 1 && strs.segs[0].base instanceof SeqBase) {
      const L = strs.segs[0].base.len;
      if (eng.quick(T.eq(L, T.intLit(0))) === true) return "";
      if (eng.segRegular(strs.segs[0]) === 1 && eng.quick(T.eq(L, T.intLit(1))) === true) return eng.arrayGet(strs, 0);
    }
    return new Sym(eng.opaqueTerm("join", { segs: strs.segs, sep }, "String"));
  };

  // ----- String
  const StringC = ctor("String", R.StringProto, (a) => (a.length ? (eng.force(a[0]) instanceof HObj && a[0].kind === "Symbol" ? "Symbol()" : eng.toStr(a[0])) : ""), (a) => eng.toStr(a[0]));
  statics(StringC, { fromCharCode: (a) => (a.every((x) => typeof x === "number") ? String.fromCharCode(...a) : eng.unsupported("fromCharCode")), raw: (a) => { const raw = eng.get(a[0], "raw").segs; let out = ""; raw.forEach((s, i) => { out = eng.plus(out, s); if (i < a.length - 1 && i < raw.length - 1) out = eng.plus(out, eng.toStr(a[i + 1])); }); return out; } });
  const st = (v) => termOf(eng.toStr(v));
  const concAll = (t, a) => typeof t === "string" && a.every((x) => conc(x) && typeof x !== "object" || x === undefined);
  const clampIdx = (v, len, dflt) => { // Int term clamped to [0,len]
    if (v === undefined) return dflt;
    v = eng.toNumeric(v);
    if (typeof v === "number") { if (Number.isNaN(v)) v = 0; if (v === Infinity) return len; if (v === -Infinity) return T.intLit(0); v = T.intLit(Math.trunc(v)); } else { v = v.t; if (v.sort === "Real") { const f = T.toInt(v); v = eng.branch(T.le(T.intLit(0), v)) ? f : T.neg(T.toInt(T.neg(v))); } }
    return v;
  };
  // the characters of an instant's ISO text: years 0 to 9999 have a fixed layout
  const ISO = [["y", 4], "-", ["mo", 2], "-", ["d", 2], "T", ["h", 2], ":", ["mi", 2], ":", ["s", 2], ".", ["ms", 3], "Z"];
  P.isoPieces = function (st) { // [[term, from, to, literal]] or null
    if (st.op === "uf" && st.name === "jsonQuote" && st.args[0].op === "uf" && st.args[0].name === "isoDate") { // the text of an instant in JSON
      const ps = eng.isoPieces(st.args[0]);
      if (!ps) return null;
      eng.assume(T.eq(T.strLen(st), T.intLit(26)));
      return [[T.strLit('"'), 0, 1, true], ...ps.map(([x, a, b, l]) => [x, a + 1, b + 1, l]), [T.strLit('"'), 25, 26, true]];
    }
    if (st.op !== "uf" || st.name !== "isoDate") return null;
    const t = st.args[0];
    if (!eng.branch(T.and(T.le(T.intLit(-62167219200000), t), T.le(t, T.intLit(253402300799999))))) return null;
    let at = 0;
    return ISO.map((x) => { const n = typeof x === "string" ? 1 : x[1]; const tm = typeof x === "string" ? T.strLit(x) : T.uf("iso." + x[0], [t], "String"); if (typeof x !== "string") eng.assume(T.app("in_re", [tm], "Bool", `((_ re.loop ${n} ${n}) (re.range "0" "9"))`)); const r = [tm, at, at + n]; at += n; return r; });
  };
  P.expandIso = function (st) { const ps = eng.isoPieces(st); return ps ? T.concatList(ps.map((p) => p[0])) : st; };
  const isoCut = (s, from, to) => {
    const ps = T.isLit(from) && T.isLit(to) ? eng.isoPieces(s) : null;
    if (!ps) return null;
    return wrap(T.concatList(ps.filter((p) => p[1] < to.v && p[2] > from.v).map(([t, a, b]) => (a >= from.v && b <= to.v ? t : T.app("str.substr", [t, T.intLit(Math.max(from.v - a, 0)), T.intLit(Math.min(b, to.v) - Math.max(a, from.v))], "String")))));
  };
  const substr = (s, from, to) => { // 0<=from<=to<=len
    { const r = isoCut(s, from, to); if (r !== null) return r; }
    if (eng.branch(T.le(to, from))) return "";
    if (T.isLit(from) && from.v === 0) { if (eng.quick(T.eq(to, T.strLen(s))) === true || to === T.strLen(s)) return wrap(s); }
    return wrap(T.app("str.substr", [s, from, T.sub(to, from)], "String"));
  };
  const clampTo = (t, len) => { // clamp Int term to [0,len] by forks
    if (!eng.branch(T.le(T.intLit(0), t))) return T.intLit(0);
    if (!eng.branch(T.le(t, len))) return len;
    return t;
  };
  const relIdx = (t, len) => (eng.branch(T.lt(t, T.intLit(0))) ? clampTo(T.add(t, len), len) : eng.branch(T.le(t, len)) ? t : len);
  // everything from a position on: `(str.substr s i (- len i))` is "" past the end, as in JavaScript, so no case split is needed
  const tail = (s, from, len, a) => {
    if (a[1] === undefined) { // past the parts of a text whose length is counted
      const ps = T.flatConcat(s);
      let left = from;
      for (let i = 0; i < ps.length; i++) {
        if (T.isLit(left) && left.v >= 0 && (left.v === 0 || T.isLit(ps[i]) && ps[i].v.length >= left.v)) return wrap(T.concatList(left.v === 0 ? ps.slice(i) : [T.strLit(ps[i].v.slice(left.v)), ...ps.slice(i + 1)]));
        left = T.sub(left, T.strLen(ps[i]));
      }
    }
    if (a[1] !== undefined || T.isLit(from) && from.v <= 0 || eng.isoPieces(s) || !eng.branch(T.le(T.intLit(0), from))) return null;
    return wrap(T.app("str.substr", [s, from, T.sub(len, from)], "String"));
  };
  const ufStr = (name) => (a, t) => {
    if (typeof t === "string") return t[name]();
    if (name.startsWith("trim")) { // known ends of a text are trimmed exactly
      const parts = termOf(t).op === "str.++" ? termOf(t).args.slice() : [termOf(t)];
      let a = name === "trimEnd" || name === "trimRight", b = name === "trimStart" || name === "trimLeft";
      while (!a && parts.length && T.isLit(parts[0])) { const v = parts[0].v.trimStart(); if (v === "") { parts.shift(); continue; } parts[0] = T.strLit(v); a = true; }
      while (!b && parts.length && T.isLit(parts.at(-1))) { const v = parts.at(-1).v.trimEnd(); if (v === "") { parts.pop(); continue; } parts[parts.length - 1] = T.strLit(v); b = true; }
      if (a && b || !parts.length) return wrap(T.concatList(parts));
    }
    const x = termOf(t), r = T.uf(name, [x], "String");
    if (name.startsWith("trim")) { eng.assume(T.le(T.strLen(r), T.strLen(x))); eng.assume(T.app("str.contains", [x, r], "Bool")); }
    return wrap(r);
  };
  const strM = {
    toString(a, t) { return t; }, valueOf(a, t) { return t; },
    toLowerCase: ufStr("toLowerCase"), toUpperCase: ufStr("toUpperCase"), trim: ufStr("trim"), trimStart: ufStr("trimStart"), trimEnd: ufStr("trimEnd"), normalize: ufStr("normalize"),
    concat(a, t) { return a.reduce((x, y) => eng.plus(x, eng.toStr(y)), t); },
    includes(a, t) { const x = eng.toStr(a[0]); if (typeof t === "string" && typeof x === "string") return t.includes(x); if (typeof x === "string" && typeof t !== "string") { const known = within(termOf(t), x); if (known !== undefined) return known; } return eng.wrapB(eng.simpB(T.app("str.contains", [termOf(t), termOf(x)], "Bool"))); },
    startsWith(a, t) {
      const x = eng.toStr(a[0]); if (typeof t === "string" && typeof x === "string") return t.startsWith(x, a[1]); if (a[1]) eng.unsupported("startsWith position");
      const parts = T.flatConcat(termOf(t));
      if (typeof x === "string" && parts.length && T.isLit(parts[0]) && parts[0].v.length >= x.length) return parts[0].v.startsWith(x);
      const xp = T.flatConcat(termOf(x));
      if (xp.length && xp.every((p, i) => p === parts[i])) return true;
      return eng.wrapB(T.app("str.prefixof", [termOf(x), termOf(t)], "Bool"));
    },
    endsWith(a, t) { const x = eng.toStr(a[0]); if (typeof t === "string" && typeof x === "string") return t.endsWith(x); if (typeof x === "string") return eng.wrapB(eng.simpB(ending(T.flatConcat(termOf(t)), x))); return eng.wrapB(T.app("str.suffixof", [termOf(x), termOf(t)], "Bool")); },
    indexOf(a, t) { const x = eng.toStr(a[0]); if (typeof t === "string" && typeof x === "string") return t.indexOf(x, a[1]); return wrap(T.app("str.indexof", [termOf(t), termOf(x), a[1] === undefined ? T.intLit(0) : termOf(a[1])], "Int")); },
    lastIndexOf(a, t) {
      const x = eng.toStr(a[0]); if (typeof t === "string" && typeof x === "string") return t.lastIndexOf(x);
      const s = termOf(t), n = termOf(x), single = typeof x === "string" && x.length === 1;
      if (single) { // the last part that has the character
        const parts = T.flatConcat(s);
        for (let k = parts.length - 1; k >= 0; k--) {
          const before = parts.slice(0, k).reduce((l, p) => T.add(l, T.strLen(p)), T.intLit(0));
          if (T.isLit(parts[k])) { const at = parts[k].v.lastIndexOf(x); if (at >= 0) return wrap(T.add(before, T.intLit(at))); continue; }
          if (!lacks(parts[k], x)) break;
          if (k === 0) return -1;
        }
      }
      const r = T.uf("lastIndexOf", [s, n], "Int");
      eng.assume(T.le(T.intLit(-1), r)); eng.assume(T.lt(r, T.add(T.strLen(s), T.intLit(1))));
      if (single) {
        eng.assume(T.eq(T.eq(r, T.intLit(-1)), T.not(T.app("str.contains", [s, n], "Bool"))));
        const rest = T.add(r, T.intLit(1));
        eng.assume(T.or(T.lt(r, T.intLit(0)), T.and(T.eq(T.app("str.substr", [s, r, T.intLit(1)], "String"), n), T.not(T.app("str.contains", [T.app("str.substr", [s, rest, T.sub(T.strLen(s), rest)], "String"), n], "Bool")))));
      }
      return wrap(r);
    },
    slice(a, t) {
      if (concAll(t, a)) return t.slice(...a);
      const s = termOf(t), len = T.strLen(s);
      if (s.op === "uf" && s.name === "jsonQuote") eng.isoPieces(s);
      { // known beginning and known end cut off
        const parts = T.flatConcat(s), z = parts.length - 1;
        if (z > 0 && Number.isInteger(a[0]) && a[0] >= 0 && Number.isInteger(a[1]) && a[1] < 0 && (a[0] === 0 || T.isLit(parts[0]) && parts[0].v.length >= a[0]) && T.isLit(parts[z]) && parts[z].v.length >= -a[1])
          return wrap(T.concatList([a[0] === 0 ? parts[0] : T.strLit(parts[0].v.slice(a[0])), ...parts.slice(1, z), T.strLit(parts[z].v.slice(0, a[1]))]));
      }
      { const r = tail(s, clampIdx(a[0], len, T.intLit(0)), len, a); if (r !== null) return r; }
      const from = relIdx(clampIdx(a[0], len, T.intLit(0)), len);
      const to = a[1] === undefined ? len : relIdx(clampIdx(a[1], len, len), len);
      return substr(s, from, to);
    },
    substring(a, t) {
      if (concAll(t, a)) return t.substring(...a);
      const s = termOf(t), len = T.strLen(s);
      if (s.op === "uf" && s.name === "jsonQuote") eng.isoPieces(s);
      { const r = tail(s, clampIdx(a[0], len, T.intLit(0)), len, a); if (r !== null) return r; }
      let from = clampTo(clampIdx(a[0], len, T.intLit(0)), len), to = a[1] === undefined ? len : clampTo(clampIdx(a[1], len, len), len);
      if (eng.branch(T.lt(to, from))) [from, to] = [to, from];
      return substr(s, from, to);
    },
    substr(a, t) { if (concAll(t, a)) return t.substr(...a); const s = termOf(t), len = T.strLen(s); const from = relIdx(clampIdx(a[0], len, T.intLit(0)), len); const n = a[1] === undefined ? T.sub(len, from) : clampTo(clampIdx(a[1], len, len), T.sub(len, from)); return substr(s, from, T.add(from, n)); },
    charAt(a, t) { const r = eng.charAt(t, a[0] ?? 0); return r === undefined ? "" : r; },
    charCodeAt(a, t) { if (typeof t === "string") return t.charCodeAt(a[0] ?? 0); const c = eng.charAt(t, a[0] ?? 0); return c === undefined ? NaN : wrap(T.app("str.to_code", [termOf(c)], "Int")); },
    codePointAt(a, t) { if (typeof t === "string") return t.codePointAt(a[0] ?? 0); return eng.unsupported("codePointAt"); },
    at(a, t) { const i = eng.toNumeric(a[0]); if (typeof t === "string" && typeof i === "number") return t.at(i); if (typeof i === "number" && i < 0) return eng.charAt(t, wrap(T.add(T.strLen(termOf(t)), T.intLit(i)))); return eng.charAt(t, i); },
    repeat(a, t) { if (concAll(t, a)) return t.repeat(a[0]); if (typeof a[0] === "number") return wrap(T.concatList(Array(a[0]).fill(termOf(t)))); const n = T.toInt(termOf(a[0])), r = T.uf("repeat", [termOf(t), n], "String"); if (!eng.branch(T.le(T.intLit(0), n))) eng.throwError("RangeError", "Invalid count value"); eng.assume(T.eq(T.eq(r, T.strLit("")), T.or([T.eq(n, T.intLit(0)), T.eq(termOf(t), T.strLit(""))]))); return wrap(r); },
    padStart(a, t) { if (concAll(t, a)) return t.padStart(...a); return pad(t, a, true); },
    padEnd(a, t) { if (concAll(t, a)) return t.padEnd(...a); return pad(t, a, false); },
    split(a, t) {
      const sep = eng.force(a[0]);
      if (typeof t === "string" && typeof sep === "string") return eng.arrayOf(t.split(sep, a[1]));
      if (typeof t === "string" && sep instanceof HObj && sep.kind === "RegExp") return eng.arrayOf(t.split(new RegExp(sep.source, sep.flags)));
      if (sep === "") { const d = eng.digitChars(termOf(t)); return eng.arrayOf(d ? d.map(wrap) : [eng.charsSeg(t)]); }
      if (typeof sep === "string" && /^[T:.Z-]$/.test(sep)) { const ps = eng.isoPieces(termOf(t)); if (ps) { const out = [[]]; for (const [x] of ps) { if (T.isLit(x) && x.v === sep) out.push([]); else out[out.length - 1].push(x); } return eng.arrayOf(out.map((l) => wrap(T.concatList(l)))); } }
      if (typeof sep === "string" && sep.length === 1 && a[1] === undefined) {
        const parts = T.flatConcat(termOf(t));
        if (parts.length > 1 && parts.every((p) => T.isLit(p) || lacks(p, sep))) {
          const out = [[]];
          for (const p of parts) if (T.isLit(p)) p.v.split(sep).forEach((x, k) => { if (k > 0) out.push([]); out[out.length - 1].push(T.strLit(x)); }); else out[out.length - 1].push(p);
          return eng.arrayOf(out.map((ps) => wrap(T.concatList(ps))));
        }
      }
      const sepT = sep instanceof HObj ? T.strLit("/" + sep.source + "/" + sep.flags) : termOf(eng.toStr(sep));
      return eng.splitSeq(termOf(t), sepT, sep instanceof HObj ? sep : null);
    },
    replace(a, t) { return replace(t, a[0], a[1], false); },
    replaceAll(a, t) { return replace(t, a[0], a[1], true); },
    match(a, t) { const re = eng.asRegExp(a[0]); if (re.flags.includes("g")) return eng.regexMatchAll(re, t, true); return eng.regexExec(re, t); },
    matchAll(a, t) { const re = eng.asRegExp(a[0]); return eng.regexMatchAll(re, t, false); },
    search(a, t) { const re = eng.asRegExp(a[0]); if (typeof t === "string") return t.search(new RegExp(re.source, re.flags)); return eng.unsupported("search"); },
    localeCompare(a, t) { if (concAll(t, a)) return t.localeCompare(...a); const x = T.uf("localeCompare", [termOf(t), st(a[0])], "Int"); eng.assume(T.eq(T.eq(x, T.intLit(0)), T.eq(termOf(t), st(a[0])))); return wrap(x); },
  };
  // whether a concatenation has a text, when only its literal parts can have the text's first character
  function within(t, x) {
    const parts = T.flatConcat(t);
    if (x === "" || parts.some((p) => T.isLit(p) && p.v.includes(x))) return true;
    if (x.length === 1 && parts.every((p) => T.isLit(p) || lacks(p, x))) return false;
    if (parts.length < 2 || !parts.every((p) => T.isLit(p) || sure(p, x[0]))) return undefined;
    const ways = [];
    parts.slice(0, -1).forEach((p, i) => {
      if (!T.isLit(p)) return;
      const rest = parts.slice(i + 1);
      for (let k = 1; k < x.length; k++) if (p.v.endsWith(x.slice(0, k))) ways.push(begins(rest, x.slice(k)));
    });
    return eng.wrapB(eng.simpB(T.or(...ways)));
  }
  function begins(parts, x) {
    const [first, ...rest] = parts;
    if (x === "") return T.TRUE;
    if (first === undefined) return T.FALSE;
    if (T.isLit(first)) return first.v.length >= x.length ? (first.v.startsWith(x) ? T.TRUE : T.FALSE) : x.startsWith(first.v) ? begins(rest, x.slice(first.v.length)) : T.FALSE;
    const m = x.split("").findIndex((ch) => sure(first, ch)); // then it is a beginning of the text before that character
    if (m < 0) return T.app("str.prefixof", [T.strLit(x), T.concatList(parts)], "Bool");
    return T.or(...[...Array(m + 1).keys()].map((k) => T.and(T.eq(first, T.strLit(x.slice(0, k))), begins(rest, x.slice(k)))));
  }
  function ending(parts, x) {
    const last = parts[parts.length - 1];
    if (last === undefined) return x === "" ? T.TRUE : T.FALSE;
    if (T.isLit(last)) { if (last.v.length >= x.length) return last.v.endsWith(x) ? T.TRUE : T.FALSE; if (!x.endsWith(last.v)) return T.FALSE; return ending(parts.slice(0, -1), x.slice(0, x.length - last.v.length)); }
    if (x === "") return T.TRUE;
    let m = x.length - 1;
    while (m >= 0 && !sure(last, x[m])) m--;
    if (m >= 0) return T.or(...[...Array(x.length - m).keys()].map((k) => T.and(T.eq(last, T.strLit(x.slice(m + 1 + k))), ending(parts.slice(0, -1), x.slice(0, m + 1 + k)))));
    return T.app("str.suffixof", [T.strLit(x), T.concatList(parts)], "Bool");
  }
  function sure(p, ch) { return (p.op === "uf" && p.name === "num2str" && !/[-+.0-9eInfityNa]/.test(ch)) || eng.alphabets?.get(p.id)?.(ch) === false; }
  // certain: no part of the text is this character
  function lacks(p, ch) {
    if (p.op === "uf" && p.name === "num2str") return !/[-+.0-9eInfityNa]/.test(ch);
    if (p.op === "uf" && p.name === "isoDate") return !/[-+.0-9TZ:]/.test(ch);
    if (p.op === "str.replace_all" && T.isLit(p.args[1]) && p.args[1].v === ch && T.isLit(p.args[2])) return !p.args[2].v.includes(ch);
    const known = eng.alphabets?.get(p.id);
    if (known && !known(ch)) return true;
    return eng.quick(T.not(T.app("str.contains", [p, T.strLit(ch)], "Bool"))) === true;
  }
  function pad(t, a, start) {
    const s = termOf(t), len = T.strLen(s);
    const n = eng.toNumeric(a[0]); const fill = a[1] === undefined ? " " : a[1];
    if (eng.branch(T.le(termOf(n), len))) return t;
    if (typeof n === "number" && typeof fill === "string" && fill.length === 1) {
      for (let k = 0; k < n; k++) if (eng.branch(T.eq(len, T.intLit(k)))) { const p = T.strLit(fill.repeat(n - k)); return wrap(start ? T.concat(p, s) : T.concat(s, p)); }
      throw new Infeasible();
    }
    return wrap(T.uf(start ? "padStart" : "padEnd", [s, termOf(n), termOf(fill)], "String"));
  }
  P.splitSeq = function (t, sepT, re) {
    if (t.op === "opaque") return null;
    const n = T.uf("split$n", [t, sepT], "Int");
    eng.assume(T.le(T.intLit(1), n));
    const mk = (t, sepT) => new SeqBase(`split:${t.id}:${sepT.id}`, T.uf("split$n", [t, sepT], "Int"), (i) => wrap(T.uf("split$e", [t, sepT, i], "String")), (map) => mk(T.subst(t, map), T.subst(sepT, map)));
    if (!re) {
      const has = T.app("str.contains", [t, sepT], "Bool");
      eng.assume(T.eq(T.lt(T.intLit(1), n), has));
      const e0 = T.uf("split$e", [t, sepT, T.intLit(0)], "String"), e1 = T.uf("split$e", [t, sepT, T.intLit(1)], "String");
      eng.assume(T.implies(T.not(has), T.eq(e0, t)));
      eng.assume(T.implies(has, T.eq(e0, T.app("str.substr", [t, T.intLit(0), T.app("str.indexof", [t, sepT, T.intLit(0)], "Int")], "String"))));
      eng.assume(T.not(T.app("str.contains", [e0, sepT], "Bool")));
      eng.assume(T.implies(T.eq(n, T.intLit(2)), T.eq(t, T.concat(e0, sepT, e1))));
      eng.assume(T.implies(has, T.app("str.prefixof", [T.concat(e0, sepT), t], "Bool")));
      eng.assume(T.implies(T.eq(n, T.intLit(2)), T.not(T.app("str.contains", [e1, sepT], "Bool"))));
    }
    return eng.arrayOf([eng.idSeg(mk(t, sepT))]);
  };
  // A plain word replaced everywhere in a text of known and unknown parts, where no unknown part can hold or help to make the word.
  function wordReplace(t, pat, rt) {
    if (!/^\w+$/.test(pat.source) || !/^g?i?$|^ig$/.test(pat.flags) || !pat.flags.includes("g")) return null;
    const ci = pat.flags.includes("i"), norm = (x) => (ci ? x.toLowerCase() : x), word = norm(pat.source), parts = T.flatConcat(t);
    if (ci && /[^\x00-\x7f]/.test(word)) return null;
    for (let k = 0; k < parts.length; k++) {
      const p = parts[k];
      if (T.isLit(p)) {
        const v = norm(p.v), before = k > 0, after = k < parts.length - 1;
        if (before && after && word.includes(v)) return null;
        for (let n = 1; n < word.length; n++) if (after && v.endsWith(word.slice(0, n)) || before && v.startsWith(word.slice(n))) return null;
      } else {
        if (k > 0 && !T.isLit(parts[k - 1])) return null;
        if (![...new Set(word)].some((ch) => lacks(p, ch) && (!ci || ch === ch.toUpperCase() || lacks(p, ch.toUpperCase())))) return null;
      }
    }
    if (!parts.some((p) => T.isLit(p) && norm(p.v).includes(word))) return t;
    if (T.isLit(rt) ? rt.v.includes("$") : !lacks(rt, "$")) return null;
    const out = [];
    for (const p of parts) {
      if (!T.isLit(p)) { out.push(p); continue; }
      let last = 0;
      for (const m of p.v.matchAll(new RegExp(pat.source, pat.flags))) { out.push(T.strLit(p.v.slice(last, m.index)), rt); last = m.index + m[0].length; }
      out.push(T.strLit(p.v.slice(last)));
    }
    return T.concatList(out);
  }
  function replace(t, pat, rep, all) {
    pat = eng.force(pat); rep = eng.force(rep);
    if (pat instanceof HObj && pat.kind === "RegExp") {
      const g = pat.flags.includes("g");
      if (typeof t === "string" && typeof rep === "string") return t.replace(new RegExp(pat.source, pat.flags), rep);
      if (typeof t === "string" && rep instanceof HObj) {
        const parts = []; let last = 0;
        for (const m of t.matchAll(new RegExp(pat.source, g ? pat.flags : pat.flags + "g"))) { parts.push(T.strLit(t.slice(last, m.index))); parts.push(termOf(eng.toStr(eng.call(rep, undefined, [...m])))); last = m.index + m[0].length; if (!g) break; }
        parts.push(T.strLit(t.slice(last)));
        return wrap(T.concatList(parts));
      }
      if (rep instanceof HObj) return wrap(T.uf("reReplaceFn", [termOf(t), T.strLit(`/${pat.source}/${pat.flags}`), T.strLit(eng.fnCanon(rep))], "String"));
      const rt = termOf(eng.toStr(rep));
      // simple single-literal global pattern
      const litm = /^(?:\\([^A-Za-z0-9])|([^\\^$.|?*+()[\]{}]))+$/.exec(pat.source);
      if (litm && !pat.flags.includes("i") && T.isLit(rt) && !rt.v.includes("$")) return g && [...pat.source.replace(/\\(.)/g, "$1")].join("").length === 1 ? wrap(swapChar(termOf(t), pat.source.replace(/\\(.)/g, "$1"), rt)) : wrap(T.app(g ? "str.replace_all" : "str.replace", [termOf(t), T.strLit(pat.source.replace(/\\(.)/g, "$1")), rt], "String"));
      const w = wordReplace(termOf(t), pat, rt); if (w) return wrap(w);
      const r = T.uf("reReplace", [termOf(t), T.strLit(`/${pat.source}/${pat.flags}`), rt], "String");
      // no match => unchanged
      try { const p = parseRegex(pat.source, pat.flags); eng.assume(T.implies(T.not(T.app("in_re", [termOf(t)], "Bool", p.full)), T.eq(r, termOf(t)))); eng.reReplaceFacts?.(pat, t, rt, r, p); } catch (e) { if (!(e instanceof RegexUnsupported)) throw e; }
      return wrap(r);
    }
    const p = eng.toStr(pat);
    if (rep instanceof HObj) { if (typeof t === "string" && typeof p === "string" && !t.includes(p)) return t; if (typeof t === "string" && typeof p === "string") { const r = eng.toStr(eng.call(rep, undefined, [p])); const i = t.indexOf(p); return wrap(T.concat(T.strLit(t.slice(0, i)), termOf(r), T.strLit(t.slice(i + p.length)))); } eng.unsupported("replace with function"); }
    const r = eng.toStr(rep);
    if ([t, p, r].every((x) => typeof x === "string")) return all ? t.replaceAll(p, r) : t.replace(p, r);
    const opaque = () => wrap(T.uf(all ? "strReplaceAll" : "strReplace", [termOf(t), termOf(p), termOf(r)], "String"));
    if (typeof r === "string" ? /\$[$&`'\d<]/.test(r) : eng.branch(T.app("str.contains", [termOf(r), T.strLit("$")], "Bool"))) return opaque();
    if (all && (typeof p === "string" ? p === "" : eng.branch(T.eq(termOf(p), T.strLit(""))))) return opaque();
    if (all && typeof p === "string" && p.length === 1) return wrap(swapChar(termOf(t), p, termOf(r)));
    return wrap(T.app(all ? "str.replace_all" : "str.replace", [termOf(t), termOf(p), termOf(r)], "String"));
  }
  // one character replaced everywhere: part by part
  function swapChar(t, ch, rt) {
    const swapped = (p) => (T.isLit(p) && T.isLit(rt) ? T.strLit(p.v.split(ch).join(rt.v)) : !T.isLit(p) && lacks(p, ch) ? p : T.app("str.replace_all", [p, T.strLit(ch), rt], "String"));
    const parts = T.flatConcat(t);
    return parts.length > 1 ? T.concatList(parts.map(swapped)) : swapped(t);
  }
  methods(R.StringProto, strM);

  // ----- Number / Math / Boolean
  const NumberC = ctor("Number", R.NumberProto, (a) => (a.length ? (typeof a[0] === "bigint" ? Number(a[0]) : eng.toNumeric(a[0])) : 0), (a) => eng.unsupported("new Number"));
  const isIntV = (v) => { v = eng.force(v); if (typeof v === "number") return Number.isInteger(v); if (isNumV(v)) return eng.wrapB(eng.simpB(T.isInt(v.t))); return false; };
  const parseNum = (kind) => (a) => {
    const v = eng.force(a[0]);
    if (kind === "parseInt") {
      if (typeof v === "number" || typeof v === "string") return Number.parseInt(v, a[1]);
      if (v instanceof Sym && v.sort === "Int") return v;
      if (v instanceof Sym && v.sort === "Real") return eng.trunc(v);
    } else if (typeof v === "number" || typeof v === "string") return Number.parseFloat(v);
    if (isNumV(v)) return v;
    const s = eng.toStr(v);
    if (typeof s === "string") return kind === "parseInt" ? Number.parseInt(s, a[1]) : Number.parseFloat(s);
    return eng.str2num(s.t, kind);
  };
  statics(NumberC, {
    isFinite: (a) => { const v = eng.force(a[0]); return typeof v === "number" ? Number.isFinite(v) : isNumV(v); },
    isNaN: (a) => Number.isNaN(eng.force(a[0])),
    isInteger: (a) => isIntV(a[0]),
    isSafeInteger: (a) => { const v = isIntV(a[0]); if (v !== true) { if (!eng.truthy(v)) return false; } const x = eng.force(a[0]); return eng.wrapB(T.and(T.le(T.intLit(-Number.MAX_SAFE_INTEGER), termOf(x)), T.le(termOf(x), T.intLit(Number.MAX_SAFE_INTEGER)))); },
    parseInt: parseNum("parseInt"), parseFloat: parseNum("parseFloat"),
    MAX_SAFE_INTEGER: Number.MAX_SAFE_INTEGER, MIN_SAFE_INTEGER: Number.MIN_SAFE_INTEGER, EPSILON: Number.EPSILON, POSITIVE_INFINITY: Infinity, NEGATIVE_INFINITY: -Infinity, NaN: NaN, MAX_VALUE: Number.MAX_VALUE,
  });
  glob("parseInt", eng.native("parseInt", parseNum("parseInt")));
  glob("parseFloat", eng.native("parseFloat", parseNum("parseFloat")));
  glob("isNaN", eng.native("isNaN", (a) => Number.isNaN(eng.toNumeric(a[0]))));
  glob("isFinite", eng.native("isFinite", (a) => { const v = eng.toNumeric(a[0]); return typeof v === "number" ? Number.isFinite(v) : true; }));
  const numFmt = (name) => (a, t) => { if (typeof t === "number" && (a[0] === undefined || typeof a[0] === "number")) { try { return t[name](a[0]); } catch (e) { eng.throwError(e.name, e.message); } } return wrap(T.uf(name, [T.toReal(termOf(t)), a[0] === undefined ? T.intLit(-1) : termOf(a[0])], "String")); };
  methods(R.NumberProto, {
    toString(a, t) { if (typeof t === "number") return t.toString(a[0]); if (a[0] !== undefined && a[0] !== 10) return wrap(T.uf("toStringRadix", [T.toReal(t.t), termOf(a[0])], "String")); return eng.toStr(t); },
    toFixed: numFmt("toFixed"), toPrecision: numFmt("toPrecision"), toExponential: numFmt("toExponential"), valueOf(a, t) { return t; },
    toLocaleString(a, t) { return wrap(T.uf("toLocaleString", [T.toReal(termOf(t))], "String")); },
  });
  ctor("Boolean", R.BooleanProto, (a) => { const c = eng.condTerm(a[0]); return typeof c === "boolean" ? c : wrap(c); }, () => eng.unsupported("new Boolean"));
  methods(R.BooleanProto, { toString(a, t) { return eng.toStr(t); }, valueOf(a, t) { return t; } });
  ctor("BigInt", R.BigIntProto, (a) => (conc(a[0]) ? BigInt(a[0]) : eng.unsupported("BigInt of symbolic")), () => eng.unsupported("new BigInt"));
  methods(R.BigIntProto, { toString(a, t) { return t.toString(a[0]); } });
  P.trunc = function (v) { if (typeof v === "number") return Math.trunc(v); if (v.sort === "Int") return v; return eng.branch(T.le(T.intLit(0), v.t)) ? wrap(T.toInt(v.t)) : wrap(T.neg(T.toInt(T.neg(v.t)))); };
  const m1 = (name, f) => (a) => { const v = eng.toNumeric(a[0]); if (typeof v === "number") return Math[name](v); return f ? f(v.t) : wrap(T.uf("Math." + name, [T.toReal(v.t)], "Real")); };
  const MathO = eng.newObj();
  glob("Math", MathO);
  for (const n of ["sin", "cos", "tan", "asin", "acos", "atan", "log", "exp", "log10", "log2", "cbrt"]) MathO.props.set(n, eng.native(n, m1(n)));
  const mm = (name, pick) => (a) => {
    if (a.some((x) => x instanceof Seg)) {
      const key = { segs: a };
      const t = eng.opaqueTerm("Math." + name, key, "Real");
      eng.unsupported(`Math.${name} over symbolic sequence`);
    }
    const vs = a.map((x) => eng.toNumeric(x));
    if (vs.some((x) => typeof x === "number" && Number.isNaN(x))) return NaN;
    if (vs.length === 0) return name === "min" ? Infinity : -Infinity;
    return vs.reduce((x, y) => { if (typeof x === "number" && typeof y === "number") return Math[name](x, y); const c = eng.compare("<", x, y); if (typeof c === "boolean") return c === (name === "min") ? x : y; if ((typeof x === "number" && !Number.isFinite(x)) || (typeof y === "number" && !Number.isFinite(y))) return eng.truthy(c) === (name === "min") ? x : y; return wrap(name === "min" ? T.ite(c.t, termOf(x), termOf(y)) : T.ite(c.t, termOf(y), termOf(x))); });
  };
  statics(MathO, {
    floor: m1("floor", (t) => wrap(T.toInt(t))), ceil: m1("ceil", (t) => wrap(t.sort === "Int" ? t : T.neg(T.toInt(T.neg(t))))), round: m1("round", (t) => wrap(t.sort === "Int" ? t : T.toInt(T.add(t, T.realLit(0.5))))),
    trunc: (a) => eng.trunc(eng.toNumeric(a[0])),
    abs: m1("abs", (t) => wrap(T.ite(T.le(T.intLit(0), t), t, T.neg(t)))),
    sqrt: (a) => { const v = eng.toNumeric(a[0]); if (typeof v === "number") return Math.sqrt(v); if (!eng.branch(T.le(T.intLit(0), v.t))) return NaN; const r = T.uf("Math.sqrt", [T.toReal(v.t)], "Real"); eng.assume(T.le(T.realLit(0), r)); eng.assume(T.eq(T.eq(r, T.realLit(0)), T.eq(T.toReal(v.t), T.realLit(0)))); return wrap(r); },
    sign: m1("sign", (t) => wrap(T.ite(T.lt(T.intLit(0), t), T.intLit(1), T.ite(T.eq(t, T.intLit(0)), T.intLit(0), T.intLit(-1))))),
    min: mm("min"), max: mm("max"),
    pow: (a) => eng.arith("**", eng.toNumeric(a[0]), eng.toNumeric(a[1])),
    atan2: (a) => { const [y, x] = a.map((v) => eng.toNumeric(v)); if (typeof x === "number" && typeof y === "number") return Math.atan2(y, x); if ([x, y].some((v) => typeof v === "number" && Number.isNaN(v))) return NaN; return wrap(T.uf("Math.atan2", [T.toReal(termOf(y)), T.toReal(termOf(x))], "Real")); },
    hypot: (a) => eng.unsupported("hypot"),
    random: () => { const r = eng.fresh("random", "Real"); eng.assume(T.le(T.realLit(0), r)); eng.assume(T.lt(r, T.realLit(1))); return new Sym(r); },
    PI: Math.PI, E: Math.E, LN2: Math.LN2, SQRT2: Math.SQRT2,
  });

  // ----- Errors
  const ErrorC = ctor("Error", R.ErrorProto, (a) => mkErr(R.ErrorProto, a), (a, nt) => mkErr(eng.get(nt, "prototype"), a));
  function mkErr(proto, a) {
    const o = new HObj("Error", proto);
    o.hidden = new Set(["message", "stack", "cause"]);
    if (a[0] !== undefined) o.props.set("message", eng.toStr(a[0]));
    o.props.set("stack", new Acc({ host: () => { const e = eng; const nm = e.toStr(e.get(o, "name")); return wrap(T.concat(termOf(nm), T.strLit(": "), termOf(e.toStr(e.get(o, "message"))), T.strLit("\n    at <stack>"))); } }, null));
    const opt = eng.force(a[1]);
    if (opt instanceof HObj && eng.hasOwn(opt, "cause")) o.props.set("cause", eng.get(opt, "cause"));
    return o;
  }
  R.ErrorProto.props.set("name", "Error"); R.ErrorProto.props.set("message", "");
  R.ErrorProto.hidden.add("name").add("message");
  method(R.ErrorProto, "toString", (a, t) => { const n = eng.toStr(eng.get(t, "name")), m = eng.toStr(eng.get(t, "message")); if (eng.truthy(eng.wrapB(eng.strictEq(n, "")))) return m; if (eng.truthy(eng.wrapB(eng.strictEq(m, "")))) return n; return wrap(T.concat(termOf(n), T.strLit(": "), termOf(m))); });
  ErrorC.props.set("captureStackTrace", eng.native("captureStackTrace", () => undefined));
  for (const n of ["TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError", "URIError"]) {
    const p = new HObj("Object", R.ErrorProto); p.hidden = new Set(["name", "constructor"]); p.props.set("name", n); R.protos[n] = p;
    const c = ctor(n, p, (a) => mkErr(p, a), (a, nt) => mkErr(eng.get(nt, "prototype"), a)); c.proto = ErrorC;
  }

  // ----- Set / Map
  const mkSet = (proto, a) => { const s = new HObj("Set", proto); s.segs = []; if (a[0] !== undefined && eng.force(a[0]) !== null) s.segs = eng.iterSegs(a[0]).slice(); return s; };
  ctor("Set", R.SetProto, () => eng.throwError("TypeError", "Constructor Set requires 'new'"), (a, nt) => mkSet(eng.get(nt, "prototype"), a));
  methods(R.SetProto, {
    add(a, t) { if (!t.segs.some((s) => s instanceof Seg || s instanceof Mark) && t.segs.some((e) => eng.quickSame(e, a[0]) === true)) return t; eng.setField(t, "segs", [...t.segs, eng.force(a[0])]); return t; },
    has(a, t) { return eng.setHas(t, a[0]); },
    delete(a, t) { const x = eng.force(a[0]); const out = []; let f = false; for (const e of t.segs) { if (e instanceof Seg || e instanceof Mark) eng.unsupported("Set.delete"); if (eng.branch(eng.sameValueZero(e, x))) f = true; else out.push(e); } eng.setField(t, "segs", out); return f; },
    clear(a, t) { eng.setField(t, "segs", []); },
    forEach(a, t) { eng.iterate(eng.setSegs(t), (x) => { eng.call(a[0], undefined, [x, x, t]); return undefined; }); },
    values(a, t) { return eng.arrayOf(eng.setSegs(t)); }, keys(a, t) { return eng.arrayOf(eng.setSegs(t)); },
    entries(a, t) { return eng.mapArr(eng.arrayOf(eng.setSegs(t)), (x) => eng.arrayOf([x, x])); },
    union(a, t) { const s = new HObj("Set", R.SetProto); s.segs = [...t.segs, ...eng.force(a[0]).segs]; return s; },
    difference(a, t) { const s = new HObj("Set", R.SetProto); const o = eng.force(a[0]); s.segs = []; eng.iterate(eng.setSegs(t), (x) => { if (!eng.setHas(o, x)) eng.setField(s, "segs", [...s.segs, x]); return undefined; }); return s; },
    intersection(a, t) { const s = new HObj("Set", R.SetProto); const o = eng.force(a[0]); s.segs = []; eng.iterate(eng.setSegs(t), (x) => { if (eng.setHas(o, x)) eng.setField(s, "segs", [...s.segs, x]); return undefined; }); return s; },
  });
  P.quickSame = function (a, b) { a = eng.force(a); b = eng.force(b); const r = eng.sameValueZero(a, b); return typeof r === "boolean" ? r : eng.quick(r); };
  const mkMap = (proto, a) => { const m = new HObj("Map", proto); m.store = eng.newObj(); if (a[0] !== undefined && eng.force(a[0]) !== null) eng.iterate(eng.iterSegs(a[0]), (e) => { e = eng.force(e); eng.setOwn(m.store, eng.mapKeyIn(m, eng.get(e, 0)), eng.get(e, 1)); return undefined; }); return m; };
  ctor("Map", R.MapProto, () => eng.throwError("TypeError", "Constructor Map requires 'new'"), (a, nt) => mkMap(eng.get(nt, "prototype"), a));
  ctor("WeakMap", new HObj("Object", R.MapProto), () => undefined, (a) => mkMap(R.MapProto, a)).props.get("prototype").hidden = new Set();
  methods(R.MapProto, {
    get(a, t) { const v = eng.lookupOwn(t.store, eng.mapKeyIn(t, a[0])); return v === ABSENT ? undefined : v; },
    has(a, t) { return eng.lookupOwn(t.store, eng.mapKeyIn(t, a[0])) !== ABSENT; },
    set(a, t) { eng.setOwn(t.store, eng.mapKeyIn(t, a[0]), a[1]); return t; },
    delete(a, t) { const k = eng.mapKeyIn(t, a[0]); const h = eng.lookupOwn(t.store, k) !== ABSENT; if (h) eng.deleteProp(t.store, k); return h; },
    clear(a, t) { eng.setField(t, "store", eng.newObj()); },
    forEach(a, t) { eng.iterate(eng.mapEntries(t).segs, (e) => { eng.call(a[0], undefined, [eng.get(e, 1), eng.get(e, 0), t]); return undefined; }); },
    keys(a, t) { return eng.mapArr(eng.mapEntries(t), (e) => eng.get(e, 0)); }, values(a, t) { return eng.mapArr(eng.mapEntries(t), (e) => eng.get(e, 1)); }, entries(a, t) { return eng.mapEntries(t); },
  });

  // ----- Date
  const mkDate = (t, proto) => { const d = new HObj("Date", proto ?? R.DateProto); d.t = t; return d; };
  P.mkDate = mkDate;
  P.dateParse = function (s) {
    if (typeof s === "string") return Date.parse(s);
    if (s.t.op === "uf" && s.t.name === "isoDate") return wrap(s.t.args[0].op === "to_real" ? s.t.args[0].args[0] : s.t.args[0]);
    if (!eng.branch(T.uf("dateOk", [s.t], "Bool"))) return NaN;
    return new Sym(T.uf("dateOf", [s.t], "Int"));
  };
  const DateC = ctor("Date", R.DateProto, () => eng.unsupported("Date()"), (a, nt) => {
    const proto = eng.get(nt, "prototype");
    if (a.length === 0) return mkDate(eng.clockNow(), proto);
    if (a.length > 1) { if (a.every((x) => typeof x === "number")) return mkDate(new Date(...a).getTime(), proto); return mkDate(wrap(T.uf("dateLocal", a.map((x) => T.toReal(termOf(eng.toNumeric(x)))), "Int")), proto); }
    const v = eng.force(a[0]);
    if (v instanceof HObj && v.kind === "Date") return mkDate(v.t, proto);
    const p = eng.toPrim(v);
    if (isStrV(p)) return mkDate(eng.dateParse(p), proto);
    let n = eng.toNumeric(p);
    if (typeof n === "number") return mkDate(new Date(n).getTime(), proto);
    const nt0 = termOf(n);
    if (!eng.branch(T.and(T.le(T.intLit(-8640000000000000), nt0), T.le(nt0, T.intLit(8640000000000000))))) return mkDate(NaN, proto);
    return mkDate(eng.trunc(n), proto);
  });
  P.clockNow = function () {
    if (eng.clock.frozen) return eng.clock.now;
    const t = eng.fresh("now", "Int");
    eng.assume(T.le(termOf(eng.clock.now), t));
    eng.setField(eng.clock, "now", new Sym(t));
    return eng.clock.now;
  };
  statics(DateC, { now: () => eng.clockNow(), parse: (a) => eng.dateParse(eng.toStr(a[0])), UTC: (a) => { if (a.every((x) => typeof x === "number")) return Date.UTC(...a); return wrap(T.uf("dateUTC" + a.length, a.map((x) => T.toReal(termOf(eng.toNumeric(x)))), "Int")); } });
  const iso = (t) => { if (typeof t === "number") { if (Number.isNaN(t)) eng.throwError("RangeError", "Invalid time value"); return new Date(t).toISOString(); } const r = T.uf("isoDate", [T.toReal(t.t)], "String"); eng.assume(T.or(T.eq(T.strLen(r), T.intLit(24)), T.eq(T.strLen(r), T.intLit(27)))); if (eng.branch(T.and(T.le(T.intLit(-62167219200000), t.t), T.le(t.t, T.intLit(253402300799999))))) eng.assume(T.eq(T.strLen(r), T.intLit(24))); return wrap(r); };
  P.isoCut = isoCut;
  P.isoDate = iso;
  P.dateToString = function (d) { if (typeof d.t === "number") return new Date(d.t).toString(); return wrap(T.uf("dateString", [T.toReal(d.t.t)], "String")); };
  const dm = { getTime(a, t) { return t.t; }, valueOf(a, t) { return t.t; }, toISOString(a, t) { return iso(t.t); }, toJSON(a, t) { return typeof t.t === "number" && Number.isNaN(t.t) ? null : iso(t.t); }, toString(a, t) { return eng.dateToString(t); }, toUTCString(a, t) { if (typeof t.t === "number") return new Date(t.t).toUTCString(); const r = T.uf("dateUTCString", [T.toReal(t.t.t)], "String"); return wrap(r); },
    setTime(a, t) { eng.setField(t, "t", eng.toNumeric(a[0])); return t.t; }, getTimezoneOffset() { return 0; } };
  for (const n of ["getFullYear", "getUTCFullYear", "getMonth", "getUTCMonth", "getDate", "getUTCDate", "getHours", "getUTCHours", "getMinutes", "getUTCMinutes", "getSeconds", "getUTCSeconds", "getMilliseconds", "getUTCMilliseconds", "getDay", "getUTCDay"]) {
    dm[n] = (a, t) => { if (typeof t.t === "number") return new Date(t.t)[n](); const r = T.uf("date." + n.replace("UTC", ""), [T.toReal(t.t.t)], "Int"); const hi = { Month: 11, Date: 31, Hours: 23, Minutes: 59, Seconds: 59, Milliseconds: 999, Day: 6 }[n.replace("UTC", "").slice(3)]; if (hi) { eng.assume(T.le(T.intLit(n.endsWith("Date") ? 1 : 0), r)); eng.assume(T.le(r, T.intLit(hi))); } return wrap(r); };
  }
  for (const n of ["setHours", "setUTCHours", "setMinutes", "setUTCMinutes", "setSeconds", "setUTCSeconds", "setMilliseconds", "setUTCMilliseconds", "setDate", "setUTCDate", "setMonth", "setUTCMonth", "setFullYear", "setUTCFullYear"]) {
    dm[n] = (a, t) => { if (typeof t.t === "number" && a.every((x) => typeof x === "number")) { const d = new Date(t.t); d[n](...a); eng.setField(t, "t", d.getTime()); } else eng.setField(t, "t", wrap(T.uf("date." + n.replace("UTC", "") + a.length, [T.toReal(termOf(t.t)), ...a.map((x) => T.toReal(termOf(eng.toNumeric(x))))], "Int"))); return t.t; };
  }
  for (const n of Object.keys(dm)) { const f = dm[n]; dm[n] = (a, t) => { if (t.t instanceof Union) eng.setField(t, "t", eng.force(t.t)); return f(a, t); }; }
  methods(R.DateProto, dm);

  // ----- RegExp
  P.makeRegExp = function (source, flags) { const r = new HObj("RegExp", R.RegExpProto); r.source = source; r.flags = flags; r.props.set("source", source); r.props.set("flags", flags); r.props.set("global", flags.includes("g")); r.props.set("lastIndex", 0); r.hidden = new Set(["source", "flags", "global", "lastIndex"]); return r; };
  // one match of a global or sticky expression on a known text moves its lastIndex, as the language says
  const hostRe = (re, run) => { const h = new RegExp(re.source, re.flags); if (!/[gy]/.test(re.flags)) return run(h); const at = eng.get(re, "lastIndex"); if (typeof at !== "number") eng.unsupported("unknown lastIndex"); h.lastIndex = at; const m = run(h); eng.set(re, "lastIndex", h.lastIndex); return m; };
  P.asRegExp = function (v) { v = eng.force(v); if (v instanceof HObj && v.kind === "RegExp") return v; const s = eng.toStr(v); if (typeof s !== "string") { const r = eng.makeRegExp("", ""); r.symSource = s; return r; } return eng.makeRegExp(s, ""); };
  ctor("RegExp", R.RegExpProto, (a) => mkRe(a), (a) => mkRe(a));
  function mkRe(a) { const v = eng.force(a[0]); if (v instanceof HObj && v.kind === "RegExp") return eng.makeRegExp(v.source, a[1] ?? v.flags); const s = eng.toStr(v); if (typeof s === "string") { try { new RegExp(s, a[1] ?? ""); } catch (e) { eng.throwError("SyntaxError", e.message); } return eng.makeRegExp(s, a[1] ?? ""); } const r = eng.makeRegExp("", a[1] ?? ""); r.symSource = s; r.props.set("source", s); return r; }
  P.regexTest = function (re, s) { // boolean | Term
    if (re.symSource) return T.uf("reTest", [re.symSource.t, termOf(s)], "Bool");
    if (typeof s === "string") return new RegExp(re.source, re.flags.replace(/[gy]/g, "")).test(s);
    try { return T.app("in_re", [s.t], "Bool", parseRegex(re.source, re.flags).full); } catch (e) { if (!(e instanceof RegexUnsupported)) throw e; return T.uf("reTest", [T.strLit(`/${re.source}/${re.flags}`), s.t], "Bool"); }
  };
  P.regexExec = function (re, s) {
    s = eng.toStr(s);
    if (typeof s === "string" && !re.symSource) {
      const m = hostRe(re, (h) => h.exec(s));
      if (!m) return null;
      const arr = eng.arrayOf([...m]); arr.props.set("index", m.index); arr.props.set("groups", m.groups ? eng.fromHost({ ...m.groups }) : undefined);
      return arr;
    }
    if (/[gy]/.test(re.flags)) eng.unsupported("match of an unknown text with a global expression");
    const c = eng.regexTest(re, s);
    if (!eng.branch(c)) return null;
    const st = termOf(s);
    const id = T.strLit(`/${re.source}/${re.flags}`);
    const src = re.symSource ? re.symSource.t : id;
    let parsed = null;
    try { if (!re.symSource) parsed = parseRegex(re.source, re.flags); } catch (e) { if (!(e instanceof RegexUnsupported)) throw e; }
    if (!parsed && !re.symSource) eng.unsupported("regex groups of " + re.source);
    const whole = parsed?.anchored ? s : wrap(T.uf("reMatch0", [src, st], "String"));
    const items = [whole];
    const groups = eng.newObj();
    let any = false;
    (parsed?.groups ?? []).forEach((g, i) => { if (g.optional && !eng.branch(T.uf("reHas" + (i + 1), [src, st], "Bool"))) { items.push(undefined); if (g.name) { any = true; groups.props.set(g.name, undefined); } return; } const t = T.uf("reGroup" + (i + 1), [src, st], "String"); if (g.re) eng.assume(T.app("in_re", [t], "Bool", g.re)); items.push(wrap(t)); if (g.name) { any = true; groups.props.set(g.name, wrap(t)); } });
    const arr = eng.arrayOf(items);
    arr.props.set("groups", any ? groups : undefined);
    arr.props.set("index", wrap(T.uf("reIndex", [src, st], "Int")));
    return arr;
  };
  P.regexMatchAll = function (re, s, strings) {
    s = eng.toStr(s);
    if (typeof s === "string" && !re.symSource) {
      const ms = [...s.matchAll(new RegExp(re.source, re.flags.includes("g") ? re.flags : re.flags + "g"))];
      if (strings) return ms.length ? eng.arrayOf(ms.map((m) => m[0])) : null;
      return eng.arrayOf(ms.map((m) => eng.arrayOf([...m])));
    }
    const src = re.symSource ? re.symSource.t : T.strLit(`/${re.source}/${re.flags}`);
    const c = eng.regexTest(re, s);
    const n = T.uf("reCount", [src, termOf(s)], "Int");
    if (!eng.branch(c)) { eng.assume(T.eq(n, T.intLit(0))); return strings ? null : eng.arrayOf([]); }
    eng.assume(T.le(T.intLit(1), n));
    const stt = termOf(s);
    const b = new SeqBase(`matches:${src.id}:${stt.id}`, n, (i) => { const m = wrap(T.uf("reMatchN", [src, stt, i], "String")); return strings ? m : eng.arrayOf([m]); }, null);
    return eng.arrayOf([eng.idSeg(b)]);
  };
  methods(R.RegExpProto, {
    test(a, t) { const s = eng.toStr(a[0]); if (typeof s === "string" && !t.symSource) return hostRe(t, (h) => h.test(s)); if (/[gy]/.test(t.flags)) eng.unsupported("test of an unknown text with a global expression"); return eng.wrapB(eng.regexTest(t, s)); },
    exec(a, t) { return eng.regexExec(t, a[0]); },
    toString(a, t) { return `/${t.source}/${t.flags}`; },
  });

  // ----- Promise
  const PromiseC = ctor("Promise", R.PromiseProto, () => eng.throwError("TypeError", "Promise constructor"), (a) => {
    const p = eng.newPromise("pending");
    const res = eng.native("resolve", (x) => { eng.settle(p, "fulfilled", x[0]); return undefined; });
    const rej = eng.native("reject", (x) => { eng.settle(p, "rejected", x[0]); return undefined; });
    try { eng.call(a[0], undefined, [res, rej]); } catch (e) { if (!(e instanceof JSThrow)) throw e; eng.settle(p, "rejected", e.value); }
    return p;
  });
  methods(R.PromiseProto, {
    then(a, t) { return eng.promiseThen(t, a[0], a[1]); },
    catch(a, t) { return eng.promiseThen(t, undefined, a[0]); },
    finally(a, t) { const f = a[0]; return eng.promiseThen(t, eng.native("fin", (x) => { eng.awaitV(eng.call(f, undefined, [])); return x[0]; }), eng.native("fin", (x) => { eng.awaitV(eng.call(f, undefined, [])); throw new JSThrow(x[0]); })); },
  });
  const awaitAll = (arr, f) => {
    const plain = !arr.segs.some((s) => s instanceof Seg);
    const r = eng.newPromise("pending");
    if (!plain) return null;
    return r;
  };
  statics(PromiseC, {
    resolve: (a) => eng.promiseResolve(a[0]), reject: (a) => eng.promiseReject(a[0]),
    all: (a) => {
      try { const out = eng.arrayOf([]); eng.iterate(eng.iterSegs(a[0]), (x) => { const v = eng.awaitV(eng.promiseResolve(x)); eng.setField(out, "segs", [...out.segs, v]); return undefined; }); return eng.promiseResolve(out); } catch (e) { if (!(e instanceof JSThrow)) throw e; return eng.promiseReject(e.value); }
    },
    allSettled: (a) => {
      const out = eng.arrayOf([]);
      eng.iterate(eng.iterSegs(a[0]), (x) => { let o; try { o = eng.newObj({ status: "fulfilled", value: eng.awaitV(eng.promiseResolve(x)) }); } catch (e) { if (!(e instanceof JSThrow)) throw e; o = eng.newObj({ status: "rejected", reason: e.value }); } eng.setField(out, "segs", [...out.segs, o]); return undefined; });
      return eng.promiseResolve(out);
    },
    race: (a) => {
      const r = eng.newPromise("pending");
      const segs = eng.iterSegs(a[0]);
      if (segs.some((s) => s instanceof Seg)) eng.unsupported("Promise.race over symbolic sequence");
      for (const x of segs) eng.react(eng.promiseResolve(x), (v) => eng.settle(r, "fulfilled", v), (e) => eng.settle(r, "rejected", e));
      return r;
    },
    any: () => eng.unsupported("Promise.any"),
    withResolvers: () => { const p = eng.newPromise("pending"); return eng.newObj({ promise: p, resolve: eng.native("resolve", (x) => { eng.settle(p, "fulfilled", x[0]); }), reject: eng.native("reject", (x) => { eng.settle(p, "rejected", x[0]); }) }); },
  });
  glob("setTimeout", eng.native("setTimeout", (a) => eng.addTimer(a[0], a[1], a.slice(2))));
  glob("clearTimeout", eng.native("clearTimeout", (a) => { const h = eng.force(a[0]); if (h instanceof HObj && h.timer) eng.setField(eng.clock, "timers", eng.clock.timers.filter((x) => x !== h.timer)); }));
  glob("queueMicrotask", eng.native("queueMicrotask", (a) => { eng.call(a[0], undefined, []); }));
  glob("setInterval", eng.native("setInterval", () => eng.unsupported("setInterval")));

  // ----- JSON
  const JSONO = eng.newObj();
  glob("JSON", JSONO);
  statics(JSONO, {
    stringify: (a) => { const v = eng.force(a[0]); const rep = eng.force(a[1]); const r = eng.jsonText(v, rep === undefined || rep === null ? null : rep, a[2]); return r; },
    parse: (a) => eng.jsonParse(eng.toStr(a[0]), a[1]),
  });
  P.jsonParse = function (s, reviver) {
    if (reviver) eng.unsupported("JSON.parse reviver");
    if (typeof s === "string") { let h; try { h = JSON.parse(s); } catch (e) { eng.throwError("SyntaxError", e.message); } return eng.fromHost(h); }
    let snap = eng.jsonTexts?.get(s.t.id);
    if (snap === undefined) { // white space around the text does not matter
      const parts = T.flatConcat(s.t).slice(), l = parts.length - 1;
      if (l >= 0 && T.isLit(parts[l])) parts[l] = T.strLit(parts[l].v.trimEnd());
      if (l >= 0 && T.isLit(parts[0])) parts[0] = T.strLit(parts[0].v.trimStart());
      snap = eng.jsonTexts?.get(T.concatList(parts).id);
      // a character written as its JSON escape reads the same
      const plain = (p) => { while (p.op === "str.replace_all" && T.isLit(p.args[1]) && T.isLit(p.args[2]) && /^[^"\\\x00-\x1f0-9a-z{}[\],:]$/.test(p.args[1].v) && p.args[2].v.toLowerCase() === "\\u" + p.args[1].v.charCodeAt(0).toString(16).padStart(4, "0") && p.args[0].op === "uf" && (p.args[0].name === "jsonQuote")) p = p.args[0]; return p; };
      if (snap === undefined) snap = eng.jsonTexts?.get(T.concatList(parts.map(plain)).id);
    }
    if (snap !== undefined) return eng.deepCopy(snap.v);
    const built = eng.jsonStructure(T.flatConcat(s.t));
    if (built !== undefined) return built;
    // a text made earlier for the current element of some collection
    for (const p of eng.jsonPatterns ?? []) { const m = T.match(p.t, s.t, p.vars); if (m) return eng.deepCopy(eng.substV(p.v, m, 0)); }
    if (!eng.branch(T.uf("jsonOk", [s.t], "Bool"))) eng.throwError("SyntaxError", "Unexpected token in JSON");
    return eng.anyValue("json", [s.t]);
  };
  // a text put together from known JSON syntax and encoded values; undefined if it is not plainly that
  P.jsonStructure = function (parts) {
    const NO = {}, toks = [];
    for (const p of parts) {
      if (T.isLit(p)) toks.push(...p.v);
      else if (p.op === "uf" && p.name === "jsonQuote") toks.push({ v: wrap(p.args[0]) });
      else if (p.op === "uf" && p.name === "num2str") toks.push({ v: wrap(p.args[0]) });
      else { const snap = eng.jsonTexts?.get(p.id); if (!snap) return undefined; toks.push({ v: eng.deepCopy(snap.v) }); }
    }
    let i = 0;
    const ws = () => { while (typeof toks[i] === "string" && /[ \t\n\r]/.test(toks[i])) i++; };
    const text = () => { let j = i + 1; while (j < toks.length && toks[j] !== '"') { if (typeof toks[j] !== "string") throw NO; j += toks[j] === "\\" ? 2 : 1; } if (j >= toks.length) throw NO; const l = toks.slice(i, j + 1).join(""); i = j + 1; try { return JSON.parse(l); } catch { throw NO; } };
    const value = () => {
      ws();
      const c = toks[i];
      if (c === undefined) throw NO;
      if (typeof c !== "string") { i++; return c.v; }
      if (c === '"') return text();
      if (c === "[") { i++; const out = []; ws(); if (toks[i] === "]") { i++; return eng.arrayOf(out); } for (;;) { out.push(value()); ws(); const d = toks[i++]; if (d === "]") return eng.arrayOf(out); if (d !== ",") throw NO; } }
      if (c === "{") { i++; const out = eng.newObj(); ws(); if (toks[i] === "}") { i++; return out; } for (;;) { ws(); const k = toks[i] === '"' ? text() : NO; if (k === NO || k === "__proto__") throw NO; ws(); if (toks[i++] !== ":") throw NO; const v = value(); eng.set(out, k, v); ws(); const d = toks[i++]; if (d === "}") return out; if (d !== ",") throw NO; } }
      let l = ""; while (typeof toks[i] === "string" && /[-+.\w]/.test(toks[i])) l += toks[i++];
      if (typeof toks[i] === "object") throw NO;
      try { const h = JSON.parse(l); if (h !== null && typeof h === "object") throw NO; return h; } catch { throw NO; }
    };
    try { const v = value(); ws(); if (i < toks.length) throw NO; return v; } catch (e) { if (e !== NO) throw e; return undefined; }
  };
  // text as a term; structural where the shape is known
  P.jsonText = function (v, replacer, indent) {
    if (replacer instanceof HObj && replacer.kind === "Function") { v = eng.replaced(v, replacer, "", eng.newObj({ "": v })); replacer = null; }
    else if (replacer instanceof HObj) eng.unsupported("JSON.stringify key list");
    const ind = indent === undefined ? null : indent;
    const seen = [];
    const go = (v, holderKey) => {
      v = eng.force(v);
      if (v instanceof HObj && v.kind !== "Function") {
        const tj = v.kind === "Ext" ? undefined : eng.getFrom(v, "toJSON", v);
        if (tj instanceof HObj && tj.kind === "Function") v = eng.force(eng.call(tj, v, [holderKey]));
      }
      if (v === null) return T.strLit("null");
      if (v === undefined) return null;
      if (typeof v === "bigint") eng.throwError("TypeError", "Do not know how to serialize a BigInt");
      if (typeof v === "number" || typeof v === "boolean" || typeof v === "string") return T.strLit(JSON.stringify(v));
      if (v instanceof Sym) {
        if (v.sort === "String") return T.uf("jsonQuote", [v.t], "String");
        return termOf(eng.toStr(v));
      }
      if (v.kind === "Function" || v.kind === "Symbol") return null;
      if (v.kind === "Ext") return T.uf("jsonExt", [termOf(eng.extToString(v))], "String");
      if (seen.includes(v)) eng.throwError("TypeError", "Converting circular structure to JSON");
      seen.push(v);
      try {
        if (v.kind === "Array") {
          if (v.segs.some((s) => s instanceof Seg)) {
            const strs = eng.mapArr(v, (x) => wrap(go(x) ?? T.strLit("null")));
            return T.concat(T.strLit("["), termOf(eng.arrayJoin(strs, ",")), T.strLit("]"));
          }
          const parts = [T.strLit("[")];
          v.segs.forEach((x, i) => { if (i) parts.push(T.strLit(",")); parts.push(go(x, String(i)) ?? T.strLit("null")); });
          parts.push(T.strLit("]"));
          return T.concatList(parts);
        }
        if (v.kind === "Map" || v.kind === "Set") return T.strLit("{}");
        if (v.kind === "RegExp") return T.strLit("{}");
        const keys = eng.ownKeys(v);
        if (keys.segs.some((s) => s instanceof Seg)) {
          const strs = eng.arrayOf([]);
          eng.iterate(keys.segs, (k) => { const t = go(eng.get(v, k), k); if (t) eng.setField(strs, "segs", [...strs.segs, wrap(T.concat(go(k), T.strLit(":"), t))]); return undefined; });
          return T.concat(T.strLit("{"), termOf(eng.arrayJoin(strs, ",")), T.strLit("}"));
        }
        const parts = [T.strLit("{")];
        let first = true;
        for (const k of keys.segs) {
          const t = go(eng.get(v, k), k);
          if (t === null) continue;
          if (!first) parts.push(T.strLit(","));
          first = false;
          parts.push(go(k)); parts.push(T.strLit(":")); parts.push(t);
        }
        parts.push(T.strLit("}"));
        return T.concatList(parts);
      } finally { seen.pop(); }
    };
    let t = go(v, "");
    if (t === null) return undefined;
    if (ind !== null && ind !== 0 && v instanceof HObj) t = T.isLit(t) ? T.strLit(JSON.stringify(JSON.parse(t.v), null, ind)) : T.uf("jsonIndent", [t, termOf(ind)], "String");
    const r = wrap(t);
    if (r instanceof Sym) { (eng.jsonTexts ??= new Map()); if (!eng.jsonTexts.has(t.id)) { const snap = eng.deepCopy(v, true); eng.jsonTexts.set(t.id, { v: snap }); const vars = new Set(T.varsOf(t).filter((x) => x.name.startsWith("$")).map((x) => x.id)); if (vars.size > 0 && !eng.jsonPatterns.some((p) => p.t === t)) eng.jsonPatterns.push({ t, vars, v: snap }); eng.trail.push({ undo: () => eng.jsonTexts.delete(t.id) }); } }
    return r;
  };
  // what a replacer function makes of a value
  P.replaced = function (v, rep, key, holder, depth = 0) {
    if (depth > 12) eng.unsupported("deep structure given to a JSON replacer");
    v = eng.force(v);
    if (v instanceof HObj && v.kind !== "Function" && v.kind !== "Ext") { const tj = eng.getFrom(v, "toJSON", v); if (tj instanceof HObj && tj.kind === "Function") v = eng.force(eng.call(tj, v, [key])); }
    v = eng.force(eng.call(rep, holder, [key, v]));
    if (!(v instanceof HObj) || v.kind === "Function" || v.kind === "Ext") return v;
    if (v.kind === "Array") { let i = 0; return v.segs.some((s) => s instanceof Seg) ? eng.mapArr(v, (x) => eng.replaced(x, rep, "0", v, depth + 1)) : eng.arrayOf(v.segs.map((x) => eng.replaced(x, rep, String(i++), v, depth + 1))); }
    const o = eng.newObj();
    if (v.kind === "Map" || v.kind === "Set" || v.kind === "RegExp") return o;
    eng.iterate(eng.ownKeys(v).segs, (k) => { eng.setOwn(o, k, eng.replaced(eng.get(v, k), rep, k, v, depth + 1)); return undefined; });
    return o;
  };
  P.deepCopy = function (v, json, inArray) {
    v = eng.force(v);
    if (json && (inArray && (v === undefined || (v instanceof HObj && v.kind === "Function")) || (typeof v === "number" && !Number.isFinite(v)))) return null;
    if (!(v instanceof HObj) || v.kind === "Function" || v.kind === "Ext") return v;
    if (v.kind === "Date") return json ? iso(v.t) : mkDate(v.t);
    if (v.kind === "Array") {
      if (!v.segs.some((s) => s instanceof Seg)) return eng.arrayOf(v.segs.map((x) => eng.deepCopy(x, json, true)));
      return eng.mapArr(v, (x) => eng.deepCopy(x, json, true));
    }
    const keys = eng.ownKeys(v);
    const o = eng.newObj();
    eng.iterate(keys.segs, (k) => { const x = eng.get(v, k); if (json && (eng.force(x) === undefined || (eng.force(x) instanceof HObj && eng.force(x).kind === "Function"))) return undefined; eng.setOwn(o, k, eng.deepCopy(x, json)); return undefined; });
    return o;
  };
  glob("structuredClone", eng.native("structuredClone", (a) => eng.deepCopy(a[0])));

  // ----- misc
  for (const n of ["encodeURIComponent", "decodeURIComponent", "encodeURI", "decodeURI", "btoa", "atob", "escape"]) glob(n, eng.native(n, (a) => { const s = eng.toStr(a[0]); if (typeof s === "string") return globalThis[n](s); return wrap(T.uf(n, [s.t], "String")); }));
  const SymC = eng.native("Symbol", (a) => { const s = new HObj("Symbol", R.SymbolProto); s.key = "@@sym" + s.id; return s; });
  for (const n of ["iterator", "asyncIterator", "hasInstance", "toPrimitive", "toStringTag"]) { const s = new HObj("Symbol", R.SymbolProto); s.key = "@@" + n; SymC.props.set(n, s); }
  SymC.props.set("for", eng.native("for", (a) => { const s = new HObj("Symbol", R.SymbolProto); s.key = "@@for:" + a[0]; return s; }));
  glob("Symbol", SymC);
  const g = eng.newObj(); glob("globalThis", g);
  // ----- Buffer / bytes : content represented by a text term under an encoding
  const mkBuf = (fields) => { const b = new HObj("Buffer", R.BufferProto); Object.assign(b, fields); return b; };
  P.mkBuf = mkBuf;
  const BufferC = ctor("Buffer", R.BufferProto, () => eng.unsupported("Buffer()"), () => eng.unsupported("new Buffer"));
  const encode = (utf8, enc) => { // utf8 text term -> text in enc
    if (enc === "utf8" || enc === "utf-8") return utf8;
    if (T.isLit(utf8) && ["base64", "base64url", "hex", "latin1", "ascii"].includes(enc)) return T.strLit(Buffer.from(utf8.v).toString(enc));
    if (utf8.op === "uf" && utf8.name === "dec_" + enc) return null;
    if ((enc === "ascii" || enc === "latin1" || enc === "binary") && isAscii(utf8)) return utf8;
    const r = T.uf("enc_" + enc, [utf8], "String");
    eng.assume(T.eq(T.eq(r, T.strLit("")), T.eq(utf8, T.strLit(""))));
    return r;
  };
  const isAscii = (t) => eng.branch(T.app("in_re", [t], "Bool", '(re.* (re.range "\\u{0}" "\\u{7f}"))'));
  const decode = (text, enc) => {
    if (enc === "utf8" || enc === "utf-8") return text;
    if (T.isLit(text)) return T.strLit(Buffer.from(text.v, enc).toString());
    if (text.op === "uf" && text.name === "enc_" + enc) return text.args[0];
    if ((enc === "ascii" || enc === "latin1" || enc === "binary") && isAscii(text)) return text;
    return T.uf("dec_" + enc, [text], "String");
  };
  statics(BufferC, {
    from: (a) => { const v = eng.force(a[0]); if (v instanceof HObj && v.kind === "Buffer") return mkBuf({ utf8: v.utf8, raw: v.raw }); if (v instanceof HObj && v.kind === "Array") { eng.unsupported("Buffer.from array"); } const s = termOf(eng.toStr(v)); const enc = (a[1] ?? "utf8"); if (s.op === "uf" && s.name === "rawtext_" + enc) return mkBuf({ raw: s.args[0] }); return mkBuf({ utf8: decode(s, enc), orig: { enc, s } }); },
    byteLength: (a) => byteLen(eng.force(a[0]) instanceof HObj ? eng.force(a[0]) : mkBuf({ utf8: termOf(eng.toStr(a[0])), ...(a[1] && a[1] !== "utf8" && a[1] !== "utf-8" ? { utf8: decode(termOf(eng.toStr(a[0])), a[1]) } : {}) })),
    isBuffer: (a) => { const v = eng.force(a[0]); return v instanceof HObj && v.kind === "Buffer"; },
    concat: (a) => {
      const segs = eng.iterSegs(a[0]);
      if (segs.some((x) => x instanceof Seg)) eng.unsupported("Buffer.concat of a symbolic list");
      const bs = segs.map((x) => eng.force(x)).filter((b) => b.raw || !(T.isLit(b.utf8) && b.utf8.v === ""));
      if (bs.length === 1) return mkBuf({ utf8: bs[0].utf8, raw: bs[0].raw });
      if (bs.every((b) => !b.raw)) return mkBuf({ utf8: T.concatList(bs.map((b) => b.utf8)) });
      return mkBuf({ raw: T.uf("rawconcat" + bs.length, bs.map((b) => b.raw ?? b.utf8), "String") });
    },
  });
  const textBytes = (t) => {
    if (T.isLit(t)) return T.intLit(Buffer.byteLength(t.v));
    if (t.op === "str.++") return t.args.map(textBytes).reduce((a, b) => T.add(a, b));
    // byte counts are kept apart from str.len: limits of millions of characters are out of reach of string solvers
    const r = T.uf("bytelen", [t], "Int"), between = (lo, hi) => { eng.assume(T.le(lo, r)); eng.assume(T.le(r, hi)); return r; };
    if (t.op === "uf") {
      const arg = () => textBytes(t.args[0]), I = T.intLit;
      if (t.name === "jsonQuote") { const q = arg(); return between(T.add(q, I(2)), T.add(T.mul(I(6), q), I(2))); }
      if (t.name === "etag") return between(I(30), I(50));
      if (t.name === "dateUTCString") return between(I(29), I(32));
      if (t.name === "isoDate") return between(I(24), I(27));
      if (t.name === "enc_base64") { const q = arg(); eng.assume(T.le(T.mul(I(4), q), T.mul(I(3), r))); eng.assume(T.le(T.mul(I(3), r), T.add(T.mul(I(4), q), I(8)))); return r; }
      if (t.name === "repeat" && T.isLit(t.args[0])) return T.mul(I(Buffer.byteLength(t.args[0].v)), t.args[1]);
      if (t.name === "enc_hex") return T.mul(I(2), arg());
    }
    eng.assume(T.le(T.intLit(0), r));
    eng.assume(T.eq(T.eq(r, T.intLit(0)), T.eq(t, T.strLit(""))));
    return r;
  };
  const byteLen = (b) => {
    if (b.raw) { const r = T.uf("rawlen", [b.raw], "Int"); eng.assume(T.le(T.intLit(0), r)); return wrap(r); }
    if (b.utf8.op === "uf" && b.utf8.name.startsWith("dec_")) { const r = T.uf("decodedlen", [b.utf8], "Int"); eng.assume(T.le(T.intLit(0), r)); return wrap(r); }
    return wrap(textBytes(b.utf8));
  };
  P.byteLen = byteLen;
  methods(R.BufferProto, {
    toString(a, t) { const enc = a[0] ?? "utf8"; if (t.raw) return wrap(T.uf("rawtext_" + enc, [t.raw], "String")); if (t.orig && t.orig.enc === enc && enc !== "utf8" && !T.isLit(t.orig.s)) { /* re-encoding is canonical */ } return wrap(encode(t.utf8, enc) ?? T.uf("enc_" + enc, [t.utf8], "String")); },
    equals(a, t) { const o = eng.force(a[0]); return eng.wrapB(eng.simpB(T.eq(t.utf8 ?? t.raw, o.utf8 ?? o.raw))); },
  });
  R.BufferProto.props.set("length", new Acc(eng.native("length", (a, t) => byteLen(t)), null));
  R.BufferProto.props.set("byteLength", new Acc(eng.native("length", (a, t) => byteLen(t)), null));
  const te = new HObj("Object", R.ObjectProto); te.hidden = new Set();
  ctor("TextEncoder", te, () => undefined, () => new HObj("Object", te));
  method(te, "encode", (a) => mkBuf({ utf8: termOf(eng.toStr(a[0])) }));
  // URL: opaque parse
  ctor("URL", R.URLProto, () => undefined, (a) => eng.mkURL(a));
  P.mkURL = function (a) {
    const s = eng.toStr(a[0]);
    const o = new HObj("URL", R.URLProto);
    if (a[1] !== undefined) eng.unsupported("URL base");
    if (typeof s === "string") { let u; try { u = new URL(s); } catch (e) { eng.throwError("TypeError", "Invalid URL"); } for (const k of ["href", "protocol", "host", "hostname", "port", "pathname", "search", "hash", "origin", "username", "password"]) o.props.set(k, u[k]); return o; }
    if (!eng.branch(T.uf("urlOk", [s.t], "Bool"))) eng.throwError("TypeError", "Invalid URL");
    for (const k of ["href", "protocol", "host", "hostname", "port", "pathname", "search", "hash", "origin", "username", "password"]) o.props.set(k, wrap(T.uf("url." + k, [s.t], "String")));
    return o;
  };
  method(R.URLProto, "toString", (a, t) => eng.get(t, "href"));
  this.globalScope = new Scope(null);
  return R;
};
// plain host JSON-like data -> values
P.fromHost = function (h) {
  if (h === null || typeof h !== "object") return h;
  if (Array.isArray(h)) return this.arrayOf(h.map((x) => this.fromHost(x)));
  const o = this.newObj();
  for (const [k, v] of Object.entries(h)) o.props.set(k, this.fromHost(v));
  return o;
};

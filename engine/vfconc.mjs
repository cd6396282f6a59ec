// Concrete side of the specification library: bundled together with the real code under test.
import { S, jsonAlts } from "./shapes.mjs";
const RT = globalThis.__vfrt; // {clock, ...} provided by the runner, fresh per run
export const str = S.str, int = S.int, num = S.num, anynum = S.anynum, bool = S.bool, lit = S.lit, oneOf = S.oneOf, opt = S.opt, nullable = S.nullable, or = S.or, arr = S.arr, tuple = S.tuple, obj = S.obj, dict = S.dict, date = S.date, err = S.err, fn = S.fn, json = S.json, opaque = S.opaque, set = S.set, map = S.map;
export const spec = (o) => o;
export const implies = (a, b) => { if (RT.cur) RT.cur.implies = true; if (!a) return true; if (RT.cur) RT.cur.hit = true; return typeof b === "function" ? b() : b; };
class Skip extends Error {}
export const assume = (c) => { if (!c) throw new Skip(); };
export const record = (name, ...args) => { RT.trace.push({ op: "note", name, member: name, args }); };
export const trace = () => RT.trace;
export const now = () => RT.now;
export const advance = (ms) => { RT.now += ms; };
export const setEnv = (k, v) => { if (v === undefined) delete process.env[k]; else process.env[k] = String(v); };
export const runCode = (text, g) => { const e = {}; new Function("require", "exports", "process", "Date", text)(g.require, e, g.process, Date); return e; };
export const byteLength = (s) => Buffer.byteLength(s);
export const clone = (v) => (v === undefined ? v : deepClone(v));
export const opaqueFn = (name) => (...args) => name + "(" + args.map((a) => keyOf(a)).join(",") + ")";
export const settled = async (f) => { try { return { ok: true, value: await (typeof f === "function" ? f() : f) }; } catch (error) { return { ok: false, error }; } };
export const run = (f) => { try { return { ok: true, value: f() }; } catch (error) { return { ok: false, error }; } };
export const unindexed = (x) => x;
export const forallKey = (f) => RT.someKeys.every((k) => f(k));
export const isExternal = (v) => META.has(v);
export const pathOf = (v) => META.get(v)?.path;
export const callOf = (v) => META.get(v)?.callee;
export const extProps = (v) => ({ ...META.get(v)?.props });
function deepClone(v) {
  if (v === null || typeof v !== "object" || META.has(v)) return v;
  if (v instanceof Date) return new Date(v.getTime());
  if (Array.isArray(v)) return v.map(deepClone);
  if (v instanceof Set) return new Set(v);
  if (v instanceof Map) return new Map(v);
  if (v instanceof Error || Buffer.isBuffer(v)) return v;
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, deepClone(x)]));
}
const near = (a, b) => a === b || Math.abs(a - b) <= 1e-9 * Math.max(1, Math.abs(a), Math.abs(b));
export function same(a, b, seen = []) {
  if (a === b) return true;
  if (typeof a === "number" && typeof b === "number") return (Number.isNaN(a) && Number.isNaN(b)) || near(a, b);
  if (typeof a !== typeof b || a === null || b === null) return false;
  if (typeof a !== "object" && typeof a !== "function") return a === b;
  if (seen.some(([x, y]) => x === a && y === b)) return true;
  seen = [...seen, [a, b]];
  const ma = META.get(a), mb = META.get(b);
  if (ma || mb) {
    if (!ma || !mb) return false;
    if (ma.callee && mb.callee && ma.callee.name === mb.callee.name && !ma.constructed) return same(ma.callee.args, mb.callee.args, seen) && (!(ma.callee.self && mb.callee.self) || same(ma.callee.self, mb.callee.self, seen));
    return ma.path === mb.path;
  }
  if (typeof a === "function") return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => same(x, b[i], seen));
  if (a instanceof Date && b instanceof Date) return same(a.getTime(), b.getTime());
  if (a instanceof Error && b instanceof Error) return a.name === b.name && a.message === b.message;
  if (Buffer.isBuffer(a) || Buffer.isBuffer(b)) return Buffer.isBuffer(a) && Buffer.isBuffer(b) && a.equals(b);
  if (a instanceof Set && b instanceof Set) return same([...a], [...b], seen);
  if (a instanceof Map && b instanceof Map) return same([...a], [...b], seen);
  if (a instanceof RegExp && b instanceof RegExp) return String(a) === String(b);
  const ks = new Set([...Object.keys(a), ...Object.keys(b)]);
  for (const k of ks) { const x = a[k], y = b[k]; if (typeof x === "function" && typeof y === "function") { if (x !== y) return false; continue; } if (!same(x, y, seen)) return false; }
  return true;
}
const keyOf = (v) => { try { if (v instanceof Date) return "D" + v.getTime(); if (META.has(v)) return "X" + META.get(v).path; return typeof v === "object" && v !== null ? JSON.stringify(v) : typeof v + ":" + String(v); } catch { return "?"; } };

// ---------- external packages
const META = new Map();
RT.META = META;
let serial = new Map();
const fresh = (n) => { const c = (serial.get(n) ?? 0) + 1; serial.set(n, c); return `${n}!${c}`; };
const IGNORED = new Set(["then", "toJSON"]);
function mkExt(path, o = {}) {
  const meta = { path, children: new Map(), props: {}, ...o };
  const target = o.target ?? function () {};
  const userGet = (k, recv) => { // user subclass members
    let p = o.userProto;
    while (p && !META.has(p) && p !== Object.prototype) { const d = Object.getOwnPropertyDescriptor(p, k); if (d) return { v: d.get ? d.get.call(recv) : d.value }; p = Object.getPrototypeOf(p); }
    return null;
  };
  const px = new Proxy(target, {
    get(_, k) {
      if (Object.hasOwn(meta.props, k)) return meta.props[k];
      if (o.userProto) { const u = userGet(k, px); if (u) return u.v; }
      if (k === Symbol.toPrimitive) return () => `<${path}>`;
      if (typeof k === "symbol" || IGNORED.has(k)) return undefined;
      if (k === "toString") return () => `<${path}>`;
      if (k === "name" && !meta.constructed && !meta.callee) return path.split(/[./]/).pop();
      if (k === "prototype") { meta.proto ??= (() => { const c = mkExt(path + ".prototype", { owner: px, member: "prototype" }); return c; })(); return meta.proto; }
      if (!meta.children.has(k)) meta.children.set(k, mkExt(`${path}${path.endsWith(":") ? "" : "."}${k}`, { owner: px, member: k }));
      return meta.children.get(k);
    },
    set(_, k, v) { if (o.userProto) { let p = o.userProto; while (p && !META.has(p) && p !== Object.prototype) { const d = Object.getOwnPropertyDescriptor(p, k); if (d?.set) { d.set.call(px, v); return true; } p = Object.getPrototypeOf(p); } } meta.props[k] = v; if (!o.userProto) RT.trace.push({ op: "set", name: `${path}.${String(k)}`, member: k, self: px, args: [v], result: undefined }); return true; },
    defineProperty(_, k, d) { meta.props[k] = d.value; return true; },
    has(_, k) { return Object.hasOwn(meta.props, k); },
    ownKeys() { const ks = Reflect.ownKeys(target); return [...new Set([...ks.filter((k) => { const d = Reflect.getOwnPropertyDescriptor(target, k); return d && !d.configurable; })])]; },
    apply(_, self, args) {
      const r = mkExt(fresh(path + "()"), { callee: { name: path, args, self: meta.owner } });
      RT.trace.push({ op: "call", name: path, member: meta.member ?? path, self: meta.owner, args, result: r });
      return r;
    },
    construct(_, args, nt) {
      const user = nt && nt !== px && !META.has(nt);
      const r = mkExt(fresh("new " + path), { constructed: true, cls: px, userProto: user ? nt.prototype : undefined, callee: { name: "new " + path, args } });
      RT.trace.push({ op: "new", name: path, member: meta.member ?? path, self: undefined, args, result: r });
      return r;
    },
    getPrototypeOf() { return o.userProto ?? (meta.cls ? meta.cls.prototype : Function.prototype); },
  });
  META.set(px, meta);
  return px;
}
RT.extModule = (key) => mkExt(key + ":");
RT.opaque = mkExt;

// ---------- building inputs from plans
const hash = (s) => { let h = 2166136261; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } return h >>> 0; };
export function build(s, p, ctx) {
  switch (s.k) {
    case "str": case "bool": return p;
    case "int": case "num": return p;
    case "anynum": return p === "NaN" ? NaN : p === "Infinity" ? Infinity : p === "-Infinity" ? -Infinity : p;
    case "lit": return typeof s.v === "object" && s.v !== null ? structuredClone(s.v) : s.v;
    case "oneOf": { const v = s.vs[p]; return typeof v === "object" && v !== null ? structuredClone(v) : v; }
    case "opt": return p === null ? undefined : build(s.s, p.v, ctx);
    case "or": return build(s.alts[p.alt], p.v, ctx);
    case "json": return build(jsonAlts(s.depth)[p.alt], p.v, ctx);
    case "arr": return p.map((x) => build(s.s, x, ctx));
    case "set": return new Set(p.map((x) => build(s.s, x, ctx)));
    case "tuple": return s.items.map((x, i) => build(x, p[i], ctx));
    case "obj": { const o = {}; for (const [k, f] of Object.entries(s.fields)) { if (f.k === "opt") { if (p[k] !== null && p[k] !== undefined) o[k] = build(f.s, p[k].v, ctx); } else o[k] = build(f, p[k], ctx); } return o; }
    case "dict": { const o = {}; for (const [k, v] of p) o[k] = build(s.s, v, ctx); return o; }
    case "date": return new Date(p === "NaN" ? NaN : p);
    case "err": return new Error(p);
    case "fn": return function (...args) {
      const key = args.slice(0, s.arity ?? 1).map(keyOf).join("|");
      const hit = p.table?.find((e) => e.key === key);
      const sub = hit?.plan ?? p.any ?? (RT.genFn ? RT.genFn(s, hash(p.konst ? p.seed : p.seed + "/" + key)) : p.dflt);
      if (sub.throws !== undefined) throw build(s.throws, sub.throws, ctx);
      const r = build(s.ret, sub.v, ctx);
      return s.async ? Promise.resolve(r) : r;
    };
    case "opaque": return (ctx.opaques[s.name] ??= mkExt(s.name));
  }
  throw new Error("shape " + s.k);
}
// ---------- running one spec on one plan
export async function runSpec(sp, plan, pump) {
  const shape = { k: "obj", fields: { ...sp.inputs, ...(sp.env ? { env: typeof sp.env.k === "string" ? sp.env : { k: "obj", fields: sp.env } } : {}) } };
  if (plan.before) { // an earlier call in the same process
    const first = build(shape, plan.before.inputs, { opaques: {} });
    first.now = RT.now;
    const fold = build(shape, plan.before.inputs, { opaques: {} });
    fold.now = RT.now;
    if (sp.requires && !sp.requires(fold)) return { skip: true };
    try { const v = sp.call(first); if (v && typeof v.then === "function" && !META.has(v) && (await pump(v)) === pump.HANG) return { skip: true }; } catch { /* its outcome is not judged here */ }
    RT.now += plan.before.gap ?? 0;
  }
  const ctx = { opaques: {} };
  const inputs = build(shape, plan.inputs, ctx);
  const old = build(shape, plan.inputs, ctx);
  inputs.now = old.now = RT.now;
  if (sp.requires && !sp.requires(old)) return { skip: true };
  RT.trace.length = 0;
  const r = { ok: true, status: "done", value: undefined, error: undefined };
  try {
    let v = sp.call(inputs);
    if (v && typeof v.then === "function" && !META.has(v)) v = await pump(v);
    if (v === pump.HANG) { r.ok = false; r.status = "hang"; } else r.value = v;
  } catch (e) { if (e instanceof Skip) return { skip: true }; r.ok = false; r.status = "throw"; r.error = e; }
  r.trace = RT.trace.slice();
  r.now = RT.now;
  const failures = [], hits = [];
  for (const [label, f] of Object.entries(sp.ensures)) {
    let ok, why;
    const cur = RT.cur = {};
    try { ok = f(old, r, inputs); if (ok && typeof ok.then === "function") ok = await pump(ok); } catch (e) { ok = false; why = String(e?.stack ?? e); }
    if (!ok) failures.push({ label, why });
    if (!cur.implies || cur.hit) hits.push(label);
  }
  return { failures, hits, outcome: describeOutcome(r), inputs: show(old) };
}
const show = (v) => { try { return JSON.parse(JSON.stringify(v, (k, x) => (typeof x === "function" ? (META.has(x) ? `<${META.get(x).path}>` : "<function>") : typeof x === "number" && !Number.isFinite(x) ? String(x) : typeof x === "bigint" ? String(x) : META.has(x) ? `<${META.get(x).path}>` : x)) ?? "null"); } catch { return "?"; } };
const describeOutcome = (r) => ({ status: r.status, value: show(r.value), error: r.error === undefined ? undefined : String(r.error), trace: show(r.trace.slice(0, 30)) });
RT.exports = { runSpec, build };

// From a satisfying assignment to concrete inputs (a plan for vfconc.build).
import * as T from "./term.mjs";
import { jsonAlts, S } from "./shapes.mjs";
import { Gen } from "./genplan.mjs";

export function concretize(eng, shape, asserts, again = false, maxRounds = 10) {
  const facts = asserts.slice();
  const known = new Map();
  const solver = eng.solver;
  // prefer short collections
  const allSyms = () => { const m = new Map(); for (const a of facts) for (const [k, t] of T.symsOf(a)) m.set(k, t); return m; };
  let wanted = new Set();
  const val = (t, dflt) => {
    if (T.isLit(t)) return t.v;
    if (known.has(t.id)) return known.get(t.id);
    wanted.add(t);
    return undefined;
  };
  const g = new Gen(1, { strings: [], numbers: [] });
  const appArgs = (name) => { // arguments for which a function symbol is applied in the facts
    const out = []; const seen = new Set();
    for (const a of facts) for (const t of eng.subterms(a)) if (t.op === "uf" && t.name === name && !seen.has(t)) { seen.add(t); out.push(t); }
    return out;
  };
  const build = (s, path, idx) => {
    const uf = (sfx, sort) => T.uf(path + sfx, idx, sort);
    const sel = (n) => { const v = val(uf("#", "Int")); return v === undefined ? undefined : v >= 0 && v < n - 1 ? v : n - 1; };
    switch (s.k) {
      case "str": return val(uf("", "String")) ?? (s.re ? g.str(s) : "");
      case "int": return val(uf("", "Int")) ?? s.min ?? 0;
      case "num": return val(uf("", "Real")) ?? s.min ?? 0;
      case "anynum": { const i = sel(4); return i === 1 ? "NaN" : i === 2 ? "Infinity" : i === 3 ? "-Infinity" : val(uf("", "Real")) ?? 0; }
      case "bool": return val(uf("", "Bool")) ?? false;
      case "lit": return null;
      case "oneOf": {
        const ty = typeof s.vs[0];
        if ((ty === "string" || ty === "number") && s.vs.every((v) => typeof v === ty)) { const v = val(uf("", ty === "string" ? "String" : s.vs.every(Number.isInteger) ? "Int" : "Real")); return Math.max(0, s.vs.indexOf(v)); }
        return sel(s.vs.length) ?? 0;
      }
      case "opt": return sel(2) === 1 ? null : { v: build(s.s, path + "?", idx) };
      case "or": { const i = sel(s.alts.length) ?? 0; return { alt: i, v: build(s.alts[i], path + "|" + i, idx) }; }
      case "json": { const al = jsonAlts(s.depth); const i = sel(al.length) ?? 0; return { alt: i, v: build(al[i], path + "|" + i, idx) }; }
      case "arr": case "set": { const p = s.k === "set" ? path + ".items" : path; const n = Math.min(val(T.uf(p + ".length", idx, "Int")) ?? s.min ?? 0, 40); const out = []; for (let i = 0; i < n; i++) out.push(build(s.s, p + "[]", [...idx, T.intLit(i)])); return out; }
      case "tuple": return s.items.map((x, i) => build(x, `${path}[${i}]`, idx));
      case "obj": { const o = {}; for (const [k, f] of Object.entries(s.fields)) { const p = `${path}.${k}`; if (f.k === "opt") o[k] = val(T.uf(p + "?", idx, "Bool")) === true ? { v: build(f.s, p, idx) } : null; else o[k] = build(f, p, idx); } return o; }
      case "dict": {
        const m = new Map();
        for (const t of appArgs(path + ".has")) {
          const k = val(t.args[t.args.length - 1]);
          if (k === undefined || m.has(k)) continue;
          if (!idx.every((x, i) => val(x) === val(t.args[i]))) continue;
          const h = val(T.uf(path + ".has", [...idx, T.strLit(k)], "Bool"));
          if (h === true) m.set(k, build(s.s, path + "{}", [...idx, T.strLit(k)]));
        }
        return [...m];
      }
      case "date": if (s.invalid && (val(T.uf(path + ".valid#", idx, "Int")) ?? 0) !== 0) return "NaN"; return val(uf(".time", "Int")) ?? s.min ?? 0;
      case "err": return val(uf(".message", "String")) ?? "";
      case "fn": {
        const table = [], seen = new Set();
        const ar = s.arity ?? 1;
        for (const a of facts) for (const t of eng.subterms(a)) {
          if (t.op !== "uf" || t.args.length < idx.length + ar || !(t.name.startsWith(path + "()") || t.name === path + ".throws")) continue;
          if (!idx.every((x, i) => val(x) === val(t.args[i]))) continue;
          const av = t.args.slice(idx.length, idx.length + ar);
          const vs = av.map((x) => val(x));
          if (vs.some((v) => v === undefined)) continue;
          const key = vs.map((v) => (typeof v === "string" && v.startsWith("$") ? { $undefined: "undefined:undefined", $null: "object:null" }[v] ?? "number:" + v.slice(1) : typeof v + ":" + String(v))).join("|");
          if (seen.has(key)) continue;
          seen.add(key);
          const full = [...idx, ...av.map((x, i) => T.lit(vs[i], x.sort))];
          const throws = s.throws && val(T.uf(path + ".throws", full, "Bool")) === true;
          table.push({ key, plan: throws ? { throws: build(s.throws, path + ".error", full) } : { v: build(s.ret, path + "()", full) } });
        }
        return { seed: "0", table, dflt: { v: g.plan(s.ret) } };
      }
      case "opaque": return null;
    }
    throw new Error("shape " + s.k);
  };
  // small collections first
  let base = facts;
  const lens = [...allSyms().values()].filter((t) => (t.name ?? "").endsWith(".length") && t.args.length === 0);
  for (const cap of [3, 8]) {
    const tryF = [...facts, ...lens.map((t) => T.le(t, T.intLit(cap)))];
    if (solver.sat(tryF, { timeout: 2000 }) === "sat") { base = tryF; break; }
  }
  facts.length = 0; facts.push(...base);
  let plan = null, before, gap = 0;
  for (let round = 0; round < maxRounds; round++) {
    wanted = new Set();
    plan = build(shape, "in", []);
    if (again) { before = plan; plan = build({ k: "obj", fields: Object.fromEntries(Object.entries(shape.fields).filter(([k]) => k !== "env")) }, "in2", []); if (shape.fields.env) plan.env = before.env; gap = val(T.mkVar("gap", "Int")) ?? 0; }
    // "in" object wrapper: fields are named in.<k>
    if (wanted.size === 0) break;
    const ts = [...wanted];
    for (const t of ts) facts.push(declare(t));
    const m = solver.model(facts, ts, 4000);
    if (!m) return { inputs: plan, approx: true, now: nowOf(known), before: again ? { inputs: before, gap } : undefined };
    const got = new Map(m.terms.map((t, i) => [t.id, m.values[i]]));
    for (const t of ts) {
      const v = got.get(t.id);
      if (v === undefined) { known.set(t.id, t.sort === "String" ? "" : t.sort === "Bool" ? false : 0); continue; }
      known.set(t.id, v);
      facts.push(T.eq(t, T.lit(v, t.sort)));
    }
  }
  let now = 1.7e12;
  { const nv = T.mkVar("now", "Int"); const m = solver.model([...facts, declare(nv)], [nv], 3000); if (m && typeof m.values[0] === "number") now = m.values[0]; }
  return { inputs: plan, now, before: again ? { inputs: before, gap } : undefined };
  function nowOf() { return 1.7e12; }
  function declare(t) { // a harmless assertion mentioning t
    switch (t.sort) {
      case "Bool": return T.app("or", [t, T.not(t)], "Bool");
      case "String": return T.le(T.intLit(0), T.app("str.len", [t], "Int"));
      default: return T.app("<=", [t, t], "Bool");
    }
  }
}

// Child process: executes the bundled real code + specification on concrete inputs.
// usage: node concrun.mjs job.json   (job: {bundle, specs:[name], mode:"random"|"plan", runs, seed, plan, pool, budgetMs, out})
import fs from "node:fs";
import vm from "node:vm";
import { createRequire } from "node:module";
import { Gen } from "./genplan.mjs";
const require = createRequire(import.meta.url);
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
process.on("uncaughtException", (e) => { stray.push(String(e?.stack ?? e)); });
process.on("unhandledRejection", (e) => { stray.push(String(e?.stack ?? e)); });
const stray = [];
const code = fs.readFileSync(job.bundle, "utf8");
const script = new vm.Script(`(${code.startsWith("//vf-async") ? "async " : ""}function(require,module,exports,Date,setTimeout,clearTimeout,setInterval,clearInterval,process,console,performance){${code}\n})`, { filename: job.bundle });
const compiled = script.runInThisContext();
const RealDate = Date, realSetTimeout = setTimeout;
async function load(now, env = job.baseEnv ?? {}) {
  const rt = { trace: [], now, timers: [], seq: 0, someKeys: [] };
  globalThis.__vfrt = rt;
  const fakeNow = () => rt.now;
  const FakeDate = new Proxy(RealDate, {
    construct(t, a, nt) { return Reflect.construct(t, a.length === 0 ? [rt.now] : a, nt); },
    apply() { return new RealDate(rt.now).toString(); },
    get(t, k) { return k === "now" ? fakeNow : Reflect.get(t, k); },
  });
  const fakeSet = (fn, ms, ...args) => { const t = { fn, at: rt.now + (Number(ms) || 0), args, seq: rt.seq++ }; rt.timers.push(t); return { t, unref() { return this; }, ref() { return this; }, [Symbol.toPrimitive]() { return t.seq; } }; };
  const fakeClear = (h) => { if (h?.t) rt.timers = rt.timers.filter((x) => x !== h.t); };
  const proc = Object.create(process, { env: { value: { ...env }, writable: true } });
  const cons = {}; for (const k of ["log", "info", "warn", "error", "debug"]) cons[k] = (...args) => rt.trace.push({ op: "call", name: "console." + k, member: k, args });
  Object.defineProperty(proc, "stdout", { value: { write: (...args) => { rt.trace.push({ op: "call", name: "process.stdout.write", member: "write", args }); return true; } } });
  const module = { exports: {} };
  await compiled(require, module, module.exports, FakeDate, fakeSet, fakeClear, fakeSet, fakeClear, proc, cons, { now: () => rt.now });
  return { rt, specs: module.exports };
}
const HANG = Symbol("hang");
const tick = () => new Promise((r) => setImmediate(r));
function mkPump(rt) {
  const pump = async (p) => {
    let done = false, val, err, failed = false;
    p.then((v) => { done = true; val = v; }, (e) => { done = true; failed = true; err = e; });
    let idle = 0;
    for (let i = 0; i < 20000; i++) {
      await tick();
      if (done) break;
      if (++idle < 4) continue;
      idle = 0;
      if (rt.timers.length) { rt.timers.sort((a, b) => a.at - b.at || a.seq - b.seq); const t = rt.timers.shift(); rt.now = Math.max(rt.now, t.at); t.fn(...t.args); continue; }
      await new Promise((r) => realSetTimeout(r, 5));
      if (done) break;
      if ((rt.idleWaits = (rt.idleWaits ?? 0) + 1) > 40) return HANG;
    }
    if (!done) return HANG;
    if (failed) throw err;
    return val;
  };
  pump.HANG = HANG;
  return pump;
}
const out = { runs: 0, skipped: 0, failures: [], errors: [], samples: [] };
const t0 = Date.now();
let first;
async function envOf(name, plan) {
  first ??= await load(1.7e12);
  const e = first.specs[name]?.env;
  if (!e) return job.baseEnv;
  globalThis.__vfrt = first.rt;
  const shape = typeof e.k === "string" ? e : { k: "obj", fields: e };
  const out = {};
  for (const [k, v] of Object.entries(first.rt.exports.build(shape, plan.inputs.env, { opaques: {} }))) if (v !== undefined) out[k] = String(v);
  return out;
}
async function one(name, plan, tag) {
  let loaded;
  try { loaded = await load(plan.now, await envOf(name, plan)); } catch (e) { out.errors.push(String(e?.stack ?? e)); return "error"; }
  const { rt, specs } = loaded;
  const sp = specs[name];
  rt.someKeys = [...(job.pool?.strings ?? []).slice(0, 20), "zz"];
  rt.genFn = (s, seed) => { const g = new Gen(seed, job.pool); if (s.throws && g.bool(0.3)) return { throws: g.plan(s.throws) }; return { v: g.plan(s.ret) }; };
  let res;
  try { res = await rt.exports.runSpec(sp, plan, mkPump(rt)); } catch (e) { out.errors.push(`${name}: ${String(e?.stack ?? e)}`); return "error"; }
  if (res.skip) { out.skipped++; return "skip"; }
  out.runs++;
  for (const l of res.hits ?? []) { const h = ((out.hits ??= {})[name] ??= {}); h[l] = (h[l] ?? 0) + 1; }
  if (out.samples.length < 3 || (out.runs % 97 === 0 && out.samples.length < 6)) out.samples.push({ spec: name, inputs: JSON.stringify(res.inputs).slice(0, 400), outcome: JSON.stringify(res.outcome).slice(0, 300) });
  if (res.failures.length) { out.failures.push({ spec: name, tag, failures: res.failures, plan, outcome: res.outcome, inputs: res.inputs }); return "fail"; }
  return "ok";
}
if (job.mode === "shapes") {
  const { specs } = await load(1.7e12);
  const r = {};
  for (const n of Object.keys(specs)) if (specs[n]?.ensures) r[n] = { inputs: specs[n].inputs, env: specs[n].env, runs: specs[n].runs };
  out.shapes = r;
} else if (job.mode === "plan") await one(job.specs[0], job.plan, "plan");
else {
  const { specs } = await load(1.7e12);
  const names = (job.specs ?? Object.keys(specs)).filter((n) => specs[n]?.ensures && specs[n].concrete !== false);
  for (const name of names) {
    const sp = specs[name];
    const shape = { k: "obj", fields: { ...sp.inputs, ...(sp.env ? { env: typeof sp.env.k === "string" ? sp.env : { k: "obj", fields: sp.env } } : {}) } };
    let n = 0, bad = 0, skips = 0;
    const runs = Math.min(job.runs, sp.runs ?? Infinity);
    const tEnd = Date.now() + job.budgetMs / names.length;
    for (let i = 0; n < runs && skips < runs * 20; i++) {
      if (Date.now() > tEnd) break;
      const g = new Gen(((job.seed * 7919 + i) * 2654435761) >>> 0, job.pool);
      let plan;
      try { plan = { inputs: g.plan(shape), now: Math.round(1.6e12 + g.r() * 2e11) }; } catch (e) { out.errors.push(String(e)); break; }
      if (job.near && i % 4 !== 3) for (const [k, v] of Object.entries(job.near.inputs ?? {})) if (g.bool(0.75)) {
        plan.inputs[k] = v?.table ? { seed: v.seed, table: [], konst: true, ...(v.table.length && g.bool(0.7) ? { table: g.bool(0.3) ? v.table : [], any: v.table[g.int(v.table.length)].plan } : {}) } : v;
      }
      if (job.near?.before) plan.before = job.near.before;
      else if (sp.history !== true && i % 3 === 2) plan.before = { inputs: { ...g.plan(shape), env: plan.inputs.env }, gap: g.int(2) * 60000 };
      const r = await one(name, plan, `seed ${job.seed} run ${i}`);
      if (r === "skip") { skips++; continue; }
      n++;
      if (r === "error") break;
      if (r === "fail" && ++bad >= (job.maxFail ?? 1)) break;
    }
    (out.perSpec ??= {})[name] = { runs: n, skips };
  }
}
out.stray = stray.slice(0, 5);
out.ms = Date.now() - t0;
fs.writeFileSync(job.out, JSON.stringify(out));
process.exit(0);

// One property check: prove every clause of /verif/specs/<ID>*.ts against /repo's current source, cross-check by running the real code, write evidence.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawn } from "node:child_process";
import { VERIF, REPO, bundle, harvest, runConcrete, specNames, mocksOf } from "./verify.mjs";

const id = process.argv[2];
const tier = (() => { const i = process.argv.indexOf("--tier"); const t = i > 0 ? process.argv[i + 1] : process.env.VERIF_TIER; return t === "thorough" ? "thorough" : "quick"; })();
const seed = Number(process.env.VERIF_SEED ?? 1) | 0;
const thorough = tier === "thorough";
const t0 = Date.now();
const files = fs.readdirSync(path.join(VERIF, "specs")).filter((f) => new RegExp(`^${id}[a-z]?\\.ts$`).test(f)).map((f) => path.join(VERIF, "specs", f)).sort();
if (!id || files.length === 0) { console.error("usage: check <property id>; no specification for " + id); process.exit(2); }
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "vfcheck-"));
const replayDir = path.join(VERIF, "evidence", "replays");
fs.mkdirSync(replayDir, { recursive: true });
const known = JSON.parse(fs.readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).findings.filter((f) => f.property === id && f.status === "open");
const CORES = Math.max(2, Math.min(8, os.cpus().length));
const DEADLINE = t0 + (thorough ? 3000000 : 780000);

function prove(file, names) {
  return new Promise((resolve) => {
    const out = path.join(tmp, `p-${path.basename(file)}-${names[0]}.json`);
    const opts = { only: names, timeout: thorough ? 6000 : 2500, hardTimeout: thorough ? 40000 : 10000, specBudgetMs: thorough ? 1200000 : 400000, budgetMs: DEADLINE - Date.now(), noModel: false };
    const c = spawn(process.execPath, ["--stack-size=6000", "--max-old-space-size=6000", path.join(import.meta.dirname, "provejob.mjs"), JSON.stringify({ file, opts, out })], { stdio: ["ignore", "ignore", "pipe"], cwd: tmp });
    let err = ""; c.stderr.on("data", (d) => { err = (err + d).slice(-3000); });
    const timer = setTimeout(() => c.kill("SIGKILL"), Math.max(1000, DEADLINE - Date.now() + 5000));
    c.on("exit", (code, sig) => {
      clearTimeout(timer);
      let rep = null;
      try { rep = JSON.parse(fs.readFileSync(out, "utf8")); } catch { /* no report */ }
      if (!rep || rep.crashed) {
        const why = rep?.crashed ?? `verifier process ended (${code ?? sig}) ${err}`;
        rep = { file, functions: [], files: [], models: [], solver: { queries: 0, ms: 0 }, specs: names.map((n) => ({ name: n, paths: 0, obligations: 1, discharged: 0, by: {}, clauses: {}, failed: [{ label: "(verifier)", unsupported: why.slice(0, 1500) }] })) };
      }
      resolve(rep);
    });
  });
}
async function pool(tasks, n) { const res = []; let i = 0; await Promise.all(Array.from({ length: n }, async () => { while (i < tasks.length) { const k = i++; res[k] = await tasks[k](); } })); return res; }

const units = [];
for (const f of files) for (const n of specNames(f)) units.push({ file: f, name: n });
const weight = () => 1;
// bundle the real code for concrete execution while proofs run
const bundles = new Map();
const bundleErr = new Map();
const bundling = Promise.all(files.map(async (f) => {
  const out = path.join(tmp, path.basename(f) + ".cjs");
  try { const b = await bundle(f, out); bundles.set(f, { out, pool: harvest(Object.keys(b.metafile.inputs).map((x) => path.resolve(x))) }); } catch (e) { bundleErr.set(f, String(e?.message ?? e).slice(0, 1500)); }
}));
const chunks = []; // several cheap specs share one process
{ const per = Math.max(1, Math.ceil(units.length / (CORES * 2))); for (const f of files) { const ns = units.filter((u) => u.file === f).map((u) => u.name); for (let i = 0; i < ns.length; i += per) chunks.push({ file: f, names: ns.slice(i, i + per) }); } }
const runAsync = (job, ms) => runConcrete(job, ms);
const reports = await pool(chunks.map((c) => () => prove(c.file, c.names)), CORES);
await bundling;

const violations = [], findings = [];
const conc = { evaluations: 0, skipped: 0, samples: [], hits: {} };
const specs = reports.flatMap((r) => r.specs.map((s) => ({ ...s, file: r.file })));
const lastConcrete = new Map();
// concrete cross-check of every specification on the real code
const jobs = files.filter((f) => bundles.has(f)).map((f) => async () => {
  const b = bundles.get(f);
  const names = specNames(f).filter((n) => !known.some((k) => k.spec === n));
  const r = await runConcrete({ bundle: b.out, mode: "random", specs: names, runs: thorough ? 4000 : 250, seed, budgetMs: thorough ? 600000 : 40000, pool: b.pool }, thorough ? 700000 : 60000);
  lastConcrete.set(f, r);
  if (r.crashed) return;
  conc.evaluations += r.runs; conc.skipped += r.skipped; conc.samples.push(...r.samples.slice(0, 2));
  Object.assign(conc.hits, r.hits);
  for (const x of r.failures) violations.push({ spec: x.spec, file: f, label: x.failures[0].label, failures: x.failures, plan: x.plan, inputs: x.inputs, outcome: x.outcome, how: "found by executing the real code: " + x.tag, concrete: true });
});
await pool(jobs, 4);
for (const s of specs) {
  const kf = known.filter((k) => k.spec === s.name);
  if (kf.length) { // a recorded defect: the specification is expected to fail on exactly this input
    const b = bundles.get(s.file);
    for (const k of kf) {
      const r = b ? await runConcrete({ bundle: b.out, mode: "plan", specs: [s.name], plan: k.plan, pool: b.pool }, 30000) : null;
      if (r && !r.crashed && r.failures?.length) findings.push(k);
    }
    continue;
  }
  for (const f of s.failed) {
    const v = { spec: s.name, target: s.target, file: s.file, label: f.label, obligation: f, concrete: false };
    const b = bundles.get(s.file);
    if (violations.some((x) => x.spec === s.name && x.concrete && (x.label === f.label || f.label.startsWith("(")))) { violations.find((x) => x.spec === s.name && x.concrete).obligation ??= f; continue; }
    if (b) {
      const tries = f.plan ? [f.plan] : [];
      for (const plan of tries) {
        const r = await runConcrete({ bundle: b.out, mode: "plan", specs: [s.name], plan, pool: b.pool }, 30000);
        if (!r.crashed && r.failures?.length) { Object.assign(v, { concrete: true, plan, inputs: r.failures[0].inputs, outcome: r.failures[0].outcome, failures: r.failures[0].failures, how: "the verifier's counterexample, replayed on the real code" }); break; }
      }
      if (!v.concrete && Date.now() < DEADLINE - 60000) {
        const r = await runConcrete({ bundle: b.out, mode: "random", specs: [s.name], runs: thorough ? 20000 : 4000, seed: seed + 1000, budgetMs: 25000, pool: b.pool, near: f.plan }, 40000);
        if (!r.crashed && r.failures?.length) { const x = r.failures[0]; Object.assign(v, { concrete: true, plan: x.plan, inputs: x.inputs, outcome: x.outcome, failures: x.failures, how: "search on the real code after the obligation failed: " + x.tag }); }
        v.searched = r.runs;
      }
    }
    violations.push(v);
  }
}
for (const [f, e] of bundleErr) if (!violations.some((v) => v.file === f)) violations.push({ spec: path.basename(f), file: f, label: "(bundle)", obligation: { label: "(bundle)", unsupported: e }, concrete: false });
for (const [f, r] of lastConcrete) if (r.crashed || (r.errors.length && r.runs === 0)) if (!violations.some((v) => v.file === f)) violations.push({ spec: path.basename(f), file: f, label: "(execution)", obligation: { label: "(execution)", unsupported: r.stderr ?? r.errors[0] }, concrete: false });

const sum = (k) => specs.filter((s) => !s.bounded).reduce((n, s) => n + (s[k] ?? 0), 0);
const by = {}; for (const s of specs) for (const [k, n] of Object.entries(s.by)) by[k] = (by[k] ?? 0) + n;
const set = (k) => [...new Set(reports.flatMap((r) => r[k]))].sort();
const solver = reports.reduce((a, r) => ({ queries: a.queries + (r.solver?.queries ?? 0), ms: a.ms + (r.solver?.ms ?? 0), unknown: a.unknown + (r.solver?.unknown ?? 0), byBackend: (() => { const o = { ...a.byBackend }; for (const [k, n] of Object.entries(r.solver?.byBackend ?? {})) o[k] = (o[k] ?? 0) + n; return o; })() }), { queries: 0, ms: 0, unknown: 0, byBackend: {} });
const trusted = trustedBase(set("models"), files);
const evidence = {
  property: id, tier, seed, level: "proof",
  coverage: {
    obligations: sum("obligations"), discharged: sum("discharged"),
    checker_cmd: `bin/check ${id} --tier ${tier}`,
    trusted_base: trusted,
    specifications: specs.map((s) => ({ name: s.name, target: s.target, execution_paths: s.paths, obligations: s.obligations, discharged: s.discharged, clauses: s.clauses, discharged_by: s.by, ms: s.ms, module_state_written: s.writes ?? [], ...(s.againPaths ? { second_call_paths: s.againPaths } : {}) })),
    bounded_stand_ins: specs.filter((s) => s.bounded).map((s) => ({ name: s.name, target: s.target, bound: s.bounded, obligations: s.obligations, discharged: s.discharged, counted_as_proof: false })),
    functions_under_contract: set("functions").filter((f) => !f.startsWith("spec:")),
    contracts_on: [...new Set(specs.flatMap((s) => s.target ?? []))],
    source_files: set("files").filter((f) => !f.startsWith("spec:") && !f.startsWith("..")),
    discharged_by_backend: by, solver_queries: solver.queries, solver_ms: Math.round(solver.ms), solver_unknown: solver.unknown, queries_by_solver: solver.byBackend,
    concrete_cross_check: { executions_of_real_code: conc.evaluations, discarded_by_precondition: conc.skipped, clause_exercised: conc.hits, samples: conc.samples.slice(0, 4), counted_as_proof: false },
    known_findings: findings.map((f) => f.what),
  },
  assumptions: trusted,
  wall_s: 0, violations: violations.length,
};
evidence.wall_s = (Date.now() - t0) / 1000;
fs.writeFileSync(path.join(VERIF, "evidence", id + ".json"), JSON.stringify(evidence, null, 1));
for (const f of findings) console.log(`KNOWN-FINDING: property=${id} ${f.what}`);
let n = 0;
for (const v of violations) {
  if (n >= 8) { console.log(`(${violations.length - n} more failed obligations not listed)`); break; }
  const file = path.join(replayDir, `${id}-${++n}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: id, specification: path.relative(VERIF, v.file), spec: v.spec, target: v.target, failed_obligation: `${v.spec}.${v.label}`, reproduced_on_real_code: v.concrete, how: v.how, inputs: v.inputs, outcome: v.outcome, failed_clauses: v.failures, plan: v.plan, verifier: v.obligation, searched: v.searched, rerun: `bin/replay ${path.relative(VERIF, file)}` }, null, 1));
  console.log(`${v.spec}.${v.label}: ${v.concrete ? "fails for " + JSON.stringify(v.inputs).slice(0, 300) : (v.obligation.unsupported ?? "obligation not discharged (" + v.obligation.solver + ")").slice(0, 300)}`);
  console.log(`VIOLATION property=${id} replay=${file}${v.concrete ? "" : " no-failing-input-found"}`);
}
console.log(`${id}: ${sum("discharged")}/${sum("obligations")} obligations discharged, ${specs.length} specifications, ${evidence.coverage.functions_under_contract.length} functions, ${conc.evaluations} executions, ${evidence.wall_s.toFixed(1)} s`);
fs.rmSync(tmp, { recursive: true, force: true });
process.exit(violations.length ? 1 : 0);

function trustedBase(models, files) {
  const out = ["The verification-condition generator in /verif/engine (symbolic interpretation of TypeScript parsed by the TypeScript compiler's parser; types are erased)", "SMT solvers z3 and cvc5", "Numbers are mathematical integers/reals: no overflow, rounding or negative zero", "Promises run to completion in program order; timers fire in order on a virtual clock", "Strings are sequences of code points; surrogate pairs count as one"];
  for (const m of models) out.push("model of " + m);
  for (const f of files) for (const [k, m] of Object.entries(mocksOf(f))) out.push(`stand-in for ${k}: ${path.relative(VERIF, m)}`);
  return [...new Set(out)];
}

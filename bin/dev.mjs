import { proveFile, bundle, runConcrete, harvest } from "../engine/verify.mjs";
import path from "node:path"; import fs from "node:fs";
const [file, ...rest] = process.argv.slice(2);
const only = rest.filter((x) => !x.startsWith("--")); const flag = (f) => rest.includes(f);
const f = path.resolve(file);
if (!flag("--noprove")) {
const t0 = Date.now();
const rep = proveFile(f, { only: only.length ? only : undefined, verbose: true, noModel: flag("--nomodel") });
for (const s of rep.specs) for (const x of s.failed) console.log("FAIL", s.name, x.label, x.unsupported ?? "", JSON.stringify({ solver: x.solver, why: x.why, thrown: x.thrown, outcome: x.outcome, plan: x.plan, planErr: x.planErr }, null, 1).slice(0, 3000), flag("-v") ? "\nGOAL " + x.goal + "\nPC\n" + x.pc : "");
console.log("prove", Date.now() - t0, "ms", JSON.stringify(rep.solver), [...rep.functions].length, "fns models:", [...rep.models].join(","));
}
if (!flag("--noconc")) {
const out = `/tmp/w/b-${process.pid}.cjs`;
const b = await bundle(f, out);
const files = Object.keys(b.metafile?.inputs ?? {}).map((x) => path.resolve(x));
const r = runConcrete({ bundle: out, mode: "random", runs: 200, seed: 1, budgetMs: 20000, pool: harvest(files), specs: only.length ? only : undefined }, 60000);
console.log((r.failures?.length || r.errors?.length || r.crashed || flag("-v")) ? JSON.stringify(r, null, 1).slice(0, 6000) : "conc ok " + r.runs + " " + JSON.stringify(Object.fromEntries(Object.entries(r.perSpec ?? {}).map(([k, v]) => [k, [v.runs, v.skips, JSON.stringify(r.hits?.[k])]]))));
fs.rmSync(out);
}

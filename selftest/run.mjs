// Self-test of the verifier: rewrites that keep the behaviour must verify, broken ones must not.
// usage: node --stack-size=6000 selftest/run.mjs
import path from "node:path";
import { proveFile, bundle, runConcrete, harvest } from "../engine/verify.mjs";
const UNDECIDED = new Set(["a8", "a10"]); // known limits
let bad = 0;
const here = import.meta.dirname;
for (const s of proveFile(path.join(here, "right.ts"), { noModel: true }).specs) if ((s.failed.length > 0) !== UNDECIDED.has(s.name)) { bad++; console.log(s.failed.length ? "not verified:" : "now verified:", s.name, s.failed[0]?.label, s.failed[0]?.unsupported ?? ""); }
for (const s of proveFile(path.join(here, "wrong.ts"), {}).specs) {
  if (s.failed.length === 0) { bad++; console.log("broken, but verified:", s.name); continue; }
  console.log(s.name, "refused:", s.failed[0].unsupported ?? s.failed[0].solver, s.failed[0].plan ? JSON.stringify(s.failed[0].plan.inputs).slice(0, 120) : "");
}
console.log(bad ? `${bad} surprises` : "as expected");
process.exit(bad ? 1 : 0);

import fs from "node:fs"; import os from "node:os"; import path from "node:path";
import { VERIF, bundle, runConcrete } from "./verify.mjs";
const r = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
if (!r.plan) { console.log("no concrete input recorded; failed obligation:", r.failed_obligation, "\n", JSON.stringify(r.verifier, null, 1)); process.exit(1); }
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "vfreplay-"));
try {
  const out = path.join(dir, "b.cjs");
  await bundle(path.join(VERIF, r.specification), out);
  const x = runConcrete({ bundle: out, mode: "plan", specs: [r.spec], plan: r.plan, pool: { strings: [], numbers: [] } }, 60000);
  console.log(JSON.stringify(x, null, 1));
  process.exitCode = x.failures?.length ? 1 : 0;
} finally { fs.rmSync(dir, { recursive: true, force: true }); }

// Writes MANIFEST.json and properties.jsonl from tools/properties.mjs.
import fs from "node:fs"; import path from "node:path";
import { properties } from "./properties.mjs";
const root = path.resolve(import.meta.dirname, "..");
fs.writeFileSync(path.join(root, "properties.jsonl"), properties.map(({ note, na, ...p }) => JSON.stringify(p)).join("\n") + "\n");
const has = (id) => fs.readdirSync(path.join(root, "specs")).some((f) => new RegExp(`^${id}[a-z]?\\.ts$`).test(f));
const claimed = properties.filter((p) => !p.na && has(p.id));
const manifest = {
  version: 1,
  setup_cmd: "bin/setup",
  checks: claimed.map((p) => ({
    property: p.id,
    quick_cmd: `bin/check ${p.id}`,
    thorough_cmd: `bin/check ${p.id} --tier thorough`,
    technique: "contract-based deductive verification: pre/postconditions over the real TypeScript functions, verification conditions generated from /repo's current source on every run and discharged by z3/cvc5 for all inputs and iterations",
    level: "proof",
    level_note: p.note ?? "Every clause is proved for all inputs admitted by its precondition, under the trusted base listed in the evidence file; failed obligations are replayed on the real code.",
  })),
  not_applicable: properties.filter((p) => p.na).map((p) => ({ property: p.id, reason: p.na })),
};
fs.writeFileSync(path.join(root, "MANIFEST.json"), JSON.stringify(manifest, null, 1) + "\n");
console.log(claimed.length, "claimed;", properties.filter((p) => !p.na && !has(p.id)).map((p) => p.id).join(" "), "without specification");

// Writes DESIGN.md from tools/design-*.md, the specifications, seeded/ and known-findings.json.
import fs from "node:fs"; import path from "node:path";
import { properties } from "./properties.mjs";
const root = path.resolve(import.meta.dirname, ".."), read = (f) => fs.readFileSync(path.join(root, f), "utf8");
let out = read("tools/design-head.md") + "\n";
const paras = new Map(read("tools/design-props.md").trim().split(/\n\n+/).map((p) => [p.match(/^\*\*(P\d+)\*\*/)[1], p.replace(/^\*\*P\d+\*\* /, "")]));
for (const p of properties) out += `* **${p.id} ${p.title}.** ${paras.get(p.id) ?? ""}\n`;
out += "\n## 4. Specifications\n\nClauses per specification; those marked *bounded* are stand-ins with the stated bound.\n\n| | specification | contract on | bound |\n|-|-|-|-|\n";
for (const f of fs.readdirSync(path.join(root, "specs")).filter((x) => /^P\d+[a-z]?\.ts$/.test(x)).sort()) {
  const src = read("specs/" + f);
  for (const part of src.split(/^export const /m).slice(1)) {
    const name = part.match(/^(\w+)/)[1];
    if (!/^\w+ = (spec|\w+\()/.test(part)) continue;
    const t = part.match(/target: (\[[^\]]*\]|"[^"]*")/)?.[1].replace(/[[\]"]/g, "") ?? "", b = part.match(/bounded: "([^"]*)"/)?.[1] ?? "";
    if (t) out += `| ${f.replace(".ts", "")} | ${name} | ${t} | ${b} |\n`;
  }
}
out += "\n## 5. Planted bugs and repaired defects\n\nEach planted change compiles, passes the tests and has a demonstration; all are caught by the check of their property\n(`tools/plant.py tools/bugs/*.py` redoes this in a scratch copy).\n\n| change | caught by | what it breaks | needs |\n|-|-|-|-|\n";
const cell = (s) => String(s ?? "").replace(/\|/g, "/").replace(/\n/g, " ");
for (const d of fs.readdirSync(path.join(root, "seeded")).sort()) { const m = JSON.parse(read(`seeded/${d}/meta.json`)); out += `| ${d} | ${m.property} | ${cell(m.what_it_breaks)} | ${cell(m.needs)} |\n`; }
out += "\n| repaired | property | what failed |\n|-|-|-|\n";
for (const f of JSON.parse(read("known-findings.json")).findings) out += `| ${f.commit ?? f.status} | ${f.property} | ${cell(f.what.replace(/fixed: property=\S+ \S+ /, ""))} |\n`;
out += "\n" + read("tools/design-tail.md");
fs.writeFileSync(path.join(root, "DESIGN.md"), out);

// Child process: proves the named specifications of one file and writes the report as JSON.
import fs from "node:fs";
import { proveFile } from "./verify.mjs";
const job = JSON.parse(process.argv[2]);
let rep;
try {
  rep = proveFile(job.file, job.opts);
} catch (e) { rep = { file: job.file, crashed: String(e?.stack ?? e), specs: [], functions: [], files: [], models: [] }; }
fs.writeFileSync(job.out, JSON.stringify({ ...rep, functions: [...rep.functions], files: [...rep.files], models: [...rep.models] }));
process.exit(0);

// Verification of one specification file: symbolic proof of every clause, concrete cross-check, counterexample search.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawnSync } from "node:child_process";
import { createRequire } from "node:module";
import * as T from "./term.mjs";
import { Solver, slice } from "./solver.mjs";
import { HObj, Sym, Union, Seg, Unsupported, Infeasible, JSThrow, PathStop, wrap } from "./values.mjs";
import { ts, parseFile, deployment, RestartExploration } from "./interp.mjs";
import { Interp, S } from "./vfsym.mjs";
import { termOf } from "./engine.mjs";
import { concretize } from "./concretize.mjs";
const require = createRequire("/opt/veriftools/node/node_modules/");
export const VERIF = path.resolve(import.meta.dirname, "..");
export const REPO = process.env.VF_REPO ?? "/repo";
const DEFAULT_MOCKS = { "lib/digitraffic-common/src/aws/runtime/dt-logger-default.ts": path.join(VERIF, "specs/mocks/logger.ts") };
for (const n of ["aws-cdk-lib", "aws-cdk-lib/core", "constructs", "constructs/lib/construct.js", ...["apigateway", "certificatemanager", "cloudfront", "cloudwatch", "cloudwatch-actions", "ec2", "events", "events-targets", "iam", "kms", "lambda", "lambda-event-sources", "logs", "rds", "route53", "s3", "secretsmanager", "sns", "sns-subscriptions", "sqs", "ssm", "synthetics", "wafv2"].map((x) => `aws-cdk-lib/aws-${x}`)]) DEFAULT_MOCKS[n] = path.join(VERIF, "specs/mocks/cdk.ts");

export function mocksOf(file) {
  const out = { ...DEFAULT_MOCKS };
  for (const st of parseFile(file).statements) {
    if (!ts.isVariableStatement(st)) continue;
    for (const d of st.declarationList.declarations) {
      if (d.name.getText() !== "mocks" || !d.initializer) continue;
      let e = d.initializer; while (e.expression && !ts.isObjectLiteralExpression(e)) e = e.expression;
      for (const p of e.properties) { const k = p.name.text; if (p.initializer.kind === ts.SyntaxKind.NullKeyword) delete out[k]; else out[k] = path.resolve(path.dirname(file), p.initializer.text); }
    }
  }
  return out;
}
// a literal exported by the specification module: tz (time zone of the concrete runs), baseEnv (environment at load time)
export function literalExport(file, name) {
  for (const st of parseFile(file).statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (d.name.getText() === name && d.initializer) return new Function("return (" + d.initializer.getText() + ")")();
  return undefined;
}
export const specNames = (file) => parseFile(file).statements.filter((s) => ts.isVariableStatement(s) && s.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword)).flatMap((s) => s.declarationList.declarations).filter((d) => d.initializer && ts.isCallExpression(d.initializer) && d.initializer.expression.getText() === "spec").map((d) => d.name.getText());

function exploreRestartable(eng, fn) {
  for (let i = 0; i < 60; i++) {
    try { return eng.explore(fn); } catch (e) { if (!(e instanceof RestartExploration)) throw e; if (process.env.VDEBUG) console.error("restart", i, e.why ?? [...eng.hotModules.keys()].join(" ").slice(-300)); }
  }
  throw new Unsupported("module evaluation does not stabilise");
}

export function proveFile(file, opts = {}) {
  const solver = new Solver({ timeout: opts.timeout ?? 2500 });
  deployment.placeholders = literalExport(file, "placeholders") ?? {};
  const report = { file, specs: [], functions: new Set(), files: new Set(), models: new Set() };
  const deadline = Date.now() + (opts.budgetMs ?? 600000);
  const names = specNames(file).filter((n) => !opts.only || opts.only.includes(n));
  if (names.length === 0) throw new Error("no specifications in " + file);
  for (const name of names) {
    const t0 = Date.now();
    const eng = new Interp(solver, { repo: REPO, maxPaths: opts.maxPaths ?? 6000, hardTimeout: opts.hardTimeout });
    eng.deadline = Math.min(deadline, Date.now() + (opts.specBudgetMs ?? 240000));
    for (const [k, f] of Object.entries(mocksOf(file))) eng.redirects.set(k.replace(/^node:/, ""), f);
    eng.createRealm();
    const res = { name, target: undefined, paths: 0, obligations: 0, discharged: 0, failed: [], by: {}, clauses: {}, feasible: 0 };
    const modInit = () => {
      eng.modules = new Map();
      eng.moduleRanges = [];
      eng.clock = new HObj("Object", null); eng.clock.timers = []; eng.clock.frozen = true;
      const now = T.mkVar("now", "Int");
      eng.assume(T.le(T.intLit(1600000000000), now)); eng.assume(T.le(now, T.intLit(1900000000000)));
      eng.clock.now = new Sym(now);
      eng.trace = eng.arrayOf([]);
      eng.jsonTexts = new Map();
      eng.jsonPatterns = [];
      eng.setupHostGlobals();
    };
    const failed = new Map();
    const baseEnv = literalExport(file, "baseEnv");
    let envDesc = null; // shape of the environment variables, known after the first pass
    const body = () => {
      modInit();
      const m = eng.getModule({ kind: "file", file });
      if (envDesc) eng.bindEnv(eng.inst(envDesc, "in.env"));
      else if (baseEnv) eng.bindEnv(eng.fromHost(baseEnv));
      for (const [k, hot] of eng.hotModules) { // modules are evaluated before anything else, in first-use order
        const mm = eng.modules.get(k) ?? (hot ? eng.getModule({ kind: "file", file: hot }) : null);
        if (mm && mm.exports) eng.evalModule(mm);
      }
      eng.evalModule(m);
      const sp = eng.readBinding(m.scope.vars.get(name), name);
      const field = (k) => (sp.props.has(k) ? sp.props.get(k) : undefined);
      const tgt = field("target"); if (tgt !== undefined) res.target = tgt instanceof HObj ? tgt.segs : [tgt];
      res.bounded = field("bounded");
      const contracts = field("contracts");
      eng.overrideFns.clear();
      if (contracts) for (const [k, v] of contracts.props) eng.overrideFns.set(k, { value: v, inner: field("recursive") === true });
      // inputs
      const inShape = { k: "obj", fields: { ...eng.unshape(field("inputs") ?? eng.newObj()) } };
      const envShape = field("env");
      if (envShape) { const e = eng.unshape(envShape); inShape.fields.env = typeof e.k === "string" ? e : { k: "obj", fields: e }; }
      const inputs = eng.newObj(), old = eng.newObj();
      for (const [k, s] of Object.entries(inShape.fields)) { inputs.props.set(k, eng.inst(s, "in." + k)); old.props.set(k, eng.inst(s, "old~in." + k)); }
      if (envShape && !envDesc) { envDesc = inShape.fields.env; throw new RestartExploration(); }
      inputs.props.set("now", eng.clock.now); old.props.set("now", eng.clock.now);
      eng.inShape = inShape;
      const req = field("requires");
      if (req && !eng.truthy(eng.call(req, undefined, [old]))) throw new Infeasible();
      const round = (inputs, old, again) => {
        eng.setField(eng.trace, "segs", []);
        const r = eng.newObj({ ok: true, status: "done", value: undefined, error: undefined });
        const atCall = eng.mark();
        try { r.props.set("value", eng.awaitV(eng.call(field("call"), undefined, [inputs]))); } catch (e) {
          if (e instanceof JSThrow) { r.props.set("ok", false); r.props.set("status", "throw"); r.props.set("error", e.value); } else if (e instanceof PathStop) { r.props.set("ok", false); r.props.set("status", e.kind); } else throw e;
        }
        r.props.set("trace", eng.arrayOf(eng.trace.segs.slice()));
        r.props.set("now", eng.clock.now);
        if (!again) res.paths++; else res.againPaths = (res.againPaths ?? 0) + 1;
        const writes = eng.moduleWrites(atCall);
        for (const w of writes) (res.writes ??= new Set()).add(w.what);
        if (res.feasible === 0 && solver.sat(eng.pcTerms(), { hard: true }) === "sat") res.feasible++;
        for (const [label0, f] of field("ensures").props) {
          const label = (again ? "again: " : "") + label0;
          const c = (res.clauses[label] ??= { obligations: 0, discharged: 0 });
          if (failed.has(label) || failed.has(label0)) continue;
          let fails = null;
          const one = () => {
            let g, thrown;
            try { g = eng.condTerm(eng.awaitV(eng.call(f, undefined, [old, r, inputs]))); } catch (e) { if (!(e instanceof JSThrow)) throw e; g = false; thrown = e.value; }
            const t = typeof g === "boolean" ? T.boolLit(g) : g;
            c.obligations++; res.obligations++;
            const pr = eng.proveGoal(t);
            if (pr.ok) { c.discharged++; res.discharged++; res.by[pr.by] = (res.by[pr.by] ?? 0) + 1; return; }
            if (fails) return;
            let plan = null, planErr;
            try { plan = opts.noModel ? null : concretize(eng, inShape, pr.asserts, again); } catch (e) { planErr = String(e?.stack ?? e); }
            fails = { label, solver: pr.r, why: pr.why, goal: T.smt(t).slice(0, 1500), pc: eng.pcTerms().map((x) => T.smt(x)).join("\n").slice(0, 6000), plan, planErr, thrown: thrown === undefined ? undefined : safeDescribe(eng, thrown), outcome: safeDescribe(eng, r.props.get("ok") ? r.props.get("value") : r.props.get("error")) };
          };
          try { eng.nested(one); } catch (e) { if (!(e instanceof Unsupported)) throw e; c.obligations++; res.obligations++; fails = { label, unsupported: e.message }; }
          if (fails) failed.set(label, fails);
        }
        return writes;
      };
      // The contract must hold whatever was called before.  When the call leaves the state of the code's own
      // modules as it found it, one round from the initial state settles that; otherwise a second call follows.
      // (Calls that leave the state alike share one representative: a bounded part, reported as such.)
      const left = round(inputs, old, false);
      if (left.length > 0 && field("history") !== true) {
        const alike = left.map((w) => `${w.what}=${safeDescribe(eng, w.is)}`).sort().join("\n");
        const route = eng.frames.at(-1).taken.join();
        const reps = (res.reps ??= new Map());
        if (!reps.has(alike)) { if (reps.size >= 4) return; reps.set(alike, { route, paths: 0 }); }
        const rep = reps.get(alike);
        if (rep.route !== route || rep.paths++ > 1200) return;
        eng.maxPaths++;
        const gap = T.mkVar("gap", "Int");
        eng.assume(T.le(T.intLit(0), gap)); eng.assume(T.le(gap, T.intLit(1e9)));
        eng.setField(eng.clock, "now", eng.plus(eng.clock.now, new Sym(gap)));
        const inputs2 = eng.newObj(), old2 = eng.newObj();
        for (const [k, s] of Object.entries(inShape.fields)) { const p = k === "env" ? "in." : "in2."; inputs2.props.set(k, eng.inst(s, p + k)); old2.props.set(k, eng.inst(s, "old~" + p + k)); }
        inputs2.props.set("now", eng.clock.now); old2.props.set("now", eng.clock.now);
        if (req && !eng.truthy(eng.call(req, undefined, [old2]))) throw new Infeasible();
        round(inputs2, old2, true);
      }
    };
    try { exploreRestartable(eng, () => { body(); }); } catch (e) {
      if (e instanceof RestartExploration) throw e;
      res.obligations++;
      failed.set("(paths)", { label: "(paths)", unsupported: e instanceof Unsupported ? e.message : String(e?.stack ?? e), internal: !(e instanceof Unsupported) });
    }
    if (failed.size === 0 && (res.feasible === 0 || res.obligations === 0)) { res.obligations++; failed.set("(vacuity)", { label: "(vacuity)", unsupported: `no feasible execution reached the postconditions (paths ${res.paths})` }); }
    res.failed = [...failed.values()];
    res.writes = res.writes && [...res.writes].sort(); delete res.reps;
    res.ms = Date.now() - t0;
    report.specs.push(res);
    for (const x of eng.usedFunctions) report.functions.add(x);
    for (const x of eng.usedFiles) report.files.add(x);
    for (const x of eng.usedModels) report.models.add(x);
    if (opts.verbose && res.writes) console.error(`${name}: again ${res.againPaths} writes ${res.writes.join("; ").slice(0, 400)}`);
    if (opts.verbose) console.error(`${name}: paths ${res.paths} obligations ${res.discharged}/${res.obligations} ${res.ms}ms ${JSON.stringify(res.by)}`);
  }
  report.solver = solver.stats;
  solver.close();
  return report;
}
function safeDescribe(eng, v, d = 0) {
  try {
    if (v instanceof Sym) return T.smt(v.t).slice(0, 300);
    if (v instanceof Union) return "<union>";
    if (v instanceof HObj) {
      if (v.kind === "Error") { const m = v.props.get("message"); return `Error(${m instanceof Sym ? T.smt(m.t) : m})`; }
      if (d > 3) return v.kind;
      if (v.segs) return `${v.kind}[${v.segs.map((x) => (x instanceof Seg ? "seg(" + x.cases.map((c) => c.items.map((i) => safeDescribe(eng, i, d + 1)).join()).join("|") + ")" : safeDescribe(eng, x, d + 1))).join(", ")}]`;
      return `${v.kind}{${[...v.props].slice(0, 20).map(([k, x]) => k + ": " + safeDescribe(eng, x, d + 1)).join(", ")}${v.layers ? " layers:" + v.layers.length : ""}}`;
    }
    return typeof v === "string" ? JSON.stringify(v) : String(v);
  } catch (e) { return "?" + e.message; }
}

// ---------- concrete side
const REAL_PKGS = /^(etag|date-fns|@date-fns\/tz|es-toolkit|zod|geojson-validation|velocityjs|@turf\/|lodash|change-case|ts-deepmerge|node-ttl|@mapbox\/)/;
const REAL_NODE = new Set(["crypto", "zlib", "path", "stream", "util", "buffer", "url", "querystring", "events", "string_decoder", "assert", "os"]);
export function bundle(file, outFile) {
  const esbuild = require("esbuild");
  const mocks = mocksOf(file);
  const placeholders = literalExport(file, "placeholders") ?? {};
  const libNm = path.join(REPO, "lib/digitraffic-common/node_modules");
  const plugin = { name: "vf", setup(b) {
    b.onResolve({ filter: /.*/ }, (a) => {
      if (a.kind === "entry-point") return undefined;
      const spec = a.path.replace(/^node:/, "");
      if (/(^|\/)node_modules\//.test(a.importer)) {
        if (REAL_NODE.has(spec) || !spec.startsWith(".") && require("node:module").builtinModules.includes(spec)) return { path: spec, external: true };
        return undefined;
      }
      if (a.path === "vf") return { path: path.join(VERIF, "engine/vfconc.mjs") };
      const inRepo = (p) => { const key = path.relative(REPO, p); if (mocks[key] && a.importer !== mocks[key]) return { path: mocks[key] }; return { path: p }; };
      if (a.path.startsWith("repo:")) return inRepo(path.join(REPO, a.path.slice(5)));
      const m = /^@digitraffic\/common(?:\/dist\/(.*?))?(?:\.js)?$/.exec(a.path);
      if (m) return inRepo(path.join(REPO, "lib/digitraffic-common/src", (m[1] ?? "index") + ".ts"));
      if (a.path.startsWith(".")) {
        const base = path.resolve(a.resolveDir, a.path);
        for (const c of [base.replace(/\.(m?)js$/, ".$1ts"), base.replace(/\.js$/, ".tsx"), base + ".ts", base + "/index.ts", base]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return inRepo(c);
        return undefined;
      }
      if (mocks[spec] || mocks["node:" + spec]) return { path: mocks[spec] ?? mocks["node:" + spec] };
      if (REAL_NODE.has(spec)) return { path: spec, external: true };
      if (REAL_PKGS.test(a.path)) { try { return { path: createRequire(libNm + "/x.js").resolve(a.path) }; } catch { /* stand-in below */ } }
      return { path: a.path, namespace: "ext" };
    });
    b.onLoad({ filter: /.*/, namespace: "ext" }, (a) => ({ contents: `module.exports = globalThis.__vfrt.extModule(${JSON.stringify(a.path)});`, loader: "js" }));
    b.onLoad({ filter: /\.tsx?$/ }, (a) => {
      if (!a.path.startsWith(REPO + "/") || a.path.includes("node_modules")) return undefined;
      const sf = parseFile(a.path, placeholders);
      const names = new Set(), exported = new Set();
      for (const st of sf.statements) {
        const isExp = st.modifiers?.some((x) => x.kind === ts.SyntaxKind.ExportKeyword), isDef = st.modifiers?.some((x) => x.kind === ts.SyntaxKind.DefaultKeyword);
        const ns = ts.isVariableStatement(st) ? st.declarationList.declarations.filter((d) => ts.isIdentifier(d.name)).map((d) => d.name.text) : st.name && (ts.isFunctionDeclaration(st) && st.body || ts.isClassDeclaration(st) || ts.isEnumDeclaration(st)) ? [st.name.text] : [];
        if (st.modifiers?.some((x) => x.kind === ts.SyntaxKind.DeclareKeyword)) continue;
        for (const n of ns) { names.add(n); if (isExp && !isDef) exported.add(n); }
        if (ts.isExportDeclaration(st) && st.exportClause && ts.isNamedExports(st.exportClause)) for (const e of st.exportClause.elements) exported.add(e.name.text);
      }
      const extra = [...names].filter((n) => !exported.has(n));
      return { contents: sf.text + (extra.length ? `\nexport { ${extra.join(", ")} };\n` : "\n"), loader: "ts", resolveDir: path.dirname(a.path) };
    });
  } };
  fs.writeFileSync(outFile + ".opts.json", JSON.stringify({ tz: literalExport(file, "tz"), baseEnv: literalExport(file, "baseEnv") }));
  const build = (format) => require("esbuild").build({ entryPoints: [file], bundle: true, platform: "node", format, outfile: outFile, plugins: [plugin], logLevel: "silent", metafile: true, target: "node22", charset: "utf8", nodePaths: [libNm], define: { "import.meta.url": '"file:///bundle.js"', "import.meta.dirname": '"/"' }, tsconfigRaw: { compilerOptions: { experimentalDecorators: true, useDefineForClassFields: true, target: "es2022" } } });
  // a module that awaits while it is loaded: bundled as a module, then run as the body of an async function
  return build("cjs").catch(async (e) => {
    if (!/top-level await/i.test(String(e?.message))) throw e;
    const r = await build("esm");
    const text = ts.transpileModule(fs.readFileSync(outFile, "utf8"), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true } }).outputText;
    fs.writeFileSync(outFile, "//vf-async\n" + text);
    return r;
  });
}
export function harvest(files) {
  const strings = new Set(), numbers = new Set();
  for (const f of files) {
    if (!fs.existsSync(f) || f.includes("node_modules") || f.includes("/engine/")) continue;
    const visit = (n) => {
      if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n) || n.kind === ts.SyntaxKind.TemplateHead || n.kind === ts.SyntaxKind.TemplateMiddle || n.kind === ts.SyntaxKind.TemplateTail) && !ts.isImportDeclaration(n.parent) && n.text.length < 80) strings.add(n.text);
      if (ts.isIdentifier(n) && ts.isPropertyAssignment(n.parent) && strings.size < 400) strings.add(n.text);
      if (ts.isNumericLiteral(n)) numbers.add(Number(n.text.replace(/_/g, "")));
      ts.forEachChild(n, visit);
    };
    visit(parseFile(f));
  }
  return { strings: [...strings].slice(0, 500), numbers: [...numbers].filter(Number.isFinite).slice(0, 200) };
}
export function runConcrete(job, timeoutMs) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "vfrun-"));
  try {
    const jf = path.join(dir, "job.json"), of = path.join(dir, "out.json");
    const side = job.bundle + ".opts.json";
    if (fs.existsSync(side)) job = { ...JSON.parse(fs.readFileSync(side, "utf8")), ...job };
    fs.writeFileSync(jf, JSON.stringify({ ...job, out: of }));
    const r = spawnSync(process.execPath, ["--stack-size=4000", path.join(import.meta.dirname, "concrun.mjs"), jf], { timeout: timeoutMs, encoding: "utf8", maxBuffer: 1 << 26, env: { PATH: process.env.PATH, TZ: job.tz ?? "UTC" }, cwd: dir });
    if (!fs.existsSync(of)) return { crashed: true, stderr: (r.stderr ?? "").slice(-2000), signal: r.signal };
    return JSON.parse(fs.readFileSync(of, "utf8"));
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}

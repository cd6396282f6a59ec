// Mutation survey: node tools/mutate.mjs OUT.json N_WORKERS [property ids…]. Lists small changes of the anchored files that no check of the property notices.
import fs from "node:fs"; import path from "node:path"; import { spawn, execSync } from "node:child_process";
import ts from "/opt/veriftools/node/node_modules/typescript/lib/typescript.js";
const VERIF = path.resolve(import.meta.dirname, "..");
const [out, nw, ...ids] = process.argv.slice(2);
const props = fs.readFileSync(path.join(VERIF, "properties.jsonl"), "utf8").trim().split("\n").map((l) => JSON.parse(l)).filter((p) => !ids.length || ids.includes(p.id));
const BIN = { "<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "===": ["!=="], "!==": ["==="], "&&": ["||"], "||": ["&&"], "??": ["&&"], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["*"] };
function mutants(text, file) {
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true);
  const list = [];
  const put = (s, e, r, what) => list.push({ s, e, r, what, line: sf.getLineAndCharacterOfPosition(s).line + 1 });
  const visit = (n, inType) => {
    if (ts.isTypeNode(n) || ts.isImportDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
    const S = n.getStart(sf), E = n.getEnd();
    if (ts.isBinaryExpression(n)) {
      const op = n.operatorToken.getText(sf);
      for (const r of BIN[op] ?? []) put(n.operatorToken.getStart(sf), n.operatorToken.getEnd(), r, `${op} -> ${r}`);
      if (op === "??") put(S, E, n.left.getText(sf) + "!", "drop ?? default");
    }
    if (n.kind === ts.SyntaxKind.TrueKeyword) put(S, E, "false", "true->false");
    if (n.kind === ts.SyntaxKind.FalseKeyword) put(S, E, "true", "false->true");
    if (ts.isNumericLiteral(n)) put(S, E, String(Number(n.text) + 1), "n+1");
    if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) put(E - 1, E - 1, "X", "text+X");
    if (ts.isTemplateExpression(n)) for (const sp of n.templateSpans) put(sp.expression.getStart(sf), sp.expression.getEnd(), '""', "drop ${}");
    if (ts.isConditionalExpression(n)) { put(S, E, n.whenTrue.getText(sf), "?: true"); put(S, E, n.whenFalse.getText(sf), "?: false"); }
    if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.ExclamationToken) put(S, E, n.operand.getText(sf), "drop !");
    if (ts.isIfStatement(n)) { put(n.expression.getStart(sf), n.expression.getEnd(), "(true as boolean)", "if true"); put(n.expression.getStart(sf), n.expression.getEnd(), "(false as boolean)", "if false"); }
    if (ts.isExpressionStatement(n) && !n.getText(sf).startsWith("super(")) put(S, E, ";", "drop statement");
    if ((ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n) || ts.isSpreadAssignment(n)) && ts.isObjectLiteralExpression(n.parent)) put(S, E, "", "drop property");
    if (ts.isArrayLiteralExpression(n) && n.elements.length) { for (const e of n.elements) put(e.getStart(sf), e.getEnd(), "...[]", "drop element"); }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const nm = n.expression.name.text;
      const sw = { some: "every", every: "some", map: null, startsWith: "endsWith", endsWith: "startsWith", toLowerCase: "toUpperCase", min: "max", max: "min", filter: null, slice: null, trim: null }[nm];
      if (sw) put(n.expression.name.getStart(sf), n.expression.name.getEnd(), sw, `${nm}->${sw}`);
      if (["filter", "trim", "toLowerCase", "sort", "slice"].includes(nm)) put(S, E, n.expression.expression.getText(sf), `drop .${nm}()`);
      if (n.arguments.length > 1) put(n.arguments[n.arguments.length - 1].getFullStart() - 1, n.arguments[n.arguments.length - 1].getEnd(), "", "drop last argument");
    } else if ((ts.isCallExpression(n) || ts.isNewExpression(n)) && (n.arguments?.length ?? 0) > 1) put(n.arguments[n.arguments.length - 1].getFullStart() - 1, n.arguments[n.arguments.length - 1].getEnd(), "", "drop last argument");
    if (ts.isAwaitExpression(n)) put(S, S + 5, "", "drop await");
    ts.forEachChild(n, visit);
  };
  visit(sf);
  return list;
}
const jobs = [];
for (const p of props) for (const f of p.anchors.files) {
  const text = fs.readFileSync("/repo/" + f, "utf8");
  for (const m of mutants(text, f)) jobs.push({ p: p.id, f, ...m, text });
}
console.log(jobs.length, "mutants");
const run = (cmd, args, env, ms) => new Promise((res) => {
  const c = spawn(cmd, args, { env: { ...process.env, ...env }, cwd: VERIF, stdio: ["ignore", "pipe", "pipe"] });
  let o = ""; c.stdout.on("data", (d) => (o += d)); c.stderr.on("data", (d) => (o += d));
  const t = setTimeout(() => c.kill("SIGKILL"), ms);
  c.on("exit", (code, sig) => { clearTimeout(t); res({ o, code, sig }); });
});
const survivors = [], stat = { concrete: 0, proof: 0, survived: 0, nobuild: 0 };
let next = 0;
async function worker(i) {
  const repo = `/tmp/w/mut/${i}`;
  execSync(`rm -rf /tmp/w/mut/${i} && mkdir -p ${repo} && cd /repo && tar cf - --exclude=node_modules --exclude=.git . | tar xf - -C ${repo} && ln -s /repo/lib/digitraffic-common/node_modules ${repo}/lib/digitraffic-common/node_modules; test -d /repo/node_modules && ln -s /repo/node_modules ${repo}/node_modules; true`);
  while (next < jobs.length) {
    const j = jobs[next++];
    const file = path.join(repo, j.f);
    fs.writeFileSync(file, j.text.slice(0, j.s) + j.r + j.text.slice(j.e));
    let verdict = null;
    const specs = fs.readdirSync(path.join(VERIF, "specs")).filter((x) => new RegExp(`^${j.p}[a-z]?\\.ts$`).test(x));
    for (const s of specs) { const c = await run(process.execPath, ["--stack-size=6000", "bin/dev.mjs", "specs/" + s, "--noprove"], { VF_REPO: repo }, 60000); if (!c.o.startsWith("conc ok")) { verdict = /error: Build failed|ERROR: /.test(c.o) ? "nobuild" : "concrete"; break; } }
    if (!verdict) for (const s of specs) { const c = await run(process.execPath, ["--stack-size=6000", "bin/dev.mjs", "specs/" + s, "--noconc", "--nomodel"], { VF_REPO: repo }, 240000); if (/^FAIL /m.test(c.o) || !/^prove \d/m.test(c.o)) { verdict = "proof"; break; } }
    verdict ??= "survived";
    stat[verdict]++;
    if (verdict === "survived" || verdict === "proof") { const { text, ...x } = j; survivors.push({ ...x, verdict, src: text.split("\n")[j.line - 1].trim() }); fs.writeFileSync(out, JSON.stringify(survivors, null, 1)); if (verdict === "survived") console.log("SURVIVED", j.p, j.f.replace("lib/digitraffic-common/src/", ""), j.line, j.what, "|", j.text.slice(j.s, j.e).slice(0, 60).replace(/\n/g, " "), "|", survivors.at(-1).src.slice(0, 100)); }
    fs.writeFileSync(file, j.text);
  }
}
await Promise.all(Array.from({ length: Number(nw) }, (_, i) => worker(i)));
console.log(JSON.stringify(stat));

// AST interpreter for the TypeScript fragment, over symbolic values.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import * as T from "./term.mjs";
import { Sym, Union, HObj, Acc, Seg, Mark, Poison, SeqBase, KeysBase, PrefixBase, SuffixBase, Unsupported, Infeasible, JSThrow, PathStop, wrap, nextSerial, peekSerial, isStrV, isNumV, isBoolV, isAtomV } from "./values.mjs";
import { EngineBase, termOf, ABSENT } from "./engine.mjs";
const require = createRequire("/opt/veriftools/node/node_modules/");
export const ts = require("typescript");
const SK = ts.SyntaxKind;

export class RestartExploration extends Error {}
class Binding { constructor(v, init, konst) { this.v = v; this.init = init; this.konst = konst; this.id = nextSerial(); } }
export class Scope {
  constructor(parent, fn) { this.parent = parent; this.vars = new Map(); this.fn = fn ?? parent?.fn ?? null; }
  lookup(n) { let s = this; while (s) { const b = s.vars.get(n); if (b) return b; s = s.parent; } return undefined; }
  declare(n, v, konst = false, init = true) { const b = new Binding(v, init, konst); this.vars.set(n, b); return b; }
}
const parseCache = new Map();
// texts the deployment writes into the code in place of a marker (specification export `placeholders`)
export const deployment = { placeholders: {} };
export function parseFile(file, placeholders = deployment.placeholders) {
  const inRepo = file.startsWith((process.env.VF_REPO ?? "/repo") + "/");
  const key = file + (inRepo ? JSON.stringify(placeholders) : "");
  let p = parseCache.get(key);
  if (!p) {
    let text = fs.readFileSync(file, "utf8");
    if (inRepo) for (const [k, v] of Object.entries(placeholders)) text = text.replaceAll(k, v);
    p = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true, file.endsWith("x") ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
    if (p.parseDiagnostics?.length) throw new Error(`parse error in ${file}: ${ts.flattenDiagnosticMessageText(p.parseDiagnostics[0].messageText, "\n")}`);
    parseCache.set(key, p);
  }
  return p;
}
export const posOf = (n) => { try { const sf = n.getSourceFile(); const { line } = sf.getLineAndCharacterOfPosition(n.getStart()); return `${sf.fileName}:${line + 1}`; } catch { return "?"; } };

const SOURCED = { "es-toolkit": "dist/index.mjs", "es-toolkit/compat": "dist/compat/index.mjs" };
export class Interp extends EngineBase {
  constructor(solver, opts) {
    super(solver, opts);
    this.repo = opts.repo ?? "/repo";
    this.usedFiles = new Set();
    this.usedFunctions = new Set();
    this.usedModels = new Set();
    this.overrideModules = new Map(); // module key -> factory(): HObj namespace
    this.redirects = new Map(); // module key -> stand-in file in the specification language
    this.hotModules = new Map();
    this.overrideFns = new Map(); // qualified function name -> {value, inner}
  }
  unsupported(msg, node) { throw new Unsupported(msg + (node ? " at " + posOf(node) : ""), node); }
  throwError(type, msg) { throw new JSThrow(this.makeError(type, msg)); }
  makeError(type, msg) {
    const ctor = this.realm.globals.get(type);
    return this.construct(ctor, [msg], ctor);
  }
  // ---------- modules
  resolve(spec, from) {
    if (spec === "vf" || spec === "vf.js") return { kind: "ext", key: "vf" };
    if (spec.startsWith("repo:")) return { kind: "file", file: path.join(this.repo, spec.slice(5)) };
    const m = /^@digitraffic\/common(?:\/dist\/(.*?))?(?:\.js)?$/.exec(spec);
    if (m) return { kind: "file", file: path.join(this.repo, "lib/digitraffic-common/src", (m[1] ?? "index") + ".ts") };
    if (spec.startsWith(".")) {
      const base = path.resolve(path.dirname(from), spec);
      for (const c of [base.replace(/\.(m?)js$/, ".$1ts"), base.replace(/\.js$/, ".tsx"), base + ".ts", base + "/index.ts", base]) {
        if (fs.existsSync(c) && fs.statSync(c).isFile()) return { kind: c.endsWith(".json") ? "json" : "file", file: c };
      }
      return { kind: "file", file: base };
    }
    return { kind: "ext", key: spec };
  }
  moduleKey(r) { if (r.kind === "ext") return r.key; const k = path.relative(this.repo, r.file); return k.startsWith("..") ? "spec:" + path.basename(r.file) : k; }
  getModule(r) {
    const key = this.moduleKey(r);
    let m = this.modules.get(key);
    if (m) return m;
    let red = this.redirects.get(key.replace(/^node:/, ""));
    if (!red && r.kind === "ext") { const f = path.join(import.meta.dirname, "standins", key.replace(/^node:/, "").replace(/\//g, "__") + ".ts"); if (fs.existsSync(f)) red = f; }
    if (red && r.file !== red) { m = this.getModule({ kind: "file", file: red }); this.modules.set(key, m); this.usedModels.add("stand-in for " + key); return m; }
    if (this.overrideModules.has(key)) {
      m = { key, override: this.overrideModules.get(key)() };
      this.modules.set(key, m);
      return m;
    }
    if (r.kind === "ext" && SOURCED[key]) { m = this.getModule(this.packageSource(key)); this.modules.set(key, m); return m; }
    if (r.kind === "ext") {
      m = { key, ext: this.externalModule(key) };
      this.modules.set(key, m);
      return m;
    }
    if (r.kind === "json") {
      m = { key, override: this.fromHost({ default: JSON.parse(fs.readFileSync(r.file, "utf8")) }) };
      this.modules.set(key, m);
      return m;
    }
    if (!fs.existsSync(r.file)) throw new Unsupported("module not found: " + r.file);
    m = { key, file: r.file, exports: new Map(), stars: [], state: "new", isSpec: !r.file.startsWith(this.repo + "/") };
    this.modules.set(key, m);
    if (!m.isSpec) this.usedFiles.add(key);
    return m;
  }
  moduleGet(m, name) {
    if (m.override) return name === "*" ? m.override : this.get(m.override, name);
    if (m.ext) return name === "*" ? m.ext : m.ext.kind === "Ext" ? this.extProp(m.ext, name) : this.getOpt(m.ext, name);
    if (name === "*") return this.namespaceOf(m);
    this.evalModule(m);
    const e = m.exports.get(name);
    if (e) return e();
    for (const s of m.stars) {
      const sm = this.getModule(s);
      if (this.moduleHas(sm, name)) return this.moduleGet(sm, name);
    }
    throw new Unsupported(`module ${m.key} has no export ${name}`);
  }
  // packages whose own source is interpreted like the repository's
  packageSource(key) {
    const [pkg, ...sub] = key.split("/");
    const dir = fs.realpathSync(path.join(this.repo, "lib/digitraffic-common/node_modules", pkg));
    return { kind: "file", file: path.join(dir, SOURCED[key]) };
  }
  moduleHas(m, name) {
    if (m.override) return m.override.props.has(name);
    if (m.ext) return true;
    this.evalModule(m);
    return m.exports.has(name) || m.stars.some((s) => this.moduleHas(this.getModule(s), name));
  }
  // any top-level name, exported or not (contracts may target private functions)
  modulePrivate(m, name) {
    if (m.override || m.ext) return this.moduleGet(m, name);
    this.evalModule(m);
    const b = m.scope.vars.get(name);
    if (b) return this.readBinding(b, name);
    return this.moduleGet(m, name);
  }
  namespaceOf(m) {
    if (m.ns) return m.ns;
    this.evalModule(m);
    const ns = new HObj("Object", this.realm.ObjectProto);
    m.ns = ns;
    for (const [k, f] of m.exports) ns.props.set(k, new Acc({ host: f }, null));
    for (const s of m.stars) { const sub = this.namespaceOf(this.getModule(s)); for (const [k, v] of sub.props) if (!ns.props.has(k)) ns.props.set(k, v); }
    return ns;
  }
  // a piece of source text run as a CommonJS module with the given require, exports and process
  runText(text, names, args) {
    const file = `text:${this.textNo = (this.textNo ?? 0) + 1}.ts`;
    const sf = ts.createSourceFile(file, `(function(${names.join(",")}){${text}\n})`, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
    if (sf.parseDiagnostics?.length) this.throwError("SyntaxError", ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, "\n"));
    const m = { key: file, file, state: "done", exports: new Map(), stars: [] };
    const scope = new Scope(this.globalScope); scope.module = m; scope.fn = { module: m, thisVal: undefined }; m.scope = scope;
    return this.call(this.expr(sf.statements[0].expression, scope), undefined, args);
  }
  evalModule(m) {
    if (m.state !== "new") return;
    if (this.frames.length > 1 || this.boundStack.length) { this.hotModules.set(m.key, m.file); throw new RestartExploration(); }
    this.hotModules.set(m.key, m.file);
    m.state = "evaluating";
    const range = { key: m.key, own: !m.isSpec && !m.key.includes("node_modules"), from: peekSerial(), to: Infinity };
    (this.moduleRanges ??= []).push(range);
    const sf = parseFile(m.file);
    m.scope = new Scope(this.globalScope);
    m.scope.module = m;
    m.scope.fn = { module: m, thisVal: undefined };
    const exp = (name, f) => m.exports.set(name, f);
    // imports
    for (const st of sf.statements) {
      if (ts.isImportDeclaration(st)) {
        const c = st.importClause;
        if (!c || c.isTypeOnly) continue;
        const r = this.resolve(st.moduleSpecifier.text, m.file);
        if (c.name) m.scope.vars.set(c.name.text, { alias: () => this.moduleGet(this.getModule(r), "default") });
        if (c.namedBindings) {
          if (ts.isNamespaceImport(c.namedBindings)) m.scope.vars.set(c.namedBindings.name.text, { alias: () => this.moduleGet(this.getModule(r), "*") });
          else for (const el of c.namedBindings.elements) {
            if (el.isTypeOnly) continue;
            const imported = (el.propertyName ?? el.name).text;
            const spec = r.kind !== "ext" && m.isSpec;
            m.scope.vars.set(el.name.text, { alias: () => (m.isSpec && r.kind === "file" ? this.modulePrivate(this.getModule(r), imported) : this.moduleGet(this.getModule(r), imported)) });
          }
        }
      } else if (ts.isExportDeclaration(st)) {
        if (st.isTypeOnly) continue;
        if (st.moduleSpecifier) {
          const r = this.resolve(st.moduleSpecifier.text, m.file);
          if (!st.exportClause) m.stars.push(r);
          else if (ts.isNamespaceExport(st.exportClause)) exp(st.exportClause.name.text, () => this.moduleGet(this.getModule(r), "*"));
          else for (const el of st.exportClause.elements) if (!el.isTypeOnly) exp(el.name.text, () => this.moduleGet(this.getModule(r), (el.propertyName ?? el.name).text));
        } else if (st.exportClause) {
          for (const el of st.exportClause.elements) { const local = (el.propertyName ?? el.name).text; exp(el.name.text, () => this.readBinding(m.scope.lookup(local), local)); }
        }
      }
    }
    const stmts = sf.statements.filter((s) => !ts.isImportDeclaration(s) && !ts.isExportDeclaration(s));
    this.hoist(stmts, m.scope);
    for (const st of stmts) {
      const mods = st.modifiers?.map((x) => x.kind) ?? [];
      if (mods.includes(SK.ExportKeyword)) {
        const isDef = mods.includes(SK.DefaultKeyword);
        for (const n of this.declaredNames(st)) exp(isDef ? "default" : n, () => this.readBinding(m.scope.vars.get(n), n));
      }
    }
    for (const st of stmts) {
      if (ts.isExportAssignment(st)) {
        const v = this.guardTop(() => this.expr(st.expression, m.scope));
        exp("default", () => this.unpoison(v));
        continue;
      }
      if (ts.isVariableStatement(st)) {
        for (const d of st.declarationList.declarations) {
          try { this.varDecl(d, m.scope, (st.declarationList.flags & ts.NodeFlags.Const) !== 0); } catch (e) {
            if (!(e instanceof Unsupported)) throw e;
            for (const n of this.patternNames(d.name)) m.scope.declare(n, new Poison("module initialiser unsupported: " + e.message), true);
          }
        }
        continue;
      }
      try { this.stmt(st, m.scope); } catch (e) { if (!(e instanceof Unsupported)) throw e; m.topUnsupported = e.message; }
    }
    m.state = "done";
    range.to = peekSerial();
  }
  guardTop(f) { try { return f(); } catch (e) { if (e instanceof Unsupported) return new Poison("module initialiser unsupported: " + e.message); throw e; } }
  unpoison(v) { if (v instanceof Poison) throw new Unsupported(v.why); return v; }
  declaredNames(st) {
    if (ts.isVariableStatement(st)) return st.declarationList.declarations.flatMap((d) => this.patternNames(d.name));
    if (st.name && (ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st) || ts.isEnumDeclaration(st) || ts.isModuleDeclaration(st))) return [st.name.text];
    return [];
  }
  patternNames(n) {
    if (ts.isIdentifier(n)) return [n.text];
    return n.elements.flatMap((e) => (ts.isOmittedExpression(e) ? [] : this.patternNames(e.name)));
  }
  readBinding(b, name) {
    if (!b) this.throwError("ReferenceError", `${name} is not defined`);
    if (b.alias) return b.alias();
    if (!b.init) this.throwError("ReferenceError", `Cannot access '${name}' before initialization`);
    if (b.v instanceof Poison) throw new Unsupported(b.v.why);
    return b.v;
  }
  writeBinding(b, v) {
    this.trail.push({ o: b, f: "v", old: b.v, owner: b });
    b.v = v;
  }
  // ---------- statements
  hoist(stmts, scope) {
    for (const st of stmts) {
      if (ts.isFunctionDeclaration(st)) {
        if (!st.body) continue;
        const n = st.name?.text ?? "default";
        scope.declare(n, this.makeFunction(st, scope, n));
      } else if (ts.isClassDeclaration(st) || ts.isEnumDeclaration(st)) { if (st.name) scope.declare(st.name.text, undefined, true, false); }
      else if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) for (const n of this.patternNames(d.name)) scope.declare(n, undefined, false, false);
    }
  }
  block(stmts, scope) {
    this.hoist(stmts, scope);
    for (const st of stmts) { const c = this.stmt(st, scope); if (c) return c; }
    return undefined;
  }
  stmt(st, scope) {
    if (++this.steps > 400000) throw new Unsupported("step budget exceeded");
    if ((this.steps & 255) === 0 && Date.now() > this.deadline) throw new Unsupported("time budget exceeded");
    switch (st.kind) {
      case SK.ExpressionStatement: this.expr(st.expression, scope); return;
      case SK.VariableStatement: for (const d of st.declarationList.declarations) this.varDecl(d, scope, (st.declarationList.flags & ts.NodeFlags.Const) !== 0); return;
      case SK.ReturnStatement: return { k: "return", v: st.expression ? this.expr(st.expression, scope) : undefined };
      case SK.IfStatement:
        if (this.truthy(this.expr(st.expression, scope))) return this.stmt(st.thenStatement, scope);
        if (st.elseStatement) return this.stmt(st.elseStatement, scope);
        return;
      case SK.Block: return this.block(st.statements, new Scope(scope));
      case SK.ThrowStatement: throw new JSThrow(this.expr(st.expression, scope));
      case SK.TryStatement: return this.tryStmt(st, scope);
      case SK.ForOfStatement: return this.forOf(st, scope);
      case SK.ForInStatement: {
        const o = this.force(this.expr(st.expression, scope));
        const keys = this.ownKeys(o);
        return this.runFor(st, keys, scope);
      }
      case SK.ForStatement: return this.forStmt(st, scope);
      case SK.WhileStatement: return this.whileStmt(st, scope, true);
      case SK.DoStatement: return this.whileStmt(st, scope, false);
      case SK.SwitchStatement: return this.switchStmt(st, scope);
      case SK.BreakStatement: return { k: "break", l: st.label?.text };
      case SK.ContinueStatement: return { k: "continue", l: st.label?.text };
      case SK.LabeledStatement: {
        const c = this.stmt(st.statement, scope);
        if (c && c.l === st.label.text && c.k === "break") return;
        return c;
      }
      case SK.FunctionDeclaration: case SK.EmptyStatement: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: return;
      case SK.ClassDeclaration: { const c = this.makeClass(st, scope); const b = scope.vars.get(st.name.text) ?? scope.declare(st.name.text); b.v = c; b.init = true; return; }
      case SK.EnumDeclaration: {
        const o = new HObj("Object", this.realm.ObjectProto);
        const b = scope.vars.get(st.name.text) ?? scope.declare(st.name.text);
        b.v = o; b.init = true;
        let next = 0;
        const es = new Scope(scope);
        for (const m of st.members) {
          const name = m.name.text;
          let v;
          if (m.initializer) v = this.expr(m.initializer, es); else v = next;
          if (typeof v === "number") { next = v + 1; o.props.set(String(v), name); }
          o.props.set(name, v);
          es.declare(name, v);
        }
        return;
      }
      case SK.ModuleDeclaration: case SK.ImportEqualsDeclaration: return this.unsupported("namespace declaration", st);
      default: return this.unsupported("statement " + SK[st.kind], st);
    }
  }
  varDecl(d, scope, konst) {
    const v = d.initializer ? this.expr(d.initializer, scope, ts.isIdentifier(d.name) ? d.name.text : undefined) : undefined;
    this.bindPattern(d.name, v, scope, konst);
  }
  bindPattern(p, v, scope, konst) {
    if (ts.isIdentifier(p)) {
      const b = scope.vars.get(p.text);
      if (b && !b.init && !b.alias) { b.v = v; b.init = true; b.konst = konst; } else scope.declare(p.text, v, konst);
      return;
    }
    if (ts.isObjectBindingPattern(p)) {
      v = this.force(v);
      if (v === undefined || v === null) this.throwError("TypeError", "Cannot destructure " + v);
      const used = [];
      for (const el of p.elements) {
        if (el.dotDotDotToken) { this.bindPattern(el.name, this.omitKeys(v, used), scope, konst); continue; }
        const key = el.propertyName ? this.propName(el.propertyName, scope) : el.name.text;
        used.push(key);
        let x = this.get(v, key);
        if (el.initializer) { if (this.isUndef(x)) x = this.expr(el.initializer, scope); }
        this.bindPattern(el.name, x, scope, konst);
      }
      return;
    }
    // array pattern
    v = this.force(v);
    let i = 0;
    const arr = this.asArray(v);
    for (const el of p.elements) {
      if (ts.isOmittedExpression(el)) { i++; continue; }
      if (el.dotDotDotToken) { this.bindPattern(el.name, this.arraySlice(arr, i), scope, konst); break; }
      let x = this.get(arr, i);
      if (el.initializer && this.isUndef(x)) x = this.expr(el.initializer, scope);
      this.bindPattern(el.name, x, scope, konst);
      i++;
    }
  }
  isUndef(x) { return this.force(x) === undefined; }
  tryStmt(st, scope) {
    let c;
    let thrown = null;
    const depth = this.depth;
    try { c = this.stmt(st.tryBlock, scope); } catch (e) {
      if (!(e instanceof JSThrow)) throw e;
      this.depth = depth;
      thrown = e;
    }
    if (thrown && st.catchClause) {
      const e = thrown; thrown = null;
      try {
        const s = new Scope(scope);
        if (st.catchClause.variableDeclaration) this.bindPattern(st.catchClause.variableDeclaration.name, e.value, s, false);
        c = this.block(st.catchClause.block.statements, new Scope(s));
      } catch (e2) { if (!(e2 instanceof JSThrow)) throw e2; this.depth = depth; thrown = e2; }
    }
    if (st.finallyBlock) {
      const f = this.stmt(st.finallyBlock, scope);
      if (f) return f;
    }
    if (thrown) throw thrown;
    return c;
  }
  forOf(st, scope) {
    let it = this.force(this.expr(st.expression, scope));
    return this.runFor(st, it, scope);
  }
  runFor(st, it, scope) {
    const segs = this.iterSegs(it);
    const isDecl = ts.isVariableDeclarationList(st.initializer);
    const comp = this.iterate(segs, (x) => {
      const s = new Scope(scope);
      if (st.awaitModifier) x = this.awaitV(x);
      if (isDecl) this.bindPattern(st.initializer.declarations[0].name, x, s, false);
      else this.assign(st.initializer, x, scope);
      const c = this.stmt(st.statement, s);
      return c;
    });
    return comp;
  }
  // recognise  for (let i = 0; i < E.length; i++) { ... }  with i not assigned in the body
  indexedLoop(st, scope) {
    const init = st.initializer;
    if (!init || !ts.isVariableDeclarationList(init) || init.declarations.length < 1) return null;
    const d = init.declarations[0];
    if (!ts.isIdentifier(d.name) || !d.initializer || !ts.isNumericLiteral(d.initializer)) return null;
    const i = d.name.text;
    const c = st.condition;
    if (!c || !ts.isBinaryExpression(c) || c.operatorToken.kind !== SK.LessThanToken || !ts.isIdentifier(c.left) || c.left.text !== i) return null;
    const inc = st.incrementor;
    const incOk = inc && (((ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) && inc.operator === SK.PlusPlusToken && ts.isIdentifier(inc.operand) && inc.operand.text === i) ||
      (ts.isBinaryExpression(inc) && ts.isIdentifier(inc.left) && inc.left.text === i && ((inc.operatorToken.kind === SK.PlusEqualsToken && inc.right.getText() === "1") || (inc.operatorToken.kind === SK.EqualsToken && inc.right.getText() === `${i} + 1`))));
    if (!incOk) return null;
    let assigned = false;
    const visit = (n) => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(n.left) && n.left.text === i) assigned = true;
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && ts.isIdentifier(n.operand) && n.operand.text === i && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken)) assigned = true;
      ts.forEachChild(n, visit);
    };
    visit(st.statement);
    if (assigned) return null;
    return { i, start: Number(d.initializer.text), decls: init.declarations.slice(1), bound: c.right };
  }
  forStmt(st, scope) {
    const s = new Scope(scope);
    const il = this.indexedLoop(st, scope);
    if (il) {
      for (const d of il.decls) this.varDecl(d, s, false);
      const bound = this.force(this.expr(il.bound, s));
      if (bound instanceof Sym) {
        if (bound.sort !== "Int") this.unsupported("loop bound", st);
        if (!(il.start === 0 && this.lenOwner?.has(bound.t.id)) && !this.branch(T.lt(T.intLit(il.start), bound.t))) return;
        const base = this.rangeBase(bound.t, il.start);
        const v = T.mkVar(this.freshName("$r"), "Int");
        const seg = new Seg(base, v, [{ cond: T.TRUE, facts: [], items: [new Sym(v)] }]);
        const comp = this.iterate([seg], (x) => { const bs = new Scope(s); bs.declare(il.i, x); return this.stmt(st.statement, bs); });
        if (!comp) this.sameBound(bound, il.bound, s, st);
        return comp;
      }
    }
    if (st.initializer) {
      if (ts.isVariableDeclarationList(st.initializer)) for (const d of st.initializer.declarations) this.varDecl(d, s, false);
      else this.expr(st.initializer, s);
    }
    for (let n = 0; ; n++) {
      if (n > 2000) this.unsupported("unbounded for loop", st);
      if (st.condition) {
        const c = this.condTerm(this.expr(st.condition, s));
        if (typeof c !== "boolean" && n > 130) this.unsupported("loop with symbolic bound", st);
        if (!this.branch(c)) return;
      }
      const bs = new Scope(s);
      for (const [k, b] of s.vars) bs.declare(k, b.v);
      const comp = this.stmt(st.statement, bs);
      for (const [k, b] of s.vars) { const nb = bs.vars.get(k); if (nb.v !== b.v) this.writeBinding(b, nb.v); }
      if (comp) {
        if (comp.k === "break" && !comp.l) return;
        if (!(comp.k === "continue" && !comp.l)) return comp;
      }
      if (st.incrementor) this.expr(st.incrementor, s);
    }
  }
  // index range [start, n) as a base rooted at the array whose length n is, when known
  rangeBase(n, start) {
    if (start !== 0) return new SuffixBase(this.rangeBase(n, 0), T.intLit(start - 1));
    const owner = this.lenOwner?.get(n.id);
    return new SeqBase(owner ? owner.root : `range:${n.id}`, n, (t) => new Sym(t), (map) => this.rangeBase(T.subst(n, map), 0));
  }
  // recognise  while (i < E) { ...; i++ }  with i not assigned elsewhere in the body and no continue
  indexedWhile(st, scope) {
    const c = st.expression, body = st.statement;
    if (!c || !ts.isBinaryExpression(c) || c.operatorToken.kind !== SK.LessThanToken || !ts.isIdentifier(c.left) || !ts.isBlock(body) || body.statements.length === 0) return null;
    const i = c.left.text, last = body.statements[body.statements.length - 1];
    if (!ts.isExpressionStatement(last) || !this.isIncrement(last.expression, i)) return null;
    let bad = false;
    const visit = (n) => {
      if (this.assigns(n, i)) bad = true;
      if (ts.isContinueStatement(n)) bad = true;
      if (!ts.isFunctionLike(n)) ts.forEachChild(n, visit);
    };
    for (const x of body.statements.slice(0, -1)) visit(x);
    if (bad) return null;
    const b = scope.lookup(i);
    if (!b || !b.init || typeof b.v !== "number" || !Number.isInteger(b.v)) return null;
    return { i, binding: b, start: b.v, bound: c.right, stmts: body.statements.slice(0, -1) };
  }
  sameBound(bound, expr, scope, st) { // the bound of an index loop must not change while it runs
    const now = this.force(this.expr(expr, scope));
    if (!(now instanceof Sym) || now.t !== bound.t) this.unsupported("loop bound changes inside the loop", st);
  }
  assigns(n, i) {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(n.left) && n.left.text === i) return true;
    return (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && ts.isIdentifier(n.operand) && n.operand.text === i && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken);
  }
  isIncrement(inc, i) {
    return !!inc && (((ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) && inc.operator === SK.PlusPlusToken && ts.isIdentifier(inc.operand) && inc.operand.text === i) ||
      (ts.isBinaryExpression(inc) && ts.isIdentifier(inc.left) && inc.left.text === i && ((inc.operatorToken.kind === SK.PlusEqualsToken && inc.right.getText() === "1") || (inc.operatorToken.kind === SK.EqualsToken && inc.right.getText() === `${i} + 1`))));
  }
  whileStmt(st, scope, pre) {
    const il = pre ? this.indexedWhile(st, scope) : null;
    if (il && il.start >= 0) {
      const bound = this.force(this.expr(il.bound, scope));
      if (bound instanceof Sym && bound.sort === "Int") {
        if (!(il.start === 0 && this.lenOwner?.has(bound.t.id)) && !this.branch(T.lt(T.intLit(il.start), bound.t))) return;
        const base = this.rangeBase(bound.t, il.start);
        const v = T.mkVar(this.freshName("$r"), "Int");
        const seg = new Seg(base, v, [{ cond: T.TRUE, facts: [], items: [new Sym(v)] }]);
        const comp = this.iterate([seg], (x) => {
          const bs = new Scope(scope); bs.declare(il.i, x);
          this.hoist(il.stmts, bs);
          for (const y of il.stmts) {
            const c = this.stmt(y, bs);
            if (c && c.k === "break" && !c.l) return { k: "return", v: this.arrayOf(["break", x]) };
            if (c && c.k === "return") return { k: "return", v: this.arrayOf(["return", c.v]) };
            if (c) return c;
          }
          return undefined;
        });
        if (comp && comp.k !== "return") return comp;
        if (comp) {
          if (comp.v.segs[0] === "return") return { k: "return", v: comp.v.segs[1] };
          this.writeBinding(il.binding, comp.v.segs[1]); return;
        }
        this.sameBound(bound, il.bound, scope, st);
        this.writeBinding(il.binding, bound);
        return;
      }
    }
    for (let n = 0; ; n++) {
      if (n > 2000) this.unsupported("unbounded while loop", st);
      if (pre || n > 0) {
        const c = this.condTerm(this.expr(st.expression, scope));
        if (typeof c !== "boolean" && n > 130) this.unsupported("loop with symbolic bound", st);
        if (!this.branch(c)) return;
      }
      const comp = this.stmt(st.statement, scope);
      if (comp) {
        if (comp.k === "break" && !comp.l) return;
        if (!(comp.k === "continue" && !comp.l)) return comp;
      }
    }
  }
  switchStmt(st, scope) {
    const v = this.expr(st.expression, scope);
    const s = new Scope(scope);
    const clauses = st.caseBlock.clauses;
    this.hoist(clauses.flatMap((c) => [...c.statements]), s);
    let start = -1;
    for (let i = 0; i < clauses.length; i++) {
      if (ts.isDefaultClause(clauses[i])) continue;
      if (this.branch(this.strictEq(v, this.expr(clauses[i].expression, s)))) { start = i; break; }
    }
    if (start < 0) start = clauses.findIndex((c) => ts.isDefaultClause(c));
    if (start < 0) return;
    for (let i = start; i < clauses.length; i++) {
      for (const x of clauses[i].statements) {
        const c = this.stmt(x, s);
        if (c) { if (c.k === "break" && !c.l) return; return c; }
      }
    }
  }
  // ---------- functions
  makeFunction(node, scope, name, opts = {}) {
    const f = new HObj("Function", this.realm.FunctionProto);
    f.node = node; f.scope = scope; f.name = name ?? "";
    f.isArrow = ts.isArrowFunction(node);
    f.isAsync = !!node.modifiers?.some((m) => m.kind === SK.AsyncKeyword);
    f.isGen = !!node.asteriskToken;
    f.home = opts.home; f.qname = opts.qname;
    if (f.isArrow) { f.thisFrame = scope.fn; }
    else if (!opts.method) {
      f.lazyProto = true;
    }
    if (!f.qname && ts.isSourceFile(node.parent)) f.qname = name;
    if (!f.qname && node.parent && ts.isVariableDeclaration(node.parent) && ts.isIdentifier(node.parent.name) && ts.isVariableStatement(node.parent.parent?.parent) && ts.isSourceFile(node.parent.parent.parent.parent)) f.qname = node.parent.name.text;
    return f;
  }
  native(name, fn, ctor) {
    const f = new HObj("Function", this.realm?.FunctionProto ?? null);
    f.native = fn; f.name = name; f.nativeCtor = ctor;
    return f;
  }
  call(f, thisVal, args, node) {
    f = this.force(f);
    if (!(f instanceof HObj) || (f.kind !== "Function" && f.kind !== "Ext")) {
      this.throwError("TypeError", `${this.describe(f)} is not a function`);
    }
    if (f.kind === "Ext") return this.extCall(f, thisVal, args, node);
    if (f.poisonCall) this.unsupported("call of a " + f.poisonCall, node);
    if (f.native) return f.native.call(this, args, thisVal, node);
    if (f.symFn) return this.callSymFn(f, thisVal, args);
    if (f.bound) return this.call(f.bound.target, f.bound.thisVal, [...f.bound.args, ...args], node);
    if (f.classInfo) this.throwError("TypeError", `Class constructor ${f.name} cannot be invoked without 'new'`);
    return this.callBody(f, thisVal, args, undefined);
  }
  callBody(f, thisVal, args, newTarget) {
    const mod = f.scope.fn?.module ?? this.moduleOf(f.scope);
    if (f.qname && mod) {
      const q = `${mod.key}#${f.qname}`;
      const ov = this.overrideFns.get(q);
      if (ov && (!ov.inner || (ov.active ?? 0) > 0)) { this.usedModels.add("contract of " + q); return this.call(ov.value, thisVal, args); }
      if (ov?.inner) { ov.active = (ov.active ?? 0) + 1; this.trail.push({ undo: () => {} }); try { return this.callBody2(f, thisVal, args, newTarget, mod); } finally { ov.active--; } }
      if (!mod.isSpec) this.usedFunctions.add(q);
    }
    return this.callBody2(f, thisVal, args, newTarget, mod);
  }
  callBody2(f, thisVal, args, newTarget, mod) {
    if (f.isGen) this.unsupported("generator function", f.node);
    if (++this.depth > 160) throw new Unsupported("recursion deeper than 160: " + f.name);
    const scope = new Scope(f.scope);
    scope.fn = f.isArrow ? f.thisFrame : { thisVal, home: f.home, newTarget, module: mod, args };
    let result;
    const run = () => {
      this.bindParams(f.node.parameters, args, scope);
      if (!ts.isBlock(f.node.body)) return this.expr(f.node.body, scope);
      const c = this.block(f.node.body.statements, new Scope(scope));
      if (c && c.k === "return") return c.v;
      return undefined;
    };
    const d0 = this.depth;
    if (f.isAsync) {
      try { result = this.promiseResolve(run()); } catch (e) {
        if (!(e instanceof JSThrow)) throw e;
        result = this.promiseReject(e.value);
      }
      this.depth = d0;
    } else result = run();
    this.depth = d0 - 1;
    return result;
  }
  moduleOf(scope) { let s = scope; while (s) { if (s.module) return s.module; s = s.parent; } return null; }
  bindParams(params, args, scope) {
    const segs = args.some((a) => a instanceof Seg) ? args : null;
    const arr = segs ? this.arrayOf(segs) : null;
    let i = 0;
    for (const p of params) {
      if (ts.isIdentifier(p.name) && p.name.text === "this") continue;
      if (p.dotDotDotToken) { this.bindPattern(p.name, segs ? this.arraySlice(arr, i) : this.arrayOf(args.slice(i)), scope, false); break; }
      let v = segs ? this.get(arr, i) : args[i];
      if (p.initializer && this.isUndef(v)) v = this.expr(p.initializer, scope);
      this.bindPattern(p.name, v, scope, false);
      i++;
    }
  }
  // ---------- classes
  makeClass(node, scope) {
    const name = node.name?.text ?? "";
    const cls = new HObj("Function", this.realm.FunctionProto);
    cls.name = name; cls.scope = scope;
    const proto = new HObj("Object", this.realm.ObjectProto);
    let parent = null;
    const h = node.heritageClauses?.find((c) => c.token === SK.ExtendsKeyword);
    if (h) {
      parent = this.force(this.expr(h.types[0].expression, scope));
      if (parent === null) proto.proto = null;
      else if (parent.kind === "Ext") { proto.proto = null; proto.extProto = parent; }
      else { proto.proto = this.get(parent, "prototype"); cls.proto = parent; if (proto.proto?.extProto) proto.extProto = proto.proto.extProto; }
    }
    const cscope = new Scope(scope);
    if (name) cscope.declare(name, cls, true);
    cls.classInfo = { node, parent, fields: [], ctor: null, scope: cscope };
    cls.props.set("prototype", proto);
    proto.props.set("constructor", cls); proto.hidden = new Set(["constructor"]);
    const statics = [];
    for (const m of node.members) {
      const isStatic = m.modifiers?.some((x) => x.kind === SK.StaticKeyword);
      const target = isStatic ? cls : proto;
      const home = isStatic ? { obj: cls, isStatic: true } : { obj: proto };
      if (ts.isConstructorDeclaration(m)) { if (m.body) { cls.classInfo.ctor = m; } continue; }
      if (ts.isMethodDeclaration(m)) {
        if (!m.body) continue;
        const k = this.propName(m.name, cscope);
        target.props.set(k, this.makeFunction(m, cscope, k, { method: true, home, qname: `${name}.${k}` }));
        (target.hidden ??= new Set()).add(k);
      } else if (ts.isGetAccessor(m) || ts.isSetAccessor(m)) {
        const k = this.propName(m.name, cscope);
        const old = target.props.get(k);
        const acc = old instanceof Acc ? old : new Acc(null, null);
        const fn = this.makeFunction(m, cscope, k, { method: true, home });
        if (ts.isGetAccessor(m)) acc.get = fn; else acc.set = fn;
        target.props.set(k, acc);
        (target.hidden ??= new Set()).add(k);
      } else if (ts.isPropertyDeclaration(m)) {
        if (m.modifiers?.some((x) => x.kind === SK.DeclareKeyword || x.kind === SK.AbstractKeyword)) continue;
        const k = this.propName(m.name, cscope);
        if (isStatic) statics.push(() => cls.props.set(k, m.initializer ? this.expr(m.initializer, this.thisScope(cscope, cls, home), k) : undefined));
        else cls.classInfo.fields.push({ k, init: m.initializer });
      } else if (m.kind === SK.ClassStaticBlockDeclaration) statics.push(() => this.block(m.body.statements, this.thisScope(cscope, cls, home)));
    }
    for (const s of statics) s();
    return cls;
  }
  thisScope(scope, thisVal, home) { const s = new Scope(scope); s.fn = { thisVal, home, module: scope.fn?.module ?? this.moduleOf(scope) }; return s; }
  construct(f, args, newTarget, node) {
    f = this.force(f);
    newTarget ??= f;
    if (!(f instanceof HObj)) this.throwError("TypeError", "not a constructor");
    if (f.kind === "Ext") return this.extConstruct(f, args, newTarget, node);
    if (f.nativeCtor) return f.nativeCtor.call(this, args, newTarget, node);
    if (f.classInfo) return this.constructClass(f, args, newTarget, node);
    if (f.native || f.kind !== "Function" || f.isArrow) this.throwError("TypeError", `${f.name} is not a constructor`);
    const o = new HObj("Object", this.get(newTarget, "prototype"));
    const r = this.callBody(f, o, args, newTarget);
    return r instanceof HObj ? r : o;
  }
  constructClass(cls, args, newTarget, node) {
    const ci = cls.classInfo;
    const mod = this.moduleOf(ci.scope);
    if (mod && !mod.isSpec) this.usedFunctions.add(`${mod.key}#${cls.name}.constructor`);
    const fnFrame = { thisVal: undefined, home: { obj: cls.props.get("prototype"), cls }, newTarget, module: mod };
    const scope = new Scope(ci.scope);
    scope.fn = fnFrame;
    const initFields = (obj) => {
      fnFrame.thisVal = obj;
      for (const fd of ci.fields) {
        const s = this.thisScope(ci.scope, obj, fnFrame.home);
        const v = fd.init ? this.expr(fd.init, s, fd.k) : undefined;
        this.setMap(obj, obj.props, fd.k, v);
      }
    };
    const superCall = (superArgs) => {
      let obj;
      if (!ci.parent) {
        obj = new HObj("Object", this.get(newTarget, "prototype"));
      } else obj = this.construct(ci.parent, superArgs, newTarget, node);
      initFields(obj);
      return obj;
    };
    fnFrame.superCall = superCall;
    if (++this.depth > 160) throw new Unsupported("recursion too deep");
    if (!ci.ctor) {
      const o = superCall(args);
      this.depth--;
      return o;
    }
    this.bindParams(ci.ctor.parameters, args, scope);
    if (!ci.parent) superCall([]);
    const paramProps = ci.ctor.parameters.filter((p) => p.modifiers?.some((x) => [SK.PublicKeyword, SK.PrivateKeyword, SK.ProtectedKeyword, SK.ReadonlyKeyword].includes(x.kind)));
    const setParams = () => { for (const p of paramProps) this.setMap(fnFrame.thisVal, fnFrame.thisVal.props, p.name.text, this.readBinding(scope.vars.get(p.name.text), p.name.text)); };
    if (!ci.parent) setParams();
    else fnFrame.afterSuper = setParams;
    const c = this.block(ci.ctor.body.statements, new Scope(scope));
    this.depth--;
    if (c && c.k === "return" && c.v instanceof HObj) return c.v;
    if (fnFrame.thisVal === undefined) this.throwError("ReferenceError", "Must call super constructor");
    return fnFrame.thisVal;
  }
  propName(n, scope) {
    if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n)) return n.text;
    if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
    if (ts.isNumericLiteral(n)) return String(Number(n.text));
    if (ts.isComputedPropertyName(n)) return this.toKey(this.expr(n.expression, scope));
    return this.unsupported("property name", n);
  }
  toKey(v) {
    v = this.force(v);
    if (typeof v === "string") return v;
    if (typeof v === "number") return String(v);
    if (v instanceof Sym) { if (v.sort === "String") return v; return this.toStr(v); }
    if (v instanceof HObj && v.kind === "Symbol") return v.key;
    return this.toStr(v);
  }
  toIndex(v) { v = this.force(v); return v instanceof Sym && (v.sort === "Int" || v.sort === "Real") ? v : this.toKey(v); }
  // ---------- expressions
  expr(n, scope, nameHint) {
    switch (n.kind) {
      case SK.ParenthesizedExpression: case SK.AsExpression: case SK.NonNullExpression: case SK.TypeAssertionExpression: case SK.SatisfiesExpression:
        return this.expr(n.expression, scope, nameHint);
      case SK.Identifier: {
        if (n.text === "undefined") return undefined;
        const b = scope.lookup(n.text);
        if (!b) {
          if (n.text === "arguments") return this.arrayOf(scope.fn.args);
          const g = this.realm.globals.get(n.text);
          if (g !== undefined) return g;
          if (["NaN"].includes(n.text)) return NaN;
          if (n.text === "Infinity") return Infinity;
          return this.unsupported("global " + n.text, n);
        }
        return this.readBinding(b, n.text);
      }
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return n.text;
      case SK.NumericLiteral: return Number(n.text.replace(/_/g, ""));
      case SK.BigIntLiteral: return BigInt(n.text.slice(0, -1));
      case SK.TrueKeyword: return true;
      case SK.FalseKeyword: return false;
      case SK.NullKeyword: return null;
      case SK.ThisKeyword: return scope.fn ? scope.fn.thisVal : undefined;
      case SK.TemplateExpression: {
        const parts = [T.strLit(n.head.text)];
        for (const s of n.templateSpans) { parts.push(termOf(this.toStr(this.expr(s.expression, scope)))); parts.push(T.strLit(s.literal.text)); }
        return wrap(T.concatList(parts));
      }
      case SK.TaggedTemplateExpression: return this.taggedTemplate(n, scope);
      case SK.ArrowFunction: case SK.FunctionExpression: {
        if (n.name) { const s = new Scope(scope); const f = this.makeFunction(n, s, n.name.text); s.declare(n.name.text, f); return f; }
        return this.makeFunction(n, scope, nameHint);
      }
      case SK.ClassExpression: return this.makeClass(n, scope);
      case SK.RegularExpressionLiteral: {
        const m = /^\/(.*)\/([a-z]*)$/s.exec(n.text);
        return this.makeRegExp(m[1], m[2]);
      }
      case SK.ArrayLiteralExpression: return this.arrayOf(this.args(n.elements, scope));
      case SK.ObjectLiteralExpression: return this.objectLiteral(n, scope);
      case SK.PropertyAccessExpression: case SK.ElementAccessExpression: case SK.CallExpression: return this.chain(n, scope).v;
      case SK.NewExpression: {
        const f = this.expr(n.expression, scope);
        return this.construct(f, this.args(n.arguments ?? [], scope), undefined, n);
      }
      case SK.PrefixUnaryExpression: return this.prefixUnary(n, scope);
      case SK.PostfixUnaryExpression: {
        const old = this.toNumeric(this.expr(n.operand, scope));
        const nv = this.arith(n.operator === SK.PlusPlusToken ? "+" : "-", old, 1);
        this.assign(n.operand, nv, scope);
        return old;
      }
      case SK.BinaryExpression: return this.binary(n, scope);
      case SK.ConditionalExpression: return this.conditional(n, scope);
      case SK.TypeOfExpression: {
        if (ts.isIdentifier(n.expression) && !scope.lookup(n.expression.text) && !this.realm.globals.has(n.expression.text) && n.expression.text !== "undefined") return "undefined";
        return this.typeOf(this.expr(n.expression, scope));
      }
      case SK.VoidExpression: this.expr(n.expression, scope); return undefined;
      case SK.AwaitExpression: return this.awaitV(this.expr(n.expression, scope));
      case SK.DeleteExpression: {
        const e = this.stripParens(n.expression);
        const o = this.force(this.expr(e.expression, scope));
        const k = ts.isPropertyAccessExpression(e) ? e.name.text : this.toKey(this.expr(e.argumentExpression, scope));
        this.deleteProp(o, k);
        return true;
      }
      case SK.SuperKeyword: return this.unsupported("bare super", n);
      case SK.MetaProperty: return this.unsupported("meta property", n);
      case SK.OmittedExpression: return undefined;
      case SK.SpreadElement: return this.unsupported("spread", n);
      case SK.ImportKeyword: return this.unsupported("dynamic import", n);
      case SK.ExpressionWithTypeArguments: return this.expr(n.expression, scope);
      default: return this.unsupported("expression " + SK[n.kind], n);
    }
  }
  stripParens(n) { while ([SK.ParenthesizedExpression, SK.AsExpression, SK.NonNullExpression, SK.TypeAssertionExpression, SK.SatisfiesExpression].includes(n.kind)) n = n.expression; return n; }
  conditional(n, scope) {
    const c = this.condTerm(this.expr(n.condition, scope));
    if (typeof c === "boolean") return this.expr(c ? n.whenTrue : n.whenFalse, scope);
    return this.branch(c) ? this.expr(n.whenTrue, scope) : this.expr(n.whenFalse, scope);
  }
  args(list, scope) {
    const out = [];
    for (const a of list) {
      if (ts.isSpreadElement(a)) out.push(...this.iterSegs(this.force(this.expr(a.expression, scope))));
      else if (ts.isOmittedExpression(a)) out.push(undefined);
      else out.push(this.expr(a, scope));
    }
    return out;
  }
  // property/call chains with optional chaining; returns {v, thisVal, short}
  chain(n, scope) {
    if (n.kind === SK.NonNullExpression || n.kind === SK.ParenthesizedExpression && this.isChainNode(n.expression)) {
      const r = this.chain(n.expression, scope);
      return n.kind === SK.ParenthesizedExpression ? { ...r, short: false } : r;
    }
    if (!this.isChainNode(n)) return { v: this.expr(n, scope) };
    if (ts.isCallExpression(n)) {
      if (n.expression.kind === SK.SuperKeyword) {
        const fr = scope.fn;
        const args = this.args(n.arguments, scope);
        if (!fr.superCall) this.unsupported("super call", n);
        const o = fr.superCall(args);
        fr.thisVal = o;
        fr.afterSuper?.();
        return { v: undefined };
      }
      if (n.expression.kind === SK.ImportKeyword) this.unsupported("dynamic import", n);
      const callee = this.chain(n.expression, scope);
      if (callee.short) return callee;
      let f = callee.v;
      if (n.questionDotToken) { f = this.force(f); if (f === undefined || f === null) return { v: undefined, short: true }; }
      const args = this.args(n.arguments, scope);
      return { v: this.call(f, callee.thisVal, args, n) };
    }
    // property access
    if (n.expression.kind === SK.SuperKeyword) {
      const home = scope.fn.home;
      const k = ts.isPropertyAccessExpression(n) ? n.name.text : this.toKey(this.expr(n.argumentExpression, scope));
      if (home.obj.extProto && !home.obj.proto) return { v: this.extProp(scope.fn.thisVal, k), thisVal: scope.fn.thisVal };
      return { v: this.getFrom(home.obj.proto, k, scope.fn.thisVal), thisVal: scope.fn.thisVal };
    }
    const o = this.chain(n.expression, scope);
    if (o.short) return o;
    const ov = this.force(o.v);
    if (n.questionDotToken && (ov === undefined || ov === null)) return { v: undefined, short: true };
    const k = ts.isPropertyAccessExpression(n) ? n.name.text : this.toIndex(this.expr(n.argumentExpression, scope));
    return { v: this.get(ov, k, n), thisVal: ov };
  }
  isChainNode(n) { return n.kind === SK.PropertyAccessExpression || n.kind === SK.ElementAccessExpression || n.kind === SK.CallExpression || n.kind === SK.NonNullExpression; }
  objectLiteral(n, scope) {
    const o = new HObj("Object", this.realm.ObjectProto);
    for (const p of n.properties) {
      if (ts.isPropertyAssignment(p)) {
        const k = this.propName(p.name, scope);
        const v = this.expr(p.initializer, scope, typeof k === "string" ? k : undefined);
        this.setOwn(o, k, v);
      } else if (ts.isShorthandPropertyAssignment(p)) this.setOwn(o, p.name.text, this.expr(p.name, scope));
      else if (ts.isSpreadAssignment(p)) this.assignInto(o, this.expr(p.expression, scope));
      else if (ts.isMethodDeclaration(p)) { const k = this.propName(p.name, scope); this.setOwn(o, k, this.makeFunction(p, scope, typeof k === "string" ? k : "", { method: true, home: { obj: o } })); }
      else if (ts.isGetAccessor(p) || ts.isSetAccessor(p)) {
        const k = this.propName(p.name, scope);
        const old = o.props.get(k); const acc = old instanceof Acc ? old : new Acc(null, null);
        const fn = this.makeFunction(p, scope, k, { method: true });
        if (ts.isGetAccessor(p)) acc.get = fn; else acc.set = fn;
        o.props.set(k, acc);
      } else this.unsupported("object literal member", p);
    }
    return o;
  }
  prefixUnary(n, scope) {
    switch (n.operator) {
      case SK.ExclamationToken: { const c = this.condTerm(this.expr(n.operand, scope)); return typeof c === "boolean" ? !c : wrap(T.not(c)); }
      case SK.MinusToken: { const v = this.toNumeric(this.expr(n.operand, scope)); return typeof v === "number" || typeof v === "bigint" ? -v : wrap(T.neg(v.t)); }
      case SK.PlusToken: return this.toNumeric(this.expr(n.operand, scope));
      case SK.TildeToken: { const v = this.toNumeric(this.expr(n.operand, scope)); if (typeof v === "number") return ~v; return this.unsupported("~", n); }
      case SK.PlusPlusToken: case SK.MinusMinusToken: {
        const v = this.arith(n.operator === SK.PlusPlusToken ? "+" : "-", this.toNumeric(this.expr(n.operand, scope)), 1);
        this.assign(n.operand, v, scope);
        return v;
      }
      default: return this.unsupported("unary", n);
    }
  }
  binary(n, scope) {
    const op = n.operatorToken.kind;
    switch (op) {
      case SK.AmpersandAmpersandToken: { const l = this.expr(n.left, scope); return this.logical(l, true, () => this.expr(n.right, scope), n); }
      case SK.BarBarToken: { const l = this.expr(n.left, scope); return this.logical(l, false, () => this.expr(n.right, scope), n); }
      case SK.QuestionQuestionToken: { const l = this.force(this.expr(n.left, scope)); return l === undefined || l === null ? this.expr(n.right, scope) : l; }
      case SK.CommaToken: this.expr(n.left, scope); return this.expr(n.right, scope);
      case SK.EqualsToken: { const v = ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left) ? this.expr(n.right, scope) : null; if (v !== null) { this.assignPattern(n.left, v, scope); return v; } return this.assignOp(n, scope, (cur, rhs) => rhs(), false); }
      case SK.PlusEqualsToken: return this.assignOp(n, scope, (cur, rhs) => this.plus(cur(), rhs()));
      case SK.MinusEqualsToken: return this.assignOp(n, scope, (cur, rhs) => this.arith("-", this.toNumeric(cur()), this.toNumeric(rhs())));
      case SK.AsteriskEqualsToken: return this.assignOp(n, scope, (cur, rhs) => this.arith("*", this.toNumeric(cur()), this.toNumeric(rhs())));
      case SK.SlashEqualsToken: return this.assignOp(n, scope, (cur, rhs) => this.arith("/", this.toNumeric(cur()), this.toNumeric(rhs())));
      case SK.QuestionQuestionEqualsToken: return this.assignOp(n, scope, (cur, rhs, keep) => { const c = this.force(cur()); return c === undefined || c === null ? rhs() : keep(c); });
      case SK.BarBarEqualsToken: return this.assignOp(n, scope, (cur, rhs, keep) => { const c = this.force(cur()); return this.truthy(c) ? keep(c) : rhs(); });
      case SK.AmpersandAmpersandEqualsToken: return this.assignOp(n, scope, (cur, rhs, keep) => { const c = this.force(cur()); return this.truthy(c) ? rhs() : keep(c); });
    }
    const l = this.expr(n.left, scope);
    const r = this.expr(n.right, scope);
    switch (op) {
      case SK.PlusToken: return this.plus(l, r);
      case SK.MinusToken: return this.arith("-", this.toNumeric(l), this.toNumeric(r));
      case SK.AsteriskToken: return this.arith("*", this.toNumeric(l), this.toNumeric(r));
      case SK.SlashToken: return this.arith("/", this.toNumeric(l), this.toNumeric(r));
      case SK.PercentToken: return this.arith("%", this.toNumeric(l), this.toNumeric(r));
      case SK.AsteriskAsteriskToken: return this.arith("**", this.toNumeric(l), this.toNumeric(r));
      case SK.EqualsEqualsEqualsToken: return this.wrapB(this.strictEq(l, r));
      case SK.ExclamationEqualsEqualsToken: return this.wrapB(this.strictEq(l, r), true);
      case SK.EqualsEqualsToken: return this.wrapB(this.looseEq(l, r));
      case SK.ExclamationEqualsToken: return this.wrapB(this.looseEq(l, r), true);
      case SK.LessThanToken: return this.compare("<", l, r);
      case SK.LessThanEqualsToken: return this.compare("<=", l, r);
      case SK.GreaterThanToken: return this.compare("<", r, l);
      case SK.GreaterThanEqualsToken: return this.compare("<=", r, l);
      case SK.InstanceOfKeyword: return this.instanceOf(l, r);
      case SK.InKeyword: return this.wrapB(this.hasProp(this.force(r), this.toKey(l)));
      case SK.AmpersandToken: case SK.BarToken: case SK.CaretToken: case SK.LessThanLessThanToken: case SK.GreaterThanGreaterThanToken: case SK.GreaterThanGreaterThanGreaterThanToken: {
        const a = this.toNumeric(l), b = this.toNumeric(r);
        if (typeof a !== "number" || typeof b !== "number") return this.unsupported("bitwise on symbolic value", n);
        switch (op) { case SK.AmpersandToken: return a & b; case SK.BarToken: return a | b; case SK.CaretToken: return a ^ b; case SK.LessThanLessThanToken: return a << b; case SK.GreaterThanGreaterThanToken: return a >> b; default: return a >>> b; }
      }
      default: return this.unsupported("operator " + SK[op], n);
    }
  }
  wrapB(t, negate = false) { if (typeof t === "boolean") return negate ? !t : t; return wrap(negate ? T.not(t) : t); }
  // && / || : keep boolean connectives symbolic when the right side is simple enough not to fork
  logical(l, isAnd, rhs, n) {
    l = this.force(l);
    const c = this.condTerm(l);
    if (typeof c === "boolean") return c === isAnd ? rhs() : l;
    if (isBoolV(l) && this.pureExpr(n.right)) {
      const q = this.quick(c);
      if (q !== undefined) return q === isAnd ? rhs() : l;
      // evaluate the right side under the assumption, as a merged formula
      const merged = this.tryMerge(c, isAnd, rhs);
      if (merged) return merged;
    }
    return this.branch(c) === isAnd ? rhs() : l;
  }
  pureExpr(n) {
    let ok = true;
    const visit = (x) => {
      if (!ok) return;
      switch (x.kind) {
        case SK.Identifier: case SK.StringLiteral: case SK.NumericLiteral: case SK.TrueKeyword: case SK.FalseKeyword: case SK.NullKeyword: case SK.ParenthesizedExpression: case SK.NonNullExpression: case SK.PropertyAccessExpression:
          break;
        case SK.BinaryExpression: {
          const k = x.operatorToken.kind;
          if (k >= SK.FirstAssignment && k <= SK.LastAssignment) ok = false;
          break;
        }
        case SK.PrefixUnaryExpression: if (x.operator === SK.PlusPlusToken || x.operator === SK.MinusMinusToken) ok = false; break;
        default: if (x.kind >= SK.FirstToken && x.kind <= SK.LastToken) break; ok = false;
      }
      if (ok) ts.forEachChild(x, visit);
    };
    visit(n);
    return ok;
  }
  tryMerge(c, isAnd, rhs) {
    const guard = isAnd ? c : T.not(c);
    let out = null;
    try {
      const rs = this.nested(() => {
        this.assume(guard, true);
        const v = rhs();
        if (!isBoolV(v)) return { bad: true };
        return { t: termOf(v) };
      });
      if (rs.length === 1 && !rs[0].bad) out = wrap(isAnd ? T.and(c, rs[0].t) : T.or(c, rs[0].t));
    } catch (e) { if (!(e instanceof JSThrow) && !(e instanceof Unsupported)) throw e; }
    return out;
  }
  assignOp(n, scope, f, needCur = true) {
    const target = this.stripParens(n.left);
    if (ts.isIdentifier(target)) {
      let kept = false;
      const v = f(() => this.expr(target, scope), () => this.expr(n.right, scope, target.text), (c) => { kept = true; return c; });
      if (!kept) this.assign(target, v, scope);
      return v;
    }
    if (ts.isPropertyAccessExpression(target) || ts.isElementAccessExpression(target)) {
      const o = target.expression.kind === SK.SuperKeyword ? scope.fn.thisVal : this.force(this.expr(target.expression, scope));
      const k = ts.isPropertyAccessExpression(target) ? target.name.text : this.toIndex(this.expr(target.argumentExpression, scope));
      let kept = false;
      const v = f(() => this.get(o, k), () => this.expr(n.right, scope), (c) => { kept = true; return c; });
      if (!kept) this.set(o, k, v);
      return v;
    }
    return this.unsupported("assignment target", n);
  }
  assign(target, v, scope) {
    target = this.stripParens(target);
    if (ts.isIdentifier(target)) {
      const b = scope.lookup(target.text);
      if (!b) this.throwError("ReferenceError", target.text + " is not defined");
      if (b.alias || (b.konst && b.init)) this.throwError("TypeError", "Assignment to constant variable.");
      if (!b.init) { b.init = true; }
      this.writeBinding(b, v);
    } else if (ts.isPropertyAccessExpression(target)) this.set(this.force(this.expr(target.expression, scope)), target.name.text, v);
    else if (ts.isElementAccessExpression(target)) this.set(this.force(this.expr(target.expression, scope)), this.toIndex(this.expr(target.argumentExpression, scope)), v);
    else this.assignPattern(target, v, scope);
  }
  assignPattern(p, v, scope) {
    v = this.force(v);
    if (ts.isArrayLiteralExpression(p)) {
      const arr = this.asArray(v);
      p.elements.forEach((el, i) => {
        if (ts.isOmittedExpression(el)) return;
        if (ts.isSpreadElement(el)) return this.assign(el.expression, this.arraySlice(arr, i), scope);
        this.assign(el, this.get(arr, i), scope);
      });
      return;
    }
    if (ts.isObjectLiteralExpression(p)) {
      for (const el of p.properties) {
        if (ts.isShorthandPropertyAssignment(el)) this.assign(el.name, this.get(v, el.name.text), scope);
        else if (ts.isPropertyAssignment(el)) this.assign(el.initializer, this.get(v, this.propName(el.name, scope)), scope);
        else this.unsupported("assignment pattern", el);
      }
      return;
    }
    this.unsupported("assignment pattern", p);
  }
  taggedTemplate(n, scope) {
    const tag = this.chain(n.tag, scope);
    const strs = ts.isNoSubstitutionTemplateLiteral(n.template) ? [n.template.text] : [n.template.head.text, ...n.template.templateSpans.map((s) => s.literal.text)];
    const raw = this.arrayOf(strs.slice());
    const arr = this.arrayOf(strs.slice());
    arr.props.set("raw", raw);
    const vals = ts.isNoSubstitutionTemplateLiteral(n.template) ? [] : n.template.templateSpans.map((s) => this.expr(s.expression, scope));
    return this.call(tag.v, tag.thisVal, [arr, ...vals], n);
  }
  // ---------- conditions
  truthy(v) { return this.branch(this.condTerm(v)); }
  condTerm(v) { // boolean or Term
    v = this.force(v);
    if (v instanceof Sym) {
      switch (v.sort) {
        case "Bool": return v.t;
        case "String": return this.simpB(T.not(T.eq(v.t, T.strLit(""))));
        case "Int": return this.simpB(T.not(T.eq(v.t, T.intLit(0))));
        case "Real": return this.simpB(T.not(T.eq(v.t, T.realLit(0))));
        case "Atom": return T.uf("truthyAtom", [v.t], "Bool");
      }
    }
    if (v instanceof HObj) return true;
    return !!v;
  }
  simpB(t) { return t === T.TRUE ? true : t === T.FALSE ? false : t; }
  describe(v) { return v instanceof HObj ? v.kind : v instanceof Sym ? v.sort : String(v); }
}

// The part of the Velocity template language that API Gateway mapping templates use, as far as the repository needs it.
// render(template, variables) gives the text; maps are Map objects, functions are called, an unknown reference stays as written.
type Node = any;
const SKIP = /[ \t]*/y, NAME = /[A-Za-z_][\w-]*/y, NUMBER = /-?\d+/y, OP = /[ \t]*(==|!=|&&|\|\|)[ \t]*/y;
const parsed = new Map<string, Node[]>();
function parse(text: string): Node[] {
  const known = parsed.get(text);
  if (known !== undefined) return known;
  let at = 0;
  const take = (re: RegExp): any => { re.lastIndex = at; const m = re.exec(text); if (m !== null) at = re.lastIndex; return m; };
  const expect = (s: string) => { take(SKIP); if (!text.startsWith(s, at)) throw new Error(`template: ${s} expected at ${text.slice(at, at + 30)}`); at += s.length; };
  const list = (end: string): Node[] => { const out: Node[] = []; take(SKIP); while (!text.startsWith(end, at)) { out.push(expression()); take(SKIP); if (text[at] === ",") at += 1; take(SKIP); } at += end.length; return out; };
  function reference(): Node { // after "$"
    const from = at - 1, quiet = text[at] === "!"; if (quiet) at += 1;
    const brace = text[at] === "{"; if (brace) at += 1;
    const name = take(NAME)[0], steps: Node[] = [];
    for (;;) {
      if (text[at] === "(" && steps.length > 0 && steps[steps.length - 1].args === undefined && steps[steps.length - 1].index === undefined) { at += 1; steps[steps.length - 1] = { ...steps[steps.length - 1], args: list(")") }; continue; }
      if (text[at] === "[") { at += 1; steps.push({ index: expression() }); expect("]"); continue; }
      if (text[at] === "." && /[A-Za-z_]/.test(text[at + 1] ?? "")) { at += 1; steps.push({ name: take(NAME)[0] }); continue; }
      break;
    }
    if (brace) expect("}");
    return { k: "ref", name, steps, quiet, source: text.slice(from, at) };
  }
  function primary(): Node {
    take(SKIP);
    const c = text[at];
    if (c === "!") { at += 1; return { k: "not", e: primary() }; }
    if (c === "(") { at += 1; const e = expression(); expect(")"); return e; }
    if (c === "'") { const end = text.indexOf("'", at + 1); const v = text.slice(at + 1, end); at = end + 1; return { k: "lit", v }; }
    if (c === '"') { const end = text.indexOf('"', at + 1); const v = text.slice(at + 1, end); at = end + 1; return { k: "text", parts: parse(v) }; }
    if (c === "{") { at += 1; expect("}"); return { k: "map" }; }
    if (c === "[") { at += 1; return { k: "list", items: list("]") }; }
    if (c === "$") { at += 1; return reference(); }
    const n = take(NUMBER);
    if (n !== null) return { k: "lit", v: Number(n[0]) };
    const w = take(NAME);
    if (w !== null && (w[0] === "true" || w[0] === "false")) return { k: "lit", v: w[0] === "true" };
    throw new Error(`template: expression expected at ${text.slice(at, at + 30)}`);
  }
  function expression(): Node { let e = primary(); for (;;) { const o = take(OP); if (o === null) return e; e = { k: o[1], a: e, b: primary() }; } }
  const condition = (): Node => { expect("("); const e = expression(); expect(")"); return e; };
  const eol = () => { take(/[ \t]*\n/y); };
  function block(ends: string[]): { nodes: Node[]; end: string } {
    const nodes: Node[] = [];
    while (at < text.length) {
      const m = take(/[^#$]+/y);
      if (m !== null) { nodes.push({ k: "lit", v: m[0] }); continue; }
      if (text[at] === "$") {
        if (/[A-Za-z_!{]/.test(text[at + 1] ?? "")) { at += 1; nodes.push(reference()); } else { nodes.push({ k: "lit", v: "$" }); at += 1; }
        continue;
      }
      if (take(/##[^\n]*\n?/y) !== null) continue;
      const d = take(/#(set|foreach|if|elseif|else|end)(?![A-Za-z])/y);
      if (d === null) { nodes.push({ k: "lit", v: "#" }); at += 1; continue; }
      if (ends.includes(d[1])) { if (d[1] !== "elseif") eol(); return { nodes, end: d[1] }; }
      if (d[1] === "set") { take(SKIP); expect("("); expect("$"); const target = reference(); expect("="); const e = expression(); expect(")"); eol(); nodes.push({ k: "set", target, e }); }
      else if (d[1] === "foreach") { expect("("); expect("$"); const name = take(NAME)[0]; take(/\s*in\s*/y); const e = expression(); expect(")"); eol(); nodes.push({ k: "each", name, e, body: block(["end"]).nodes }); }
      else if (d[1] === "if") {
        take(SKIP);
        const cases: Node[] = [];
        let test = condition(); eol();
        for (;;) {
          const b = block(["else", "elseif", "end"]);
          cases.push({ test, body: b.nodes });
          if (b.end === "end") break;
          if (b.end === "elseif") { take(SKIP); test = condition(); eol(); continue; }
          cases.push({ test: { k: "lit", v: true }, body: block(["end"]).nodes });
          break;
        }
        nodes.push({ k: "if", cases });
      } else throw new Error(`template: stray #${d[1]}`);
    }
    if (ends.length > 0) throw new Error("template: #end missing");
    return { nodes, end: "" };
  }
  const out = block([]).nodes;
  parsed.set(text, out);
  return out;
}
const member = (o: any, name: string): any => {
  if (o === undefined || o === null) return undefined;
  if (o instanceof Map) return name === "keySet" ? () => [...o.keys()] : name === "containsKey" ? (k: any) => o.has(k) : name === "get" ? (k: any) => o.get(k) : name === "put" ? (k: any, v: any) => { o.set(k, v); return undefined; } : name === "size" ? () => o.size : o.get(name);
  if (typeof o === "string") return name === "substring" ? (a: number, b?: number) => o.substring(a, b) : name === "replaceAll" ? (a: string, b: string) => o.split(a).join(b) : name === "length" ? () => o.length : name === "isEmpty" ? () => o === "" : undefined;
  return o[name];
};
function value(e: Node, vars: any): any {
  switch (e.k) {
    case "lit": return e.v;
    case "text": return e.parts.map((p: any) => (p.k === "lit" ? p.v : shown(p, vars))).join("");
    case "map": return new Map();
    case "list": return e.items.map((x: any) => value(x, vars));
    case "not": return !value(e.e, vars);
    case "==": return value(e.a, vars) === value(e.b, vars);
    case "!=": return value(e.a, vars) !== value(e.b, vars);
    case "&&": return value(e.a, vars) && value(e.b, vars);
    case "||": return value(e.a, vars) || value(e.b, vars);
  }
  let v = vars[e.name];
  for (const s of e.steps) {
    if (s.index !== undefined) { const i = value(s.index, vars); v = v instanceof Map ? v.get(i) : v?.[i]; continue; }
    const f = member(v, s.name);
    if (s.args === undefined) { v = f; continue; }
    const args = s.args.map((x: any) => value(x, vars));
    if (f === undefined) return undefined;
    v = f(...args);
  }
  return v;
}
const shown = (e: Node, vars: any): any => { const v = value(e, vars); return v === undefined || v === null ? (e.quiet ? "" : e.source) : Array.isArray(v) ? `[${v.join(", ")}]` : String(v); };
function run(nodes: Node[], vars: any): string {
  let out = "";
  for (const n of nodes) {
    if (n.k === "lit") out += n.v;
    else if (n.k === "ref") out += shown(n, vars);
    else if (n.k === "set") {
      const v = value(n.e, vars), steps = n.target.steps;
      if (steps.length === 0) { if (v !== undefined || n.target.name !== "tmp") vars[n.target.name] = v; continue; }
      let o = vars[n.target.name];
      for (const s of steps.slice(0, -1)) o = member(o, s.name);
      const last = steps[steps.length - 1];
      if (o instanceof Map) o.set(last.name, v); else o[last.name] = v;
    } else if (n.k === "if") { const c = n.cases.find((x: any) => value(x.test, vars)); if (c !== undefined) out += run(c.body, vars); }
    else {
      const items = value(n.e, vars) ?? [], before = vars.foreach;
      let i = 0;
      for (const x of items) { i += 1; vars[n.name] = x; vars.foreach = { hasNext: i < items.length, count: i, index: i - 1 }; out += run(n.body, vars); }
      vars.foreach = before;
    }
  }
  return out;
}
export const render = (text: string, vars: any): string => run(parse(text), vars);

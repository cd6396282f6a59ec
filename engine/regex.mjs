// Translation of JavaScript regular expressions to SMT RegLan (a common subset).
import { smtStr } from "./term.mjs";
const ANY = "re.allchar";
const rng = (a, b) => `(re.range ${smtStr(a)} ${smtStr(b)})`;
const union = (l) => (l.length === 0 ? "re.none" : l.length === 1 ? l[0] : `(re.union ${l.join(" ")})`);
const cat = (l) => (l.length === 0 ? '(str.to_re "")' : l.length === 1 ? l[0] : `(re.++ ${l.join(" ")})`);
const CLASSES = {
  d: () => [rng("0", "9")],
  w: () => [rng("a", "z"), rng("A", "Z"), rng("0", "9"), '(str.to_re "_")'],
  s: () => [" ", "\t", "\n", "\r", "\v", "\f", "\u00a0", "\ufeff", "\u2028", "\u2029", "\u3000", "\u1680", "\u202f", "\u205f"].map((c) => `(str.to_re ${smtStr(c)})`).concat([rng("\u2000", "\u200a")]),
};
const compl = (l) => `(re.diff ${ANY} ${union(l)})`;
export class RegexUnsupported extends Error {}
export function parseRegex(src, flags) {
  let i = 0;
  const ic = flags.includes("i");
  const lineEnds = ["\n", "\r", "\u2028", "\u2029"].map((x) => `(str.to_re ${smtStr(x)})`);
  const groups = [];
  const chr = (c) => {
    if (ic && c.toLowerCase() !== c.toUpperCase()) return union([`(str.to_re ${smtStr(c.toLowerCase())})`, `(str.to_re ${smtStr(c.toUpperCase())})`]);
    return `(str.to_re ${smtStr(c)})`;
  };
  const range = (a, b) => {
    const l = [rng(a, b)];
    if (ic) {
      if (/[a-z]/.test(a) && /[a-z]/.test(b)) l.push(rng(a.toUpperCase(), b.toUpperCase()));
      if (/[A-Z]/.test(a) && /[A-Z]/.test(b)) l.push(rng(a.toLowerCase(), b.toLowerCase()));
    }
    return l;
  };
  function escapeAtom() {
    const c = src[i++];
    if (CLASSES[c]) return { set: CLASSES[c]() };
    if (/[DWS]/.test(c)) return { neg: CLASSES[c.toLowerCase()]() };
    if (c === "n") return { ch: "\n" };
    if (c === "t") return { ch: "\t" };
    if (c === "r") return { ch: "\r" };
    if (c === "u" && src[i] === "{") { const j = src.indexOf("}", i); const v = String.fromCodePoint(parseInt(src.slice(i + 1, j), 16)); i = j + 1; return { ch: v }; }
    if (c === "u") { const v = String.fromCharCode(parseInt(src.slice(i, i + 4), 16)); i += 4; return { ch: v }; }
    if (c === "x") { const v = String.fromCharCode(parseInt(src.slice(i, i + 2), 16)); i += 2; return { ch: v }; }
    if (/[bBpPk1-9]/.test(c)) throw new RegexUnsupported("\\" + c);
    return { ch: c };
  }
  function cls() {
    let neg = false; const parts = [];
    if (src[i] === "^") { neg = true; i++; }
    while (src[i] !== "]") {
      if (i >= src.length) throw new RegexUnsupported("class");
      let a;
      if (src[i] === "\\") { i++; const e = escapeAtom(); if (e.set) { parts.push(...e.set); continue; } if (e.neg) { parts.push(compl(e.neg)); continue; } a = e.ch; } else a = src[i++];
      if (src[i] === "-" && src[i + 1] !== "]") {
        i++;
        let b; if (src[i] === "\\") { i++; b = escapeAtom().ch; } else b = src[i++];
        parts.push(...range(a, b));
      } else parts.push(chr(a));
    }
    i++;
    return neg ? compl(parts) : union(parts);
  }
  function atom() {
    const c = src[i];
    if (c === "(") {
      i++;
      let capture = true, name;
      if (src[i] === "?") {
        if (src[i + 1] === ":") { i += 2; capture = false; } else if (src[i + 1] === "<" && /[A-Za-z_]/.test(src[i + 2])) { const j = src.indexOf(">", i); name = src.slice(i + 2, j); i = j + 1; } else throw new RegexUnsupported("lookaround");
      }
      const g = capture ? { name } : null;
      if (g) groups.push(g);
      const r = alt();
      if (src[i] !== ")") throw new RegexUnsupported("group");
      i++;
      if (r.anchS || r.anchE) throw new RegexUnsupported("anchor in group");
      if (g) g.re = r.re;
      return r.re;
    }
    if (c === "[") { i++; return cls(); }
    if (c === ".") { i++; return flags.includes("s") ? ANY : compl(lineEnds); }
    if (c === "\\") { i++; const e = escapeAtom(); if (e.set) return union(e.set); if (e.neg) return compl(e.neg); return chr(e.ch); }
    i++;
    return chr(c);
  }
  function seq() {
    const parts = []; let anchS = false, anchE = false;
    while (i < src.length && src[i] !== "|" && src[i] !== ")") {
      if (src[i] === "^") { if (parts.length) throw new RegexUnsupported("^ inside"); anchS = true; i++; continue; }
      if (src[i] === "$") { i++; if (i < src.length && src[i] !== "|" && src[i] !== ")") throw new RegexUnsupported("$ inside"); anchE = true; continue; }
      const first = groups.length;
      let a = atom();
      const q = src[i], mayBeNone = q === "*" || q === "?" || (q === "{" && /^\{0[,}]/.test(src.slice(i)));
      if (q === "*") { a = `(re.* ${a})`; i++; } else if (q === "+") { a = `(re.+ ${a})`; i++; } else if (q === "?") { a = `(re.opt ${a})`; i++; } else if (q === "{") {
        const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i));
        if (m) {
          i += m[0].length;
          const lo = Number(m[1]);
          if (!m[2]) a = `((_ re.loop ${lo} ${lo}) ${a})`;
          else if (m[3] === "") a = `(re.++ ((_ re.loop ${lo} ${lo}) ${a}) (re.* ${a}))`;
          else a = `((_ re.loop ${lo} ${Number(m[3])}) ${a})`;
        }
      }
      if (mayBeNone) groups.slice(first).forEach((g) => { g.optional = true; });
      if (src[i] === "?") i++; // lazy: same language
      parts.push(a);
    }
    return { re: cat(parts), anchS, anchE, parts };
  }
  function alt() {
    const first = groups.length;
    const l = [seq()];
    while (src[i] === "|") { i++; l.push(seq()); }
    if (l.length > 1) groups.slice(first).forEach((g) => { g.optional = true; });
    if (l.length === 1) return l[0];
    if (l.some((x) => x.anchS || x.anchE)) return { alts: l, re: union(l.map((x) => x.re)), anchS: l.some((x) => x.anchS), anchE: l.some((x) => x.anchE) };
    return { re: union(l.map((x) => x.re)), anchS: false, anchE: false };
  }
  const r = alt();
  if (i < src.length) throw new RegexUnsupported("trailing");
  const multi = flags.includes("m");
  const before = multi ? `(re.opt (re.++ re.all ${union(lineEnds)}))` : null, after = multi ? `(re.opt (re.++ ${union(lineEnds)} re.all))` : null;
  const full = (x) => cat([...(x.anchS ? (before ? [before] : []) : ["re.all"]), x.re, ...(x.anchE ? (after ? [after] : []) : ["re.all"])]);
  return { full: r.alts ? union(r.alts.map(full)) : full(r), core: r.re, groups, anchored: r.anchS && r.anchE && !r.alts && !multi, anchS: r.anchS && !multi, anchE: r.anchE && !multi, parts: r.parts };
}

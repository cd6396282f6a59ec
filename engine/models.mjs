// Semantic models of packages outside the verified code. Each is an assumption, listed in the evidence when used.
import * as T from "./term.mjs";
import { Sym, Union, HObj, Acc, Seg, Mark, Poison, SeqBase, KeysBase, Unsupported, Infeasible, JSThrow, wrap, isStrV, isNumV, isBoolV } from "./values.mjs";
import { termOf, ABSENT } from "./engine.mjs";
import { model } from "./symshape.mjs";

const isFn = (v) => v instanceof HObj && v.kind === "Function";
model("etag", (eng) => { const f = eng.native("etag", (a) => { const v = eng.force(a[0]); const t = v instanceof HObj && v.kind === "Buffer" ? v.utf8 ?? v.raw : termOf(eng.toStr(v)); const r = T.uf("etag", [t], "String"); eng.assume(T.not(T.eq(r, T.strLit("")))); return wrap(r); }); const ns = { default: f }; return ns; });
import { Interp } from "./interp.mjs";
Object.assign(Interp.prototype, {
  // process, console: environment is bound per specification
  setupHostGlobals() {
    const env = this.newObj();
    this.envObj = env;
    const proc = this.newObj({ env });
    this.procObj = proc;
    const out = this.newObj();
    out.props.set("write", this.native("write", (a) => { this.record({ op: "call", name: "process.stdout.write", member: "write", args: this.arrayOf(a.slice()), self: undefined, result: true }); return true; }));
    proc.props.set("stdout", out);
    proc.props.set("exit", this.native("exit", () => this.unsupported("process.exit")));
    this.realm.globals.set("process", proc);
    const cons = this.newObj();
    for (const k of ["log", "info", "warn", "error", "debug"]) cons.props.set(k, this.native(k, (a) => { this.record({ op: "call", name: "console." + k, member: k, args: this.arrayOf(a.slice()), self: undefined, result: undefined }); return undefined; }));
    this.realm.globals.set("console", cons);
    this.realm.globals.set("performance", this.newObj({ now: this.native("now", () => this.clockNow()) }));
  },
  bindEnv(o) { this.envObj = o; this.setMap(this.procObj, this.procObj.props, "env", o); },
});

// ---------- dates: text of an instant in UTC is cut from its ISO form, other zones are opaque
const isoParts = { yyyy: [0, 4], MM: [5, 7], dd: [8, 10], HH: [11, 13], mm: [14, 16], ss: [17, 19], SSS: [20, 23] };
const formatDate = (eng, d, f, zone) => {
  if (!(d instanceof HObj) || d.kind !== "Date") d = eng.mkDate(eng.toNumeric(d));
  zone ??= d.tz ?? "local";
  const t = termOf(d.t);
  if (!t || (typeof d.t === "number" && Number.isNaN(d.t))) eng.throwError("RangeError", "Invalid time value");
  if (zone === "+00:00" || zone === "Etc/UTC" || zone === "GMT") zone = "UTC";
  if (zone !== "UTC" || typeof f !== "string") return wrap(T.uf("dateText", [T.strLit(typeof zone === "string" ? zone : "?"), termOf(zone) ?? T.strLit("?"), termOf(eng.toStr(f)), T.toReal(t)], "String"));
  const toks = f.match(/'[^']*'|([A-Za-z])\1*|[^A-Za-z']+/g) ?? [];
  const iso = termOf(eng.isoDate(d.t));
  const out = [];
  for (const tok of toks) {
    if (isoParts[tok]) out.push(termOf(eng.isoCut(iso, T.intLit(isoParts[tok][0]), T.intLit(isoParts[tok][1])) ?? wrap(T.uf("dateToken", [T.strLit(tok), T.toReal(t)], "String"))));
    else if (/^[A-Za-z]/.test(tok)) out.push(tok === "T" || tok === "Z" ? eng.throwError("RangeError", "Format string contains an unescaped latin alphabet character") : tok === "X" || tok === "XX" || tok === "XXX" ? T.strLit("Z") : T.uf("dateToken", [T.strLit(tok), T.toReal(t)], "String"));
    else out.push(T.strLit(tok.startsWith("'") ? tok.slice(1, -1) || "'" : tok));
  }
  return wrap(T.concatList(out));
};
const toD = (eng, v) => { v = eng.force(v); if (v instanceof HObj && v.kind === "Date") return v; if (v instanceof HObj || v === undefined || v === null) return eng.mkDate(NaN); return eng.construct(eng.realm.globals.get("Date"), [v], eng.realm.globals.get("Date")); };
const UNIT = { Milliseconds: 1, Seconds: 1000, Minutes: 60000, Hours: 3600000 };
model(["@date-fns/tz"], (eng) => {
  const C = eng.native("TZDate", () => eng.unsupported("TZDate()"), (a) => mk(a));
  const mk = (a) => { const zone = a.length > 1 ? a[a.length - 1] : "local"; const d = toD(eng, a[0]); const o = eng.mkDate(d.t, C.props.get("prototype")); o.tz = eng.force(zone); return o; };
  const proto = new HObj("Object", eng.realm.DateProto);
  C.props.set("prototype", proto);
  proto.props.set("constructor", C);
  return { TZDate: C, tz: (a) => eng.unsupported("tz()") };
});
model("date-fns", (eng) => {
  const m = {
    format: (a) => { const o = eng.force(a[2]); if (o instanceof HObj && eng.get(o, "in") !== undefined) eng.unsupported("format options"); return formatDate(eng, eng.force(a[0]), eng.force(a[1])); },
    formatISO: (a) => wrap(T.uf("formatISO", [T.toReal(termOf(toD(eng, a[0]).t))], "String")),
    isValid: (a) => { const d = eng.force(a[0]); return d instanceof HObj && d.kind === "Date" ? !(typeof eng.force(d.t) === "number" && Number.isNaN(eng.force(d.t))) : isNumV(d) && !Number.isNaN(d); },
    isBefore: (a) => eng.compare("<", toD(eng, a[0]).t, toD(eng, a[1]).t),
    isAfter: (a) => eng.compare("<", toD(eng, a[1]).t, toD(eng, a[0]).t),
    isEqual: (a) => eng.wrapB(eng.strictEq(toD(eng, a[0]).t, toD(eng, a[1]).t)),
    toDate: (a) => eng.mkDate(toD(eng, a[0]).t), parseISO: (a) => eng.mkDate(eng.dateParse(eng.toStr(a[0]))),
    differenceInMilliseconds: (a) => eng.arith("-", toD(eng, a[0]).t, toD(eng, a[1]).t),
  };
  for (const [u, n] of Object.entries({ ...UNIT, Days: 86400000 })) {
    m["add" + u] = (a) => eng.mkDate(eng.arith("+", toD(eng, a[0]).t, eng.arith("*", eng.toNumeric(a[1]), n)));
    m["sub" + u] = (a) => eng.mkDate(eng.arith("-", toD(eng, a[0]).t, eng.arith("*", eng.toNumeric(a[1]), n)));
    if (n > 1 && u !== "Days") m["differenceIn" + u] = (a) => {
      const q = eng.arith("/", eng.arith("-", toD(eng, a[0]).t, toD(eng, a[1]).t), n), o = eng.force(a[2]), how = o === undefined || o === null ? undefined : eng.force(eng.get(o, "roundingMethod"));
      if (how !== undefined && !["ceil", "floor", "round", "trunc"].includes(how)) eng.unsupported("rounding method");
      return how === undefined || how === "trunc" ? eng.trunc(q) : eng.call(eng.get(eng.realm.globals.get("Math"), how), undefined, [q]);
    };
  }
  return m;
});
// compression: decompressing what was compressed gives it back, anything else may fail
// digests: computed for known texts, otherwise uninterpreted with their length and alphabet
import nodeCrypto from "node:crypto";
import nodePath from "node:path";
model("crypto", (eng) => {
  const facts = { hex: ["0123456789abcdef", { md5: 32, sha1: 40, sha256: 64, sha512: 128 }] };
  const digest = (kind, alg, key) => {
    let text = T.strLit("");
    const h = eng.newObj();
    h.props.set("update", eng.native("update", (a) => { const v = eng.force(a[0]); text = T.concat(text, v instanceof HObj && v.kind === "Buffer" ? v.utf8 ?? v.raw : termOf(eng.toStr(v))); return h; }));
    h.props.set("digest", eng.native("digest", (a) => {
      const enc = a[0];
      if (enc !== undefined && typeof enc !== "string") eng.unsupported("digest encoding");
      if (T.isLit(text) && (!key || T.isLit(key)) && enc) return (key ? nodeCrypto.createHmac(alg, key.v) : nodeCrypto.createHash(alg)).update(text.v).digest(enc);
      const r = T.uf(`${kind}_${alg}_${enc ?? "bytes"}`, key ? [key, text] : [text], "String");
      if (!enc) return eng.mkBuf({ raw: r });
      const n = facts[enc]?.[1][alg];
      if (n) { eng.assume(T.eq(T.strLen(r), T.intLit(n))); eng.assume(T.app("in_re", [r], "Bool", '(re.* (re.union (re.range "0" "9") (re.range "a" "f")))')); }
      return wrap(r);
    }));
    return h;
  };
  return {
    randomUUID: () => { const n = (eng.clock.uuids ?? 0) + 1; eng.setField(eng.clock, "uuids", n); const u = T.mkVar("uuid" + n, "String"); eng.assume(T.eq(T.strLen(u), T.intLit(36))); return wrap(u); },
    createHash: (a) => { if (typeof a[0] !== "string") eng.unsupported("hash algorithm"); return digest("hash", a[0]); },
    createHmac: (a) => { if (typeof a[0] !== "string") eng.unsupported("hash algorithm"); return digest("hmac", a[0], termOf(eng.toStr(a[1]))); },
  };
});
model("path", (eng) => {
  const out = {};
  for (const n of ["basename", "dirname", "extname", "join", "normalize", "resolve", "relative", "isAbsolute"]) out[n] = (a) => { a = a.map((x) => eng.force(x));
    if (a.every((x) => typeof x === "string" || x === undefined)) return nodePath.posix[n](...a);
    if (n === "isAbsolute") eng.unsupported("isAbsolute of a symbolic path");
    return wrap(T.uf("path_" + n + a.length, a.map((x) => termOf(eng.toStr(x))), "String"));
  };
  out.sep = "/";
  return out;
});
model("zlib", (eng) => {
  const content = (v) => { v = eng.force(v); if (v instanceof HObj && v.kind === "Buffer") return v.utf8 ?? v.raw; return termOf(eng.toStr(v)); };
  const zip = (n) => (a) => eng.mkBuf({ raw: T.uf(n, [content(a[0])], "String") });
  const unzip = (n) => (a) => {
    const v = eng.force(a[0]);
    const t = content(v);
    if (v.raw && t.op === "uf" && t.name === n) return eng.mkBuf({ utf8: t.args[0] });
    if (!eng.branch(T.uf(n + "Ok", [t], "Bool"))) eng.throwError("Error", "incorrect header check");
    return eng.mkBuf({ utf8: T.uf("un" + n, [t], "String") });
  };
  return { gzipSync: zip("gzip"), gunzipSync: unzip("gzip"), deflateSync: zip("deflate"), inflateSync: unzip("deflate"), deflateRawSync: zip("deflateRaw"), inflateRawSync: unzip("deflateRaw"), brotliCompressSync: zip("brotli"), brotliDecompressSync: unzip("brotli"), unzipSync: unzip("gzip") };
});

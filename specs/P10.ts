// The logger: one JSON line per entry, with level, origin, fields and a readable message.
import { spec, str, num, int, bool, opt, or, lit, date, err, arr, obj, oneOf, json, same, implies, record } from "vf";
import { DtLogger } from "repo:lib/digitraffic-common/src/aws/runtime/dt-logger.ts";
import { logger as shared } from "repo:lib/digitraffic-common/src/aws/runtime/dt-logger-default.ts";

export const mocks = { "lib/digitraffic-common/src/aws/runtime/dt-logger-default.ts": null };
const stream = { write: (s: string) => { record("write", s); return true; } } as any;
const lines = (r: any) => r.trace.filter((e: any) => e.name === "write").map((e: any) => e.args[0]);
const entry = (r: any) => JSON.parse(lines(r)[0]);
const compact = (r: any) => r.ok && lines(r).length === 1 && lines(r)[0] === JSON.stringify(entry(r)) + "\n";
const env = { AWS_LAMBDA_FUNCTION_NAME: opt(str()), AWS_EXECUTION_ENV: opt(str()) };
const level = oneOf("info", "warn", "error");

export const origin = spec({
  target: "DtLogger",
  inputs: { level: oneOf("info", "warn", "error", "debug"), name: opt(str()), runTime: opt(str()), method: str(), message: str() },
  env,
  call: (i) => { new DtLogger({ lambdaName: i.name, runTime: i.runTime, writeStream: stream })[i.level as "info"]({ method: i.method as any, message: i.message }); },
  ensures: {
    oneLine: (o, r) => compact(r),
    level: (o, r) => entry(r).level === (o.level === "info" ? "INFO" : o.level === "warn" ? "WARN" : o.level === "error" ? "ERROR" : "DEBUG"),
    lambdaName: (o, r) => entry(r).lambdaName === (o.name ?? o.env.AWS_LAMBDA_FUNCTION_NAME ?? "unknown lambda name"),
    runtime: (o, r) => entry(r).runtime === (o.runTime ?? o.env.AWS_EXECUTION_ENV ?? "unknown runtime"),
  },
});
// the message starts with or mentions the method
const startOf = (o: any) => (o.message !== undefined && o.message !== "" && o.message.includes(o.method) ? o.message : `${o.method} ${o.message ?? ""}`);
export const message = spec({
  target: "DtLogger.log",
  inputs: { level, method: str(), message: opt(str()), tookMs: opt(num()), type: opt(str({ re: /^[a-z ]*$/ })) },
  call: (i) => { const m: any = { method: i.method, message: i.message, ...(i.tookMs !== undefined && { tookMs: i.tookMs }), ...(i.type !== undefined && { type: i.type }) }; new DtLogger({ writeStream: stream })[i.level as "info"](m); return m; },
  ensures: {
    oneLine: (o, r) => compact(r),
    method: (o, r) => entry(r).method === o.method && entry(r).type === o.type && entry(r).tookMs === o.tookMs,
    text: (o, r) => {
      const s = startOf(o);
      const extras = [...(o.tookMs !== undefined && !s.includes("tookMs=") ? [`tookMs=${o.tookMs}`] : []), ...(o.type !== undefined && !s.includes("type=") ? [`type=${o.type}`] : [])];
      return entry(r).message === s + (extras.length > 0 ? " " + extras.join(" ") : "");
    },
    callersObjectUntouched: (o, r) => same(r.value, { method: o.method, message: o.message, ...(o.tookMs !== undefined && { tookMs: o.tookMs }), ...(o.type !== undefined && { type: o.type }) }),
  },
});
// only a leading "custom" is a mark
export const names = spec({
  target: "DtLogger.log",
  inputs: { level, a: str(), b: str(), c: str(), d: str() },
  call: (i) => { new DtLogger({ lambdaName: "x", runTime: "y", writeStream: stream })[i.level as "info"]({ method: "some.method", message: "done", noncustomers: i.a, customPrecustomed: i.b, customCustomers: i.c, Customs: i.d } as any); },
  ensures: { kept: (o, r) => compact(r) && same({ ...entry(r), message: "" }, { method: "some.method", message: "", level: o.level === "info" ? "INFO" : o.level === "warn" ? "WARN" : "ERROR", lambdaName: "x", runtime: "y", noncustomers: o.a, precustomed: o.b, customers: o.c, Customs: o.d }) },
});
const quoted = (s: string) => (s.includes("=") ? JSON.stringify(s) : s);
const shown = (v: any) => (v === null ? "null" : v === undefined ? "undefined" : v instanceof Date ? (Number.isNaN(v.getTime()) ? "null" : v.toISOString()) : typeof v === "string" ? quoted(v) : typeof v === "bigint" ? `"${v}"` : String(v));
const stored = (v: any) => (v === null ? null : v === undefined ? undefined : v instanceof Date ? (Number.isNaN(v.getTime()) ? null : v.toISOString()) : typeof v === "bigint" ? String(v) : v);
const value = or(str(), num(), bool(), lit(null), lit(undefined), date(), date({ invalid: true }), lit(12345678901234567890n));
export const custom = spec({
  target: "DtLogger.log",
  inputs: { level, a: value, b: opt(value), other: opt(str()) },
  call: (i) => { new DtLogger({ writeStream: stream })[i.level as "info"]({ method: "some.method", message: "done", customAlpha: i.a, ...(i.b !== undefined && { customBetaGamma: i.b }), ...(i.other !== undefined && { xOther: i.other }) } as any); },
  ensures: {
    oneLine: (o, r) => compact(r),
    fields: (o, r) => same(entry(r).alpha, stored(o.a)) && same(entry(r).betaGamma, stored(o.b)) && entry(r).xOther === o.other && !("customAlpha" in entry(r)) && !("customBetaGamma" in entry(r)),
    text: (o, r) => entry(r).message === "some.method done" + ` alpha=${shown(o.a)}` + (o.b !== undefined ? ` betaGamma=${shown(o.b)}` : "") + (o.other !== undefined ? ` xOther=${quoted(o.other)}` : ""),
  },
});
export const errors = spec({
  target: "DtLogger.log",
  inputs: { level, e: or(err(), str({ min: 1 }), obj({ code: num(), why: str() }), arr(str(), { min: 1 })), stack: opt(str({ min: 1 })) },
  call: (i) => { new DtLogger({ writeStream: stream })[i.level as "info"]({ method: "some.method", message: "failed", error: i.e, stack: i.stack }); },
  ensures: {
    oneLine: (o, r) => compact(r),
    error: (o, r, i) => entry(r).error === (i.e instanceof Error ? `${i.e.name}: ${i.e.message}` : typeof i.e === "string" ? i.e : JSON.stringify(i.e)),
    stack: (o, r, i) => entry(r).stack === (o.stack ?? (i.e instanceof Error ? i.e.stack : undefined)),
    notInTheMessage: (o, r) => entry(r).message === "some.method failed",
  },
});
export const debug = spec({
  target: "DtLogger.debug",
  inputs: { m: or(str(), num(), bool(), lit(null), arr(str()), obj({ a: str(), b: opt(num()) })) },
  call: (i) => { new DtLogger({ lambdaName: "x", runTime: "y", writeStream: stream }).debug(i.m); },
  ensures: { line: (o, r) => compact(r) && same(entry(r), { message: o.m, level: "DEBUG", lambdaName: "x", runtime: "y" }) },
});
export const standardOutput = spec({
  target: "logger",
  inputs: {},
  call: () => [shared.writeStream === process.stdout, new DtLogger().writeStream === process.stdout, shared instanceof DtLogger],
  ensures: { byDefault: (o, r) => r.ok && same(r.value, [true, true, true]) },
});

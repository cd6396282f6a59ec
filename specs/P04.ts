// Texts written to the log: shortening keeps both ends of the bargain, exceptions are reported without being thrown again.
import { spec, str, int, bool, opt, or, lit, err, num, json, arr, dict, obj, same, implies, record } from "vf";
import { truncateEnd, truncateMiddle, logException, createExceptionLogger } from "repo:lib/digitraffic-common/src/utils/logging.ts";

const dropped = (s: string, max: number) => "[TRUNCATED " + String(s.length - max) + " CHARS]";
export const end = spec({
  target: "truncateEnd",
  inputs: { s: str(), max: int(1, 100000) },
  call: (i) => truncateEnd(i.s, i.max),
  ensures: {
    shortTextUnchanged: (o, r) => implies(o.s.length <= o.max, () => r.ok && r.value === o.s),
    neverLonger: (o, r) => r.ok && r.value.length <= o.s.length,
    unchangedOrMarked: (o, r) => r.value === o.s || r.value === o.s.slice(0, o.max).trim() + " " + dropped(o.s, o.max),
    longTextIsShortened: (o, r) => implies(o.s.length - o.max > dropped(o.s, o.max).length, () => r.value.endsWith(dropped(o.s, o.max))),
  },
});
export const middle = spec({
  target: "truncateMiddle",
  inputs: { s: str(), max: int(1, 100000) },
  call: (i) => truncateMiddle(i.s, i.max),
  ensures: {
    shortTextUnchanged: (o, r) => implies(o.s.length <= o.max, () => r.ok && r.value === o.s),
    neverLonger: (o, r) => r.ok && r.value.length <= o.s.length + 1,
    unchangedOrMarked: (o, r) => r.value === o.s || r.value === o.s.slice(0, Math.floor(o.max / 2)).trim() + " " + dropped(o.s, o.max) + " " + o.s.slice(o.s.length - Math.floor(o.max / 2)).trim(),
    longTextIsShortened: (o, r) => implies(o.s.length - o.max > dropped(o.s, o.max).length, () => r.value.includes(dropped(o.s, o.max))),
  },
});
export const defaultLimit = spec({
  target: ["truncateEnd", "truncateMiddle"],
  inputs: { s: str() },
  call: (i) => [truncateEnd(i.s), truncateMiddle(i.s)],
  ensures: { thousand: (o, r) => r.ok && r.value[0] === truncateEnd(o.s, 1000) && r.value[1] === truncateMiddle(o.s, 1000) },
});
export const noText = spec({
  target: ["truncateEnd", "truncateMiddle"],
  inputs: { s: or(lit(undefined), lit(null), lit("")), max: int(1, 100000) },
  call: (i) => [truncateEnd(i.s as any, i.max), truncateMiddle(i.s as any, i.max)],
  ensures: { empty: (o, r) => r.ok && r.value[0] === "" && r.value[1] === "" },
});

const recorder = { error: (m: any) => record("error", m), warn: (m: any) => record("warn", m), info: (m: any) => record("info", m), debug: (m: any) => record("debug", m) } as any;
const thrown = or(err(), str(), num(), bool(), lit(undefined), lit(null), arr(str()), dict(str()), obj({ code: num(), cause: opt(str()) }));
const text = (e: any) => (e instanceof Error ? e.message : typeof e === "string" ? e : JSON.stringify(e));
const oneError = (r: any, e: any, name: string) => r.ok && r.trace.length === 1 && r.trace[0].name === "error" && r.trace[0].args[0].message === `error=${text(e)}` && r.trace[0].args[0].type === "Error" && r.trace[0].args[0].method === `${name}.logException`;
export const exception = spec({
  target: "logException",
  inputs: { e: thrown, stack: opt(bool()) },
  env: { AWS_LAMBDA_FUNCTION_NAME: opt(str()) },
  call: (i) => { logException(recorder, i.e, i.stack); record("end"); },
  ensures: {
    loggedOnceNotRethrown: (o, r) => r.ok && r.trace.length === 2 && oneError({ ok: true, trace: r.trace.slice(0, 1) }, o.e, o.env.AWS_LAMBDA_FUNCTION_NAME ?? "test"),
    stackOnlyOnRequest: (o, r, i) => implies(o.stack !== true || !(o.e instanceof Error), () => r.trace[0].args[0].stack === undefined),
    stackOnRequest: (o, r, i) => implies(o.stack === true && o.e instanceof Error, () => r.trace[0].args[0].stack === i.e.stack),
  },
});
export const curried = spec({
  target: "createExceptionLogger",
  inputs: { e: thrown, stack: opt(bool()) },
  call: (i) => createExceptionLogger(recorder, i.stack)(i.e),
  ensures: {
    loggedOnceNotRethrown: (o, r) => oneError(r, o.e, "test"),
    stackAsConfigured: (o, r, i) => r.trace[0].args[0].stack === (o.stack === true && o.e instanceof Error ? i.e.stack : undefined),
  },
});
export const ownLogger = spec({
  target: "createExceptionLogger",
  inputs: { e: or(err(), lit(5)) },
  call: (i) => createExceptionLogger()(i.e),
  ensures: { loggedNotRethrown: (o, r) => r.ok },
});

// Time keeping: stop watches and lead times.
import { spec, str, num, int, anynum, bool, opt, or, lit, arr, obj, dict, oneOf, nullable, json, same, implies, advance, run } from "vf";
import { StopWatch } from "repo:lib/digitraffic-common/src/utils/stop-watch.ts";
import { logLeadTime, logLeadTimes } from "repo:lib/digitraffic-common/src/utils/lead-time-logging.ts";
export const mocks = { "lib/digitraffic-common/src/aws/runtime/dt-logger-default.ts": "./mocks/failing-logger.ts" };

// An arbitrary state of one task, as any history of operations leaves it: closed periods, their sum, and an open period while running.
const state = { done: arr(obj({ startTime: int(1), endTime: int(1), duration: int(0) })), total: int(0), running: bool(), since: int(1600000000000), name: str({ min: 1 }), other: str({ min: 1 }), wait: int(0, 1000000000) };
const enter = (i: any) => {
  const sw = new StopWatch();
  sw.start(i.name);
  const rec: any = sw.getTask(i.name);
  rec.periods = i.running ? [...i.done, { startTime: i.since }] : [...i.done];
  rec.totalDuration = i.total;
  rec.isRunning = i.running;
  return sw;
};
const req = (o: any) => o.since <= o.now;
const dur = (o: any) => o.total + (o.running ? o.now - o.since : 0);
export const duration = spec({
  target: "StopWatch.getDuration",
  inputs: state, requires: req,
  call: (i) => { const sw = enter(i); const a = sw.getDuration(i.name); advance(i.wait); return [a, sw.getDuration(i.name), sw.getDuration(i.other), sw.getTask(i.name)!.isRunning]; },
  ensures: {
    sum: (o, r) => r.ok && r.value[0] === dur(o),
    growsOnlyWhileRunning: (o, r) => r.value[1] === dur(o) + (o.running ? o.wait : 0),
    unknownIsZero: (o, r) => implies(o.other !== o.name, () => r.value[2] === 0),
    unchanged: (o, r) => r.value[3] === o.running,
  },
});
export const stop = spec({
  target: "StopWatch.stop",
  inputs: state, requires: req,
  call: (i) => { const sw = enter(i); sw.stop(i.name); const rec = sw.getTask(i.name)!; const d = sw.getDuration(i.name); advance(i.wait); return { d, later: sw.getDuration(i.name), total: rec.totalDuration, running: rec.isRunning, periods: rec.periods }; },
  ensures: {
    keepsDuration: (o, r) => r.ok && r.value.d === dur(o) && r.value.later === dur(o) && r.value.total === dur(o),
    stopped: (o, r) => r.value.running === false,
    closesThePeriod: (o, r) => same(r.value.periods, o.running ? [...o.done, { startTime: o.since, endTime: o.now, duration: o.now - o.since }] : o.done),
  },
});
export const start = spec({
  target: "StopWatch.start",
  inputs: state, requires: req,
  call: (i) => { const sw = enter(i); sw.start(i.name); const rec = sw.getTask(i.name)!; const d = sw.getDuration(i.name); const periods = rec.periods.map((p) => ({ ...p })); advance(i.wait); return { d, later: sw.getDuration(i.name), total: rec.totalDuration, running: rec.isRunning, periods }; },
  ensures: {
    keepsDuration: (o, r) => r.ok && r.value.d === dur(o) && r.value.total === dur(o),
    runs: (o, r) => r.value.running === true && r.value.later === dur(o) + o.wait,
    opensAPeriod: (o, r) => same(r.value.periods, [...o.done, ...(o.running ? [{ startTime: o.since, endTime: o.now, duration: o.now - o.since }] : []), { startTime: o.now }]),
  },
});
export const others = spec({ // operations on one task leave every other task alone
  target: ["StopWatch.start", "StopWatch.stop", "StopWatch.reset"],
  inputs: { ...state, op: oneOf("start", "stop", "restart", "reset") },
  requires: (o) => req(o) && o.name !== o.other,
  call: (i) => {
    const sw = enter(i);
    sw.start(i.other);
    if (i.op === "start") sw.start(i.other);
    else if (i.op === "stop") sw.stop(i.other);
    else if (i.op === "restart") sw.stop(i.other).start(i.other);
    else sw.reset(i.other);
    const rec = sw.getTask(i.name)!;
    return { d: sw.getDuration(i.name), running: rec.isRunning, total: rec.totalDuration, periods: rec.periods, other: sw.getTask(i.other) !== undefined };
  },
  ensures: {
    untouched: (o, r) => r.ok && r.value.d === dur(o) && r.value.running === o.running && r.value.total === o.total && same(r.value.periods, o.running ? [...o.done, { startTime: o.since }] : o.done),
    onlyResetForgets: (o, r) => r.value.other === (o.op !== "reset"),
  },
});
export const fresh = spec({
  target: ["StopWatch.createStarted", "StopWatch.stop", "StopWatch.reset"],
  inputs: { name: str({ min: 1 }), other: str({ min: 1 }), wait: int(0, 1000000000) },
  requires: (o) => o.name !== o.other && o.name !== "DEFAULT_INTERNAL_TASK", // the name kept for the unnamed task
  call: (i) => {
    const sw = StopWatch.createStarted(i.name);
    const d = StopWatch.createStarted();
    advance(i.wait);
    const unknown = run(() => sw.stop(i.other));
    const before = [sw.getDuration(i.name), d.getDuration()];
    const tasks = [sw.getTasks().map((t) => t.taskName), d.getTasks().length];
    return { before, unknown: unknown.ok, tasks, after: [sw.reset(i.name).getDuration(i.name), d.reset().getDuration()] };
  },
  ensures: {
    startsAtZero: (o, r) => r.ok && same(r.value.before, [o.wait, o.wait]),
    unknownIsAnError: (o, r) => r.value.unknown === false,
    defaultIsNotListed: (o, r) => same(r.value.tasks[0], [o.name]) && r.value.tasks[1] === 0,
    reset: (o, r) => same(r.value.after, [0, 0]),
  },
});
export const logTasks = spec({
  target: "StopWatch.logTasks",
  bounded: "at most two named tasks and the default task",
  inputs: { a: nullable(str({ re: /^[a-m]+$/ })), b: nullable(str({ re: /^[n-z]+$/ })), dflt: bool(), again: bool(), w1: int(0, 100000), w2: int(0, 100000), w3: int(0, 100000), method: str(), level: opt(oneOf("debug", "info", "warn", "error")) },
  call: (i) => {
    const sw = new StopWatch();
    if (i.a !== null) sw.start(i.a);
    if (i.dflt) sw.start();
    advance(i.w1);
    if (i.b !== null) sw.start(i.b);
    if (i.a !== null) sw.stop(i.a);
    advance(i.w2);
    if (i.again && i.a !== null) sw.start(i.a); // runs for the second time
    if (i.again && i.b !== null) sw.stop(i.b);
    advance(i.w3);
    sw.logTasks(i.method as any, i.level);
  },
  ensures: {
    entries: (o, r) => r.ok && same(r.trace.map((e: any) => [e.name, e.args[0]]), [
      ...(o.a !== null ? [["log." + (o.level ?? "info"), { method: o.method, customTask: o.a, tookMs: o.w1 + (o.again ? o.w3 : 0) }]] : []),
      ...(o.b !== null ? [["log." + (o.level ?? "info"), { method: o.method, customTask: o.b, tookMs: o.w2 + (o.again ? 0 : o.w3) }]] : []),
      ...(o.dflt ? [["log." + (o.level ?? "info"), { method: o.method, customTask: o.method, tookMs: o.w1 + o.w2 + o.w3 }]] : []),
    ]),
  },
});
const extra = opt(obj({ customA: opt(or(str(), num())), customName: opt(str()), tookMs: opt(num()), customBroken: opt(bool()) }));
const entry = (name: string, target: string, ms: number, x: any) => ({ ...(x ?? {}), method: "LeadTimeLogging.logLeadTime", customLeadTime: true, customName: name, customTarget: target, tookMs: ms });
export const leadTime = spec({
  target: "logLeadTime",
  inputs: { name: oneOf("lead-time", "process-time", "mqtt-time"), target: str(), ms: num(), extra },
  call: (i) => logLeadTime(i.name as any, i.target, i.ms, i.extra as any),
  ensures: {
    neverThrows: (o, r) => r.ok,
    oneEntry: (o, r) => r.trace.length === 1,
    entry: (o, r) => implies(o.extra?.customBroken !== true, () => r.trace[0].name === "log.info" && same(r.trace[0].args[0], entry(o.name, o.target, o.ms, o.extra))),
    failure: (o, r) => implies(o.extra?.customBroken === true, () => r.trace[0].name === "log.error"),
  },
});
const safe = (n: any) => typeof n === "number" && Number.isInteger(n) && Math.abs(n) <= 9007199254740991;
export const leadTimes = spec({
  target: "logLeadTimes",
  inputs: { target: str(), lead: opt(or(int(), anynum())), proc: opt(or(int(), anynum())), extra: opt(obj({ customA: opt(str()) })) },
  call: (i) => logLeadTimes({ target: i.target, leadTimeMs: i.lead, processTimeMs: i.proc, extraFields: i.extra as any }),
  ensures: {
    entries: (o, r) => r.ok && same(r.trace.map((e: any) => e.args[0]), [...(safe(o.lead) ? [entry("lead-time", o.target, o.lead!, o.extra)] : []), ...(safe(o.proc) ? [entry("process-time", o.target, o.proc!, o.extra)] : [])]),
  },
});

// Alarms of functions: what is watched, at what limit, who is told, and when they may be left out.
import { spec, str, int, num, bool, opt, or, lit, obj, oneOf, same } from "vf";
import { stackOf, made, alarms, ALARM, WARNING } from "./infra.ts";
import { Duration } from "./mocks/cdk.ts";
import { FunctionBuilder } from "repo:lib/digitraffic-common/src/aws/infra/stack/dt-function.ts";
import { DtFunctionAlarms } from "repo:lib/digitraffic-common/src/aws/infra/stack/dt-function-alarms.ts";
import { MonitoredFunction } from "repo:lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts";
const stack = { production: bool(), trafficType: or(lit("Marine"), lit(null)), shortName: str({ min: 1 }) };
const stackFor = (i: any) => stackOf({ production: i.production, trafficType: i.trafficType, shortName: i.shortName });
const limits = { threshold: opt(num()), evaluationPeriods: opt(int(1)), datapointsToAlarm: opt(int(1)), comparisonOperator: opt(oneOf("GreaterThanThreshold", "LessThanThreshold")) };
// one alarm is as it should be: measured of the function, told to the right topic, with its own or the given limits
const METRIC: any = { Duration: "Duration", "Duration-Warning": "Duration", Errors: "Errors", Throttles: "Throttles" };
const TITLE: any = { Duration: "Duration alarm", "Duration-Warning": "Duration warning", Errors: "Errors alarm", Throttles: "Throttles alarm" };
const sound = (a: any, kind: string, o: any, fn: any, g: any, limit: number) =>
  a.metric === METRIC[kind] && a.of === fn && (!kind.startsWith("Duration") || a.metricProps.statistic === "max")
  && same(a.to, [o.production && kind !== "Duration-Warning" ? ALARM : WARNING])
  && a.alarmName === `${o.trafficType === null ? "" : o.trafficType + " "}TheStack ${fn.functionName} ${TITLE[kind]}`
  && a.threshold === (g?.threshold ?? limit) && a.evaluationPeriods === (g?.evaluationPeriods ?? 1) && a.datapointsToAlarm === (g?.datapointsToAlarm ?? 1);
// an alarm goes off exactly when the measured count or time is at least so much
const atLeast = (a: any, g: any, n: number) => (g?.threshold !== undefined || g?.comparisonOperator !== undefined ? a.comparisonOperator === (g?.comparisonOperator ?? a.comparisonOperator) : (a.comparisonOperator === "GreaterThanOrEqualToThreshold" && a.threshold === n) || (a.comparisonOperator === "GreaterThanThreshold" && n === 1 && a.threshold === 0));
const find = (r: any, kind: string) => alarms(r).filter((a: any) => a.id === `${made(r, "Function")[0].id}-${kind}`);
const given = opt(obj({ create: bool(), ...limits }));
const one = (kind: string, key: string, limit: (s: number) => number) => (o: any, r: any) => {
  const found = find(r, kind), g = o.given;
  if (!r.ok) return true;
  if (g !== undefined && !g.create) return found.length === 0;
  // counts are whole, so "more than 0" is "at least 1"
  return found.length === 1 && sound(found[0], kind, o, r.value, g, kind === "Throttles" && found[0].threshold === 0 ? 0 : limit(o.seconds)) && atLeast(found[0], g, limit(o.seconds));
};
const monitored = (key: string, kind: string, limit: (s: number) => number) => ({
  target: "MonitoredFunction.create",
  inputs: { ...stack, seconds: int(1, 900), given },
  call: (i: any) => MonitoredFunction.create(stackFor(i), "Fn", { functionName: "the-function", timeout: Duration.seconds(i.seconds) } as any, i.given === undefined ? undefined : ({ [key]: i.given } as any)),
  ensures: {
    watched: one(kind, key, limit),
    others: (o: any, r: any) => r.ok && alarms(r).length === (o.given !== undefined && !o.given.create ? 3 : 4),
  },
});
export const duration = spec(monitored("durationAlarmProps", "Duration", (s) => s * 1000));
export const nearTimeout = spec(monitored("durationWarningProps", "Duration-Warning", (s) => s * 850));
export const errors = spec(monitored("errorAlarmProps", "Errors", () => 1));
export const throttles = spec(monitored("throttleAlarmProps", "Throttles", () => 1));
export const required = spec({
  target: "MonitoredFunction.create",
  inputs: { ...stack, named: bool(), timed: bool(), disabled: bool(), long: bool(), near: bool() },
  call: (i) => MonitoredFunction.create(stackFor(i), "Fn", { functionName: i.named ? "the-function" : undefined, timeout: i.timed ? Duration.seconds(10) : undefined } as any, i.disabled ? MonitoredFunction.DISABLE_ALARMS : { durationAlarmProps: { create: i.long }, durationWarningProps: { create: i.near } }),
  ensures: {
    refused: (o, r) => r.ok === (o.named && !(o.disabled && o.production) && (o.timed || o.disabled || (!o.long && !o.near))),
    none: (o, r) => !r.ok || alarms(r).length === (o.disabled ? 0 : 2 + (o.long ? 1 : 0) + (o.near ? 1 : 0)),
  },
});
// the builder
const full = obj({ threshold: opt(num()), evaluationPeriods: int(1), datapointsToAlarm: int(1), comparisonOperator: oneOf("GreaterThanThreshold", "LessThanThreshold") });
const built = (method: string, kind: string, limit: (s: number) => number) => ({
  target: ["FunctionBuilder.build", "DtFunctionAlarms"],
  inputs: { ...stack, seconds: int(1, 900), change: oneOf("keep", "off", "own"), own: full },
  call: (i: any) => {
    const a: any = new DtFunctionAlarms();
    if (i.change === "off") a[method](undefined);
    if (i.change === "own") a[method](i.own);
    return FunctionBuilder.plain(stackFor(i), "fn").withTimeout(Duration.seconds(i.seconds)).withAlarms(a).build();
  },
  ensures: {
    watched: (o: any, r: any) => {
      const found = find(r, kind), g = o.change === "own" ? o.own : undefined;
      if (!r.ok || alarms(r).length !== (o.change === "off" ? 3 : 4)) return false;
      if (o.change === "off") return found.length === 0;
      return found.length === 1 && sound(found[0], kind, o, r.value, g, limit(o.seconds)) && atLeast(found[0], g, limit(o.seconds));
    },
  },
});
export const builtDuration = spec(built("withDurationAlarm", "Duration", (s) => s * 1000));
export const builtNear = spec(built("withDurationWarning", "Duration-Warning", (s) => s * 850));
export const builtErrors = spec(built("withErrorAlarm", "Errors", () => 1));
export const builtThrottles = spec(built("withThrottleAlarm", "Throttles", () => 1));
export const byDefault = spec({
  target: "FunctionBuilder.build",
  inputs: { ...stack, seconds: int(1, 900) },
  call: (i) => FunctionBuilder.plain(stackFor(i), "fn").withTimeout(Duration.seconds(i.seconds)).build(),
  ensures: { all: (o, r) => r.ok && alarms(r).length === 4 && ["Duration", "Duration-Warning", "Errors", "Throttles"].every((k) => { const [a] = find(r, k); const n = k === "Duration" ? o.seconds * 1000 : k === "Duration-Warning" ? o.seconds * 850 : 1; return sound(a, k, o, r.value, undefined, n) && atLeast(a, undefined, n); }) },
});

// A stack and its small parts: references, environments, secrets, shared values, subscriptions, schedules and access to buckets.
import { spec, str, int, bool, opt, or, lit, arr, tuple, obj, oneOf, dict, same, record } from "vf";
import { stackOf, made, recorded, distinct, topicName, ALARM, WARNING } from "./infra.ts";
import { Function as Fun, Bucket, Schedule, Duration } from "./mocks/cdk.ts";
import { StackCheckingAspect } from "repo:lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts";
import { importVpc, importValue, exportValue } from "repo:lib/digitraffic-common/src/aws/infra/import-util.ts";
import { getParameterValue, createParameter } from "repo:lib/digitraffic-common/src/aws/infra/stack/parameters.ts";
import { createSubscription, DigitrafficLogSubscriptions } from "repo:lib/digitraffic-common/src/aws/infra/stack/subscription.ts";
import { Scheduler } from "repo:lib/digitraffic-common/src/aws/infra/scheduler.ts";
import { DigitrafficSecurityRule } from "repo:lib/digitraffic-common/src/aws/infra/security-rule.ts";
import { grantOACRights, grantOAIRights } from "repo:lib/digitraffic-common/src/aws/infra/bucket-policy.ts";
const conf = obj({ shortName: str({ min: 1 }), secretId: opt(str()), vpcId: opt(str()), lambdaDbSgId: opt(str()), privateSubnetIds: opt(arr(str())), availabilityZones: opt(arr(str())), whitelistedResources: opt(arr(str())) });
export const stack = spec({
  target: "DigitrafficStack",
  inputs: { conf, application: str() },
  call: (i) => {
    const s = stackOf(i.conf) as any;
    return { s, own: s.createLambdaEnvironment(), other: s.createDefaultLambdaEnvironment(i.application) };
  },
  ensures: {
    references: (o, r) => {
      const s = r.value.s, c = o.conf;
      return r.ok && (c.secretId ? s.getSecret().secretName === c.secretId && s.secret === s.getSecret() : s.secret === undefined) && (c.vpcId ? s.vpc.vpcId === c.vpcId && same(s.vpc.availabilityZones, c.availabilityZones ?? []) && same(s.vpc.privateSubnets.map((x: any) => x.subnetId), c.privateSubnetIds ?? []) : s.vpc === undefined) && (c.lambdaDbSgId ? s.lambdaDbSg.securityGroupId === c.lambdaDbSgId : s.lambdaDbSg === undefined);
    },
    topics: (o, r) => topicName(r.value.s.alarmTopic) === ALARM && topicName(r.value.s.warningTopic) === WARNING,
    environment: (o, r) => { const e = (a: string) => (o.conf.secretId ? { SECRET_ID: o.conf.secretId, DB_APPLICATION: a } : { DB_APPLICATION: a }); return same(r.value.own, e(o.conf.shortName)) && same(r.value.other, e(o.application)); },
    checked: (o, r) => { const a = recorded(r, "aspect"); return a.length === 1 && a[0][0] === r.value.s && a[0][1] instanceof StackCheckingAspect && a[0][1].stackShortName === o.conf.shortName && same(a[0][1].whitelistedResources, o.conf.whitelistedResources); },
  },
});
export const secrets = spec({
  target: ["DigitrafficStack.grantSecret", "DigitrafficStack.getSecret"],
  inputs: { secretId: opt(str()), names: arr(str()) },
  call: (i) => { const s = stackOf({ secretId: i.secretId }); const fs = i.names.map((n: string) => ({ name: n })); s.grantSecret(...fs); },
  ensures: {
    refused: (o, r) => r.ok === !!o.secretId,
    granted: (o, r) => same(recorded(r, "grantSecret").map((g: any) => [g[0], g[1].name]), r.ok ? o.names.map((n: string) => ["Secret", n]) : []),
  },
});
// values shared between stacks
export const outputs = spec({
  target: ["exportValue", "importValue", "importVpc"],
  inputs: { environment: str(), name: str(), value: str() },
  call: (i) => { const s = stackOf({}); exportValue(s, i.environment, i.name, i.value); return { value: importValue(i.environment, i.name), vpc: importVpc(s, i.environment) as any }; },
  ensures: {
    exported: (o, r) => { const [x] = made(r, "CfnOutput"); return r.ok && made(r, "CfnOutput").length === 1 && x.props.value === o.value && r.value.value === `import(${x.props.exportName})` && x.props.exportName === `digitraffic-${o.environment}-${o.name}`; },
    network: (o, r) => { const v = r.value.vpc, n = (x: string) => `import(digitraffic-${o.environment}-${x})`; return v.vpcId === n("VPCID") && same(v.privateSubnets.map((x: any) => x.subnetId), ["A", "B"].map((x) => n(`digitrafficprivate${x}Subnet`))) && same(v.availabilityZones, ["euw1-az1", "euw1-az2"]); },
  },
});
const names = ["cluster.reader", "cluster.writer", "cluster.identifier", "proxy.reader", "proxy.writer"] as const;
const kind = or(...names.map((n) => lit(n)));
export const parameters = spec({
  target: ["createParameter", "getParameterValue"],
  inputs: { a: kind, b: kind, value: str() },
  call: (i) => { const s = stackOf({}); return { a: createParameter(s, i.a as any, i.value) as any, b: getParameterValue(s, i.b as any), alarm: getParameterValue(s, "topic.alarm"), warning: getParameterValue(s, "topic.warning") }; },
  ensures: {
    written: (o, r) => r.ok && made(r, "StringParameter").length === 1 && r.value.a.stringValue === o.value && r.value.a.parameterName.startsWith("/digitraffic/db/"),
    read: (o, r) => (r.value.b === `ssm(${r.value.a.parameterName})`) === (o.a === o.b),
    topics: (o, r) => r.value.alarm === ALARM && r.value.warning === WARNING,
  },
});
export const constructs = spec({
  target: "createParameter",
  inputs: { value: str() },
  call: (i) => { const s = stackOf({}); names.forEach((n) => { createParameter(s, n, i.value + n); }); },
  ensures: { apart: (o, r) => { const p = made(r, "StringParameter"); return r.ok && p.length === 5 && distinct(p.map((x: any) => x.id)) && distinct(p.map((x: any) => x.props.parameterName)) && same(p.map((x: any) => x.props.stringValue), names.map((n) => o.value + n)); } },
});
// logs delivered elsewhere
export const subscriptions = spec({
  target: "DigitrafficLogSubscriptions",
  inputs: { destination: opt(str()), names: arr(str()) },
  call: (i) => { new DigitrafficLogSubscriptions(stackOf({ logsDestinationArn: i.destination }), ...i.names.map((n: string) => ({ givenName: n, logGroup: { logGroupName: `logs of ${n}` } })) as any[]); },
  ensures: {
    filters: (o, r) => r.ok && same(made(r, "CfnSubscriptionFilter").map((f: any) => [f.id, f.props]), o.destination === undefined ? [] : o.names.map((n: string) => [`${n}LogsSubscription`, { logGroupName: `logs of ${n}`, filterPattern: "", destinationArn: o.destination }])),
    after: (o, r) => same(recorded(r, "dependency").map((d: any) => [d[0], d[1].givenName]), o.destination === undefined ? [] : o.names.map((n: string) => [`${n}LogsSubscription`, n])),
  },
});
export const single = spec({
  target: "createSubscription",
  inputs: { destination: or(lit(undefined), lit(null), str()), name: str(), group: str() },
  call: (i) => createSubscription({ logGroup: { logGroupName: i.group } } as any, i.name, i.destination as any, stackOf({})) as any,
  ensures: { one: (o, r) => { const f = made(r, "CfnSubscriptionFilter"); return r.ok && (o.destination == null ? r.value === undefined && f.length === 0 : f.length === 1 && r.value === f[0].it && f[0].id === `${o.name}LogsSubscription` && same(f[0].props, { logGroupName: o.group, filterPattern: "", destinationArn: o.destination }) && recorded(r, "dependency").length === 1 && recorded(r, "dependency")[0][1].logGroup.logGroupName === o.group); } },
});
// schedules
export const schedules = spec({
  target: "Scheduler",
  inputs: { kind: oneOf("minute", "minutes", "hour", "day", "every", "own"), name: str(), minutes: int(1, 100000), lambda: bool() },
  call: (i) => {
    const s = stackOf({}), f = i.lambda ? ({ name: "the function" } as any) : undefined;
    return (i.kind === "minute" ? Scheduler.everyMinute(s, i.name, f) : i.kind === "minutes" ? Scheduler.everyMinutes(s, i.name, i.minutes, f) : i.kind === "hour" ? Scheduler.everyHour(s, i.name, f) : i.kind === "day" ? Scheduler.everyDay(s, i.name, f) : i.kind === "every" ? Scheduler.every(s, i.name, Duration.seconds(i.minutes) as any, f) : new Scheduler(s, i.name, Schedule.expression("the expression") as any, f)) as any;
  },
  ensures: {
    rule: (o, r) => { const m = made(r, "Rule"); return r.ok && m.length === 1 && m[0].it === r.value && m[0].id === o.name && m[0].props.ruleName === o.name; },
    when: (o, r) => { const e = made(r, "Rule")[0].props.schedule.expression; return o.kind === "own" ? e === "the expression" : e.rate === (o.kind === "minute" ? 60000 : o.kind === "minutes" ? o.minutes * 60000 : o.kind === "hour" ? 3600000 : o.kind === "day" ? 86400000 : o.minutes * 1000); },
    what: (o, r) => { const t = recorded(r, "target"); return o.lambda ? t.length === 1 && t[0][0] === o.name && t[0][1] === "lambda" && t[0][2].name === "the function" : t.length === 0; },
  },
});
export const security = spec({
  target: "DigitrafficSecurityRule",
  inputs: { topic: str() },
  call: (i) => { new DigitrafficSecurityRule(stackOf({}), { topicArn: i.topic } as any); },
  ensures: {
    findings: (o, r) => { const m = made(r, "Rule"); const p = m[0].props.eventPattern, f = p.detail.findings; return r.ok && m.length === 1 && same(p.source, ["aws.securityhub"]) && same(p.detailType, ["Security Hub Findings - Imported"]) && same(f.Compliance.Status, ["FAILED"]) && same(f.Workflow.Status, ["NEW"]) && same([...f.Severity.Label].sort(), ["CRITICAL", "HIGH"]); },
    told: (o, r) => { const t = recorded(r, "target"); return t.length === 1 && t[0][0] === made(r, "Rule")[0].id && t[0][1] === "topic" && t[0][2].topicArn === o.topic; },
  },
});
// access to buckets
export const buckets = spec({
  target: ["grantOACRights", "grantOAIRights"],
  inputs: { old: bool(), who: str(), resources: opt(arr(str())), actions: opt(arr(str())), deny: opt(bool()) },
  call: (i) => {
    const bucket = new Bucket(stackOf({}), "bucket", {}) as any, effect = (i.deny === undefined ? undefined : i.deny ? "Deny" : "Allow") as any, more = { bucket, resources: i.resources, actions: i.actions, effect };
    if (i.old) grantOAIRights({ ...more, canonicalUserId: i.who }); else grantOACRights({ ...more, distributionArn: i.who });
    return bucket.bucketArn;
  },
  ensures: {
    one: (o, r) => { const p = recorded(r, "bucketPolicy"); return r.ok && p.length === 1 && p[0][0] === "bucket" && p[0][1].effect === (o.deny ? "Deny" : "Allow") && same(p[0][1].resources, o.resources ?? [`${r.value}/*`]) && same(p[0][1].actions, o.actions ?? ["s3:GetObject"]); },
    who: (o, r) => { const s = recorded(r, "bucketPolicy")[0][1]; return s.principals.length === 1 && (o.old ? s.principals[0].kind === "canonical" && s.principals[0].name === o.who && s.conditions === undefined : s.principals[0].kind === "service" && s.principals[0].name === "cloudfront.amazonaws.com" && same(s.conditions, { StringEquals: { "AWS:SourceArn": o.who } })); },
  },
});

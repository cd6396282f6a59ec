// Canaries: what they run, how often, with which rights, network and settings, and who is told when they fail.
import { spec, str, int, bool, opt, or, lit, arr, tuple, obj, oneOf, same } from "vf";
import { stackOf, made, recorded, alarms, app } from "./infra.ts";
import { Duration, Role, Runtime, Schedule as EventSchedule } from "./mocks/cdk.ts";
import { DigitrafficCanary } from "repo:lib/digitraffic-common/src/aws/infra/canaries/canary.ts";
import { DigitrafficCanaryRole } from "repo:lib/digitraffic-common/src/aws/infra/canaries/canary-role.ts";
import { UrlCanary } from "repo:lib/digitraffic-common/src/aws/infra/canaries/url-canary.ts";
import { DatabaseCanary } from "repo:lib/digitraffic-common/src/aws/infra/canaries/database-canary.ts";
export const mocks = {};
const role = (s: any): any => new Role(s, "a role", {});
const alarm = obj({ alarmName: opt(str()), description: opt(str()), evalutionPeriods: opt(int(1)), threshold: opt(int(0)), topicArn: opt(str()) });
const own = (r: any) => made(r, "Canary");
const roleRights = (r: any) => recorded(r, "rolePolicy").map((x: any) => x[1]);
const managed = (r: any) => recorded(r, "managedPolicy").map((x: any) => x[1]);
export const canary = spec({
  target: ["DigitrafficCanary", "CanaryAlarm"],
  inputs: { id: str(), name: str(), handler: str(), minutes: opt(int(1)), puppeteer: bool(), alarm: opt(alarm), given: opt(obj({ A: str(), B: opt(str()) })), env: obj({ A: opt(str()), C: str() }) },
  call: (i) => { const s = app(); new DigitrafficCanary(s, i.id, role(s), { name: i.name, handler: i.handler, schedule: i.minutes === undefined ? undefined : (EventSchedule.rate(Duration.minutes(i.minutes)) as any), runtime: i.puppeteer ? (Runtime.NODEJS_20_X as any) : undefined, alarm: i.alarm, canaryEnv: i.given as any }, i.env as any); },
  ensures: {
    runs: (o, r) => { const c = own(r), p = c[0].props; return r.ok && c.length === 1 && c[0].id === o.id && p.canaryName === o.id && p.role.node.id === "a role" && p.test.handler === o.handler && p.schedule.expression.rate === (o.minutes ?? 15) * 60000 && (o.puppeteer ? p.runtime === Runtime.NODEJS_20_X : p.runtime === (Runtime as any).SYNTHETICS_NODEJS_PUPPETEER_13_0); },
    environment: (o, r) => same(own(r)[0].props.environmentVariables, { A: o.given ? o.given.A : o.env.A, B: o.given?.B, C: o.env.C }),
    stores: (o, r) => same(recorded(r, "grantWrite").map((x: any) => [x[0], x[1].node.id]), [[`artifacts(${o.id})`, "a role"]]),
    alarm: (o, r) => {
      const a = alarms(r), x = a[0];
      return a.length === 1 && x.alarmName === (o.alarm?.alarmName ?? `${o.name}-alarm`) && x.id === x.alarmName && x.alarmDescription === (o.alarm?.description ?? "") && x.metric === "SuccessPercent" && x.of === own(r)[0].it && x.evaluationPeriods === (o.alarm?.evalutionPeriods ?? 1) && x.threshold === (o.alarm?.threshold ?? 100) && x.comparisonOperator === "LessThanThreshold" && same(x.to, o.alarm?.topicArn ? [o.alarm.topicArn] : []);
    },
  },
});
export const rights = spec({
  target: ["DigitrafficCanaryRole"],
  inputs: { name: str(), db: bool(), vpc: bool(), api: bool() },
  call: (i) => { const x: any = new DigitrafficCanaryRole(app(), i.name); if (i.db && x.withDatabaseAccess() !== x) throw new Error(); if (i.vpc && x.withVpcAccess() !== x) throw new Error(); if (i.api && x.withApiGatewayAccess() !== x) throw new Error(); },
  ensures: {
    role: (o, r) => { const m = made(r, "Role"); return r.ok && m.length === 1 && m[0].id === `canary-role-${o.name}` && m[0].props.assumedBy.name === "lambda.amazonaws.com" && same(m[0].props.managedPolicies.map((x: any) => x.name), ["CloudWatchSyntheticsFullAccess"]); },
    network: (o, r) => managed(r).length === (o.db ? 1 : 0) + (o.vpc ? 1 : 0) && managed(r).every((x: any) => x === "service-role/AWSLambdaVPCAccessExecutionRole"),
    logs: (o, r) => roleRights(r).some((x: any) => ["logs:CreateLogStream", "logs:PutLogEvents", "logs:CreateLogGroup"].every((a) => x.actions.includes(a)) && x.effect === "Allow"),
    metrics: (o, r) => same(roleRights(r).filter((x: any) => x.actions.includes("cloudwatch:PutMetricData")).map((x: any) => [x.actions, x.conditions]), [[["cloudwatch:PutMetricData"], { StringEquals: { "cloudwatch:namespace": "CloudWatchSynthetics" } }]]),
    keys: (o, r) => same(roleRights(r).filter((x: any) => x.actions.some((a: string) => a.startsWith("apigateway"))).map((x: any) => [x.actions, x.resources]), o.api ? [[["apigateway:GET"], ["arn:aws:apigateway:*::/apikeys/*"]]] : []),
    nothingElse: (o, r) => roleRights(r).every((x: any) => x.actions.every((a: string) => a.startsWith("logs:") || a === "cloudwatch:PutMetricData" || (o.api && a === "apigateway:GET"))),
  },
});
// stacks with and without a network and a secret
const conf = { vpc: bool(), sg: opt(str()), secretId: opt(str({ min: 1 })) };
const stack = (i: any) => stackOf({ ...(i.vpc ? { vpcId: "vpc", privateSubnetIds: ["one", "two"], availabilityZones: ["a", "b"] } : {}), lambdaDbSgId: i.sg, secretId: i.secretId, shortName: "Foo", alarmTopicArn: "alarm topic" });
const network = (i: any) => ({ vpcId: i.vpc ? "vpc" : undefined, securityGroupIds: i.sg ? [i.sg] : [], subnetIds: i.vpc ? ["one", "two"] : [] });
const vpcConfig = (r: any) => own(r)[0].it.node.defaultChild.vpcConfig;
const secretGrants = (r: any) => recorded(r, "grantSecret").map((x: any) => x[1].node.id);
export const addresses = spec({
  target: ["UrlCanary"],
  inputs: { ...conf, name: str(), host: str(), key: str(), secret: opt(str()), inVpc: opt(bool()), granted: bool() },
  call: (i) => { const s = stack(i); new UrlCanary(s, role(s), { name: i.name, handler: "x.handler", hostname: i.host, apiKeyId: i.key, secret: i.secret, inVpc: i.inVpc }, i.granted ? ({ grantRead: (x: any) => s.granted = x } as any) : undefined); return s.granted?.node.id; },
  ensures: {
    named: (o, r) => r.ok && own(r).length === 1 && own(r)[0].id === `${o.name}-url`,
    environment: (o, r) => same(own(r)[0].props.environmentVariables, { hostname: o.host, secret: o.secret || undefined, apiKeyId: o.key || undefined }),
    network: (o, r) => same(vpcConfig(r), o.inVpc ? network(o) : undefined),
    secret: (o, r) => r.value === (o.granted ? "a role" : undefined),
  },
});
const overrides = { handler: opt(str()), hostname: opt(str()) };
export const apiCanary = spec({
  target: ["UrlCanary.create", "UrlCanary.getApiKey"],
  inputs: { name: str({ min: 1 }), host: str(), keys: or(tuple(), tuple(str({ min: 1 })), tuple(str({ min: 1 }), str({ min: 1 }))), ownRole: bool(), handler: opt(str()), ownKey: opt(str({ min: 1 })) }, bounded: "at most two API keys",
  call: (i) => { const s = stack({}); UrlCanary.create(s, i.ownRole ? (new DigitrafficCanaryRole(s, "x") as any) : role(s), { hostname: () => i.host, apiKeyIds: i.keys } as any, { name: i.name, ...(i.handler === undefined ? {} : { handler: i.handler }), ...(i.ownKey === undefined ? {} : { apiKeyId: i.ownKey }) }); },
  ensures: {
    made: (o, r) => r.ok && own(r).length === 1 && own(r)[0].id === `${o.name}-url` && own(r)[0].props.test.handler === (o.handler ?? `${o.name}.handler`),
    environment: (o, r) => same(own(r)[0].props.environmentVariables, { hostname: o.host, apiKeyId: o.ownKey ?? o.keys[0] }),
    mayReadKeys: (o, r) => roleRights(r).filter((x: any) => x.actions.includes("apigateway:GET")).length === (o.ownRole ? 1 : 0),
  },
});
export const databases = spec({
  target: ["DatabaseCanary"],
  inputs: { ...conf, v2: bool(), name: str(), canaryName: opt(str()), minutes: opt(int(1)), handler: opt(str()) },
  call: (i) => {
    const s = stack(i), p: any = { ...(i.minutes === undefined ? {} : { schedule: EventSchedule.rate(Duration.minutes(i.minutes)) }), ...(i.handler === undefined ? {} : { handler: i.handler }) };
    if (i.v2) DatabaseCanary.createV2(s, role(s), i.name, p, i.canaryName); else DatabaseCanary.create(s, role(s), { name: i.name, ...p });
  },
  ensures: {
    refused: (o, r) => r.ok === (o.secretId !== undefined),
    runs: (o, r) => !r.ok || (own(r).length === 1 && own(r)[0].id === `${o.v2 ? o.canaryName ?? o.name : o.name}-db` && own(r)[0].props.test.handler === (o.handler ?? `${o.name}${o.v2 ? "-db" : ""}.handler`) && own(r)[0].props.schedule.expression.rate === (o.minutes ?? 60) * 60000),
    environment: (o, r) => !r.ok || same(own(r)[0].props.environmentVariables, { SECRET_ID: o.secretId, DB_APPLICATION: `Synthetics-${own(r)[0].id}` }),
    secret: (o, r) => same(secretGrants(r), r.ok ? ["a role"] : []),
    network: (o, r) => !r.ok || same(vpcConfig(r), network(o)),
    told: (o, r) => { if (!r.ok) return true; const a = alarms(r); return a.length === 1 && (o.v2 ? a[0].alarmName === ((o.canaryName ?? o.name) === o.name ? "Foo-DB-Alarm" : `${o.canaryName}-DB-Alarm`) && same(a[0].to, ["alarm topic"]) : a[0].alarmName === `${o.name}-alarm` && a[0].to.length === 0); },
  },
});

// Functions: their defaults, rights, network and environment.
import { spec, str, int, bool, opt, or, lit, arr, obj, dict, oneOf, opaque, tuple, same, record } from "vf";
import { stackOf, made, recorded } from "./infra.ts";
import { Duration, Runtime, Architecture, PolicyStatement, InlineCode, LogGroup } from "./mocks/cdk.ts";
import { FunctionBuilder } from "repo:lib/digitraffic-common/src/aws/infra/stack/dt-function.ts";
import { MonitoredFunction, MonitoredDBFunction } from "repo:lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts";
import { databaseFunctionProps, lambdaFunctionProps, defaultLambdaConfiguration } from "repo:lib/digitraffic-common/src/aws/infra/stack/lambda-configs.ts";
import { createLambdaLogGroup } from "repo:lib/digitraffic-common/src/aws/infra/stack/lambda-log-group.ts";
const conf = obj({ shortName: str({ min: 1 }), secretId: opt(str({ min: 1 })), vpcId: opt(str({ min: 1 })), privateSubnetIds: opt(arr(str())), lambdaDbSgId: opt(str({ min: 1 })) });
// names of functions with the handler and the function they stand for
const FUNCTION: any = { "update-things": "UpdateThings", getLocations: "GetLocations", "api/dump-all": "ApiDumpAll", a: "A" };
const MODULE: any = { "update-things": "update-things", getLocations: "getLocations", "api/dump-all": "dump-all", a: "a" };
const fnOf = (r: any) => made(r, "Function")[0];
const groups = (p: any) => (p.securityGroups ?? (p.securityGroup === undefined ? [] : [p.securityGroup])).map((g: any) => g.securityGroupId ?? g);
const inNetwork = (p: any, c: any, stack: any) => p.vpc === stack.vpc && (c.vpcId === undefined ? p.vpc === undefined && p.vpcSubnets === undefined : p.vpc.vpcId === c.vpcId && same(p.vpcSubnets.subnets.map((s: any) => s.subnetId), c.privateSubnetIds ?? []));
const logged = (r: any, p: any, shortName: any) => made(r, "LogGroup").length === 1 && made(r, "LogGroup")[0].it === p.logGroup && same(made(r, "LogGroup")[0].props, { logGroupName: `/${shortName}/lambda/${p.functionName}`, retention: 365 });
const build = (i: any) => {
  const stack = stackOf(i.conf), c = i.chosen ?? {};
  const b: any = i.plain ? FunctionBuilder.plain(stack, i.name) : FunctionBuilder.create(stack, i.name);
  if (i.noDb) b.withoutDatabaseAccess();
  if (i.noSecret) b.withoutSecretAccess();
  if (c.timeout !== undefined) b.withTimeout(Duration.seconds(c.timeout));
  if (c.memory !== undefined) b.withMemorySize(c.memory);
  if (c.concurrency !== undefined) b.withReservedConcurrentExecutions(c.concurrency);
  if (c.description !== undefined) b.withDescription(c.description);
  if (c.role !== undefined) b.withRole(c.role);
  if (c.runtime) b.withRuntime(Runtime.NODEJS_20_X);
  if (c.intel) b.withArchitecture(Architecture.X86_64);
  if (c.asset !== undefined) b.withAssetCode(c.asset, c.exclude);
  if (c.inline) b.withCode(new InlineCode("code"));
  if (c.handler !== undefined) b.withHandler(c.handler);
  if (c.layers) { b.withLayers("one", "two"); b.withLayers("three"); }
  if (i.groups !== undefined) { b.withSecurityGroup(...i.groups.map((g: any) => ({ securityGroupId: g }))); }
  for (const e of i.envs ?? []) b.withEnvironment(e);
  if (i.actions !== undefined) b.withAllowedActions(...i.actions);
  for (const p of i.policies ?? []) b.withRolePolicies(p);
  return { fn: b.build(), stack };
};
const access = { conf, plain: bool(), noDb: bool(), noSecret: bool() };
const db = (o: any) => !o.plain && !o.noDb, secret = (o: any) => !o.plain && !o.noSecret;
export const rights = spec({
  target: "FunctionBuilder",
  inputs: { ...access, groups: opt(arr(str())), actions: opt(arr(str())) },
  call: (i) => build({ ...i, name: "update-things" }),
  ensures: {
    refused: (o, r) => r.ok === ((!db(o) || o.conf.lambdaDbSgId !== undefined) && (!secret(o) || o.conf.secretId !== undefined) && !(o.actions ?? []).includes("*")),
    one: (o, r) => !r.ok || (made(r, "Function").length === 1 && fnOf(r).it === r.value.fn),
    network: (o, r) => !r.ok || (inNetwork(fnOf(r).props, o.conf, r.value.stack) && same(groups(fnOf(r).props), [...(o.groups ?? []), ...(db(o) ? [o.conf.lambdaDbSgId] : [])])),
    secret: (o, r) => !r.ok || (secret(o) ? recorded(r, "grantSecret").length === 1 && recorded(r, "grantSecret")[0][1] === r.value.fn && recorded(r, "import").some((x: any) => x[0] === "Secret" && x[2] === o.conf.secretId) : recorded(r, "grantSecret").length === 0),
    allowed: (o, r) => {
      if (!r.ok) return true;
      const ps = recorded(r, "functionPolicy");
      return o.actions === undefined || o.actions.length === 0 ? ps.length === 0 : ps.length === 1 && ps[0][1].effect === "Allow" && same(ps[0][1].actions, o.actions) && same(ps[0][1].resources, ["*"]);
    },
    log: (o, r) => !r.ok || logged(r, fnOf(r).props, o.conf.shortName),
  },
});
export const environment = spec({
  target: "FunctionBuilder",
  inputs: { ...access, first: dict(str()), second: dict(str()), some: bool(), key: str() },
  requires: (i) => (!db(i) || i.conf.lambdaDbSgId !== undefined) && (!secret(i) || i.conf.secretId !== undefined) && i.key !== "__proto__",
  call: (i) => build({ ...i, name: "a", envs: i.some ? [i.first, i.second] : [] }),
  ensures: {
    value: (o, r) => {
      const env = fnOf(r).props.environment;
      const given = (o.some ? o.second[o.key] ?? o.first[o.key] : undefined) ?? (o.key === "SECRET_ID" && secret(o) ? o.conf.secretId : o.key === "DB_APPLICATION" && db(o) ? o.conf.shortName : undefined);
      return r.ok && env[o.key] === given;
    },
  },
});
export const policies = spec({
  target: "FunctionBuilder",
  inputs: { given: arr(obj({ actions: arr(str()), resources: arr(str()) })), actions: opt(arr(str({ re: [String.raw`^[a-z0-9]+:\w+$`, ""] }))) },
  call: (i) => { const ps = i.given.map((p: any) => new PolicyStatement(p)); build({ conf: { shortName: "S" }, plain: true, name: "a", policies: ps, actions: i.actions }); return ps; },
  ensures: {
    all: (o, r) => { const ps = recorded(r, "functionPolicy").map((x: any) => x[1]); return r.ok && o.given.every((p: any, n: number) => same(ps[n].actions, p.actions) && same(ps[n].resources, p.resources)) && ps.length === o.given.length + (o.actions === undefined || o.actions.length === 0 ? 0 : 1); },
    untouched: (o, r) => r.value.every((p: any, n: number) => same(p.actions, o.given[n].actions) && same(p.resources, o.given[n].resources)),
  },
});
const numbers = { timeout: opt(int(1, 900)), memory: opt(int(128, 10240)), concurrency: opt(int(0)) };
const program = { asset: or(lit(undefined), lit("other/thing"), lit("x")), exclude: opt(arr(str())), inline: bool(), handler: opt(str()) };
const others = { description: opt(str()), role: opt(lit("role")), runtime: bool(), intel: bool(), layers: bool() };
export const choices = spec({
  target: "FunctionBuilder",
  inputs: { name: or(lit("update-things"), lit("api/dump-all")), chosen: or(obj(numbers), obj(program), obj(others)), shortName: str({ min: 1 }) },
  requires: (i: any) => i.chosen.exclude === undefined || i.chosen.asset !== undefined,
  call: (i) => build({ conf: { shortName: i.shortName }, plain: true, name: i.name, chosen: i.chosen }),
  ensures: {
    numbers: (o, r) => { const p = fnOf(r).props, c: any = o.chosen; return r.ok && p.timeout.toSeconds() === (c.timeout ?? 60) && p.memorySize === (c.memory ?? 128) && p.reservedConcurrentExecutions === (c.concurrency ?? 2); },
    program: (o, r) => {
      const p = fnOf(r).props, c: any = o.chosen, where = c.asset ?? o.name;
      return (c.inline ? p.code.code === "code" : p.code.path === `dist/lambda/${where}` && same(p.code.options, c.exclude === undefined ? undefined : { exclude: c.exclude })) && p.handler === `${c.handler ?? (c.asset === undefined ? MODULE[o.name] : c.asset === "x" ? "x" : "thing")}.handler`;
    },
    rest: (o, r) => { const p = fnOf(r).props, c: any = o.chosen; return p.runtime === (c.runtime ? Runtime.NODEJS_20_X : Runtime.NODEJS_24_X) && p.architecture === (c.intel ? Architecture.X86_64 : Architecture.ARM_64) && p.description === c.description && p.role === c.role && same(p.layers, c.layers ? ["one", "two", "three"] : undefined) && p.loggingFormat === "JSON" && p.applicationLogLevelV2 === "DEBUG" && p.systemLogLevelV2 === "INFO"; },
    named: (o, r) => fnOf(r).props.functionName === `${o.shortName}-${FUNCTION[o.name]}` && fnOf(r).id === fnOf(r).props.functionName && logged(r, fnOf(r).props, o.shortName),
  },
});
// the older way of making functions
const params = obj({ runtime: opt(lit("runtime")), architecture: opt(lit("architecture")), memorySize: opt(int(128, 10240)), timeout: opt(int(1, 900)), reservedConcurrentExecutions: opt(int(0)), role: opt(lit("role")) });
const older = (p: any, c: any, name: string, environment: any) => p.runtime === (c?.runtime ?? Runtime.NODEJS_24_X) && p.architecture === (c?.architecture ?? Architecture.ARM_64) && p.memorySize === (c?.memorySize ?? 128) && p.timeout.toSeconds() === (c?.timeout ?? 60) && p.reservedConcurrentExecutions === (c?.reservedConcurrentExecutions ?? 2) && p.role === c?.role && p.code.path === `dist/lambda/${name}` && p.handler === `${name}.handler` && same(p.environment, environment);
export const props = spec({
  target: ["databaseFunctionProps", "lambdaFunctionProps"],
  inputs: { conf, environment: dict(str()), lambdaName: str(), name: str(), given: opt(params), database: bool() },
  call: (i) => { const stack = stackOf(i.conf); return { p: (i.database ? databaseFunctionProps : lambdaFunctionProps)(stack, i.environment, i.lambdaName, i.name, "log" as any, i.given as any), stack }; },
  ensures: {
    same: (o, r) => r.ok && older(r.value.p, o.given, o.name, o.environment) && r.value.p.functionName === o.lambdaName && (r.value.p.logGroup as any) === "log",
    network: (o, r) => (o.database ? inNetwork(r.value.p, o.conf, r.value.stack) && same(groups(r.value.p), o.conf.lambdaDbSgId === undefined ? [] : [o.conf.lambdaDbSgId]) : r.value.p.vpc === undefined && groups(r.value.p).length === 0),
  },
});
export const defaults = spec({
  target: "defaultLambdaConfiguration",
  inputs: { given: obj({ memorySize: opt(int(128, 10240)), timeout: opt(int(1, 900)), functionName: opt(str()), code: lit("code"), handler: str(), logGroup: lit("log"), environment: opt(dict(str())), reservedConcurrentExecutions: opt(int(0)), role: opt(lit("role")), vpc: opt(obj({ vpcId: str(), privateSubnets: arr(str()) })) }) },
  call: (i) => defaultLambdaConfiguration(i.given as any),
  ensures: {
    kept: (o, r) => { const p: any = r.value, g = o.given; return r.ok && p.memorySize === (g.memorySize ?? 128) && p.timeout.toSeconds() === (g.timeout ?? 10) && p.functionName === g.functionName && p.code === "code" && p.handler === g.handler && p.logGroup === "log" && same(p.environment, g.environment ?? {}) && p.reservedConcurrentExecutions === g.reservedConcurrentExecutions && p.role === g.role && p.runtime === Runtime.NODEJS_24_X; },
    network: (o, r) => { const p: any = r.value; return o.given.vpc === undefined ? p.vpc === undefined && p.vpcSubnets === undefined : same(p.vpc, o.given.vpc) && same(p.vpcSubnets.subnets, o.given.vpc.privateSubnets); },
  },
});
export const monitored = spec({
  target: ["MonitoredFunction.createV2", "MonitoredDBFunction.create"],
  inputs: { conf, name: or(lit("update-things")), environment: opt(dict(str())), given: opt(obj({ memorySize: opt(int(128, 10240)), timeout: opt(int(1, 900)) })), own: opt(str({ min: 1 })), database: bool() },
  call: (i) => {
    const stack = stackOf(i.conf), given: any = i.own === undefined ? i.given : { ...i.given, functionName: i.own };
    return { stack, fn: i.database ? MonitoredDBFunction.create(stack, i.name, i.environment, given) : MonitoredFunction.createV2(stack, i.name, i.environment ?? {}, given) };
  },
  ensures: {
    refused: (o, r) => r.ok === (!o.database || o.conf.secretId !== undefined),
    made: (o, r) => { if (!r.ok) return true; const p = fnOf(r).props; const env = o.environment ?? (o.database ? { SECRET_ID: o.conf.secretId, DB_APPLICATION: o.conf.shortName } : {}); return fnOf(r).it === r.value.fn && older(p, o.given, o.name, env) && p.functionName === (o.own ?? `${o.conf.shortName}-${FUNCTION[o.name]}`) && logged(r, p, o.conf.shortName); },
    network: (o, r) => !r.ok || (inNetwork(fnOf(r).props, o.conf, r.value.stack) && same(groups(fnOf(r).props), o.conf.lambdaDbSgId === undefined ? [] : [o.conf.lambdaDbSgId])),
    secret: (o, r) => !r.ok || recorded(r, "grantSecret").length === (o.database ? 1 : 0),
    json: (o, r) => !r.ok || (fnOf(r).props.loggingFormat === "JSON" && fnOf(r).props.applicationLogLevelV2 === "DEBUG" && fnOf(r).props.systemLogLevelV2 === "INFO"),
  },
});
export const names = spec({
  target: "FunctionBuilder",
  inputs: { name: or(lit("update-things"), lit("getLocations"), lit("api/dump-all"), lit("a")), shortName: str({ min: 1 }) },
  call: (i) => build({ conf: { shortName: i.shortName }, plain: true, name: i.name }),
  ensures: {
    named: (o, r) => r.ok && fnOf(r).props.functionName === `${o.shortName}-${FUNCTION[o.name]}` && fnOf(r).id === fnOf(r).props.functionName,
    program: (o, r) => fnOf(r).props.code.path === `dist/lambda/${o.name}` && fnOf(r).props.handler === `${MODULE[o.name]}.handler`,
  },
});
export const logGroup = spec({
  target: "createLambdaLogGroup",
  inputs: { functionName: str(), shortName: str({ min: 1 }), retention: opt(oneOf(1, 7, 30)), plainStack: bool() },
  call: (i) => createLambdaLogGroup(i.plainStack ? ({ stack: { node: { id: "S", path: "S" } }, shortName: i.shortName, functionName: i.functionName, retention: i.retention } as any) : { stack: stackOf({ shortName: i.shortName }), functionName: i.functionName, retention: i.retention as any }),
  ensures: { named: (o, r) => r.ok && same(made(r, "LogGroup").map((x: any) => x.props), [{ logGroupName: `/${o.shortName}/lambda/${o.functionName}`, retention: o.retention ?? 365 }]) && made(r, "LogGroup")[0].it === r.value },
});
// what one function was given has no bearing on the next
const plenty = { groups: opt(arr(str())), envs: opt(tuple(dict(str()))), actions: opt(arr(str())), policies: opt(tuple(obj({ actions: arr(str()), resources: arr(str()) }))) };
export const apart = spec({
  target: "FunctionBuilder",
  inputs: { conf, first: obj({ plain: bool(), ...plenty }), second: obj({ plain: bool() }), layers: bool() },
  requires: (i) => i.conf.secretId !== undefined && i.conf.lambdaDbSgId !== undefined && !(i.first.actions ?? []).includes("*"),
  call: (i) => { build({ ...i.first, conf: i.conf, name: "update-things", chosen: i.layers ? { layers: true } : {} }); record("next"); return build({ ...i.second, conf: i.conf, name: "a" }); },
  ensures: {
    network: (o, r) => { if (!r.ok) return false; const p = made(r, "Function")[1].props; return same(groups(p), o.second.plain ? [] : [o.conf.lambdaDbSgId]); },
    environment: (o, r) => { const p = made(r, "Function")[1].props; return same(p.environment, o.second.plain ? {} : { SECRET_ID: o.conf.secretId, DB_APPLICATION: o.conf.shortName }); },
    rest: (o, r) => { const f = made(r, "Function")[1]; return (f.props.layers ?? []).length === 0 && recorded(r, "functionPolicy").every((x: any) => x[0] !== f.id); },
  },
});

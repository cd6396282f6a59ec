// The checks every stack goes through when it is built.
import { spec, str, int, bool, opt, or, lit, arr, tuple, obj, oneOf, dict, same } from "vf";
import { stackOf, made, recorded } from "./infra.ts";
import { CfnFunction, CfnBucket, CfnResource, CfnMethod, CfnQueue, LogRetention, Stack, Construct } from "./mocks/cdk.ts";
const root = new Construct("App", undefined, "", {});
import { StackCheckingAspect } from "repo:lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts";
const allowed = opt(arr(str({ re: /[a-zA-Z/]*/ })));
// the wanted annotations: [key, is it an error]; what is whitelisted comes one step milder
const listed = (o: any, path: string, key: string) => (o.allowed ?? []).some((w: string) => new RegExp(w).test(`${path}/${key}`));
const wanted = (o: any, path: string, found: any[]) => { const out: any = { error: [], warning: [] }; for (const [key, error] of found) { const l = listed(o, path, key); if (error && !l) out.error.push(key); else if (error || !l) out.warning.push(key); } return out; };
const said = (r: any, level: string, path: string) => recorded(r, level).map((a: any) => a[1].slice(path.length + 1).split(":")[0]);
const agrees = (o: any, r: any, path: string, found: any[]) => { const w = wanted(o, path, found); return r.ok && ["error", "warning"].every((l) => same(said(r, l, path), w[l]) && recorded(r, l).every((a: any) => a[0] === r.value && a[1].startsWith(`${path}/`))) && recorded(r, "info").length === 0; };
const check = (o: any, node: any, shortName?: string) => { new StackCheckingAspect(shortName, o.allowed).visit(node); return node; };
export const functions = spec({
  target: "StackCheckingAspect.checkFunction",
  inputs: { reserved: opt(int()), timeout: opt(int()), memory: opt(int()), runtime: or(lit(undefined), lit("nodejs24.x"), lit("nodejs22.x"), lit("python3.12"), lit("python3.13"), lit("nodejs20.x"), lit("python3.11")) },
  call: (i) => check(i, new CfnFunction(root, "the/function", { reservedConcurrentExecutions: i.reserved, timeout: i.timeout, memorySize: i.memory, runtime: i.runtime })),
  ensures: {
    found: (o, r) => agrees(o, r, "the/function", [...(!o.reserved || o.reserved > 100 ? [["RESERVED_CONCURRENT_CONCURRENCY", true]] : []), ...(!o.timeout ? [["FUNCTION_TIMEOUT", true]] : []), ...(!o.memory ? [["FUNCTION_MEMORY_SIZE", true]] : []), ...(o.runtime === "nodejs20.x" || o.runtime === "python3.11" ? [["FUNCTION_RUNTIME", true]] : [])]),
  },
});
export const named = spec({
  target: "StackCheckingAspect.checkFunction",
  inputs: { name: opt(str()), shortName: opt(str()), id: str({ re: /[a-zA-Z/]*/ }), allowed },
  call: (i) => check(i, new CfnFunction(root, i.id, { reservedConcurrentExecutions: 1, timeout: 1, memorySize: 1, runtime: "nodejs24.x", functionName: i.name }), i.shortName),
  ensures: { found: (o, r) => agrees(o, r, o.id, o.name && o.shortName && !o.name.startsWith(o.shortName) ? [["FUNCTION_NAME", true]] : []) },
});
export const stacks = spec({
  target: "StackCheckingAspect.checkStack",
  inputs: { name: str(), production: bool() },
  call: (i) => check(i, stackOf({ production: i.production, stackProps: { tags: { Solution: "x" } } }, i.name)),
  ensures: {
    found: (o, r) => { const has = (...xs: string[]) => xs.some((x) => o.name.includes(x)); return agrees(o, r, r.value.node.path, [...(has("Test", "Tst") && o.production ? [["STACK_NAME", true]] : []), ...(has("Prod", "Prd") && !o.production ? [["STACK_NAME", true]] : [])]); },
  },
});
export const tags = spec({
  target: ["StackCheckingAspect.checkStack", "StackCheckingAspect.checkTags"],
  inputs: { named: bool(), production: bool(), tags: dict(str()), plain: bool(), allowed },
  call: (i) => check(i, i.plain ? new Stack(undefined, i.named ? "TestStack" : "Stack", { tags: i.tags }) : stackOf({ production: i.production, stackProps: { tags: i.tags } }, i.named ? "TestStack" : "Stack")),
  ensures: { found: (o, r) => agrees(o, r, r.value.node.path, [...(!o.plain && o.named && o.production ? [["STACK_NAME", true]] : []), ...(!o.tags.Solution ? [["TAG_SOLUTION", true]] : [])]) },
});
export const buckets = spec({
  target: "StackCheckingAspect.checkBucket",
  inputs: { none: bool(), acls: opt(bool()), policy: opt(bool()), ignore: opt(bool()), restrict: opt(bool()), allowed },
  call: (i) => check(i, new CfnBucket(root, "bucket", { publicAccessBlockConfiguration: i.none ? undefined : { blockPublicAcls: i.acls, blockPublicPolicy: i.policy, ignorePublicAcls: i.ignore, restrictPublicBuckets: i.restrict } })),
  ensures: { found: (o, r) => agrees(o, r, "bucket", o.none || (o.acls && o.policy && o.ignore && o.restrict) ? [] : [["BUCKET_PUBLICITY", true]]) },
});
export const queues = spec({
  target: ["StackCheckingAspect.checkQueueEncryption", "StackCheckingAspect.checkLogGroupRetention"],
  inputs: { log: bool(), key: opt(str()), child: bool(), days: opt(int()), id: str({ re: /[a-zA-Z/]*/ }), allowed },
  call: (i) => { if (!i.log) return check(i, new CfnQueue(root, i.id, { kmsMasterKeyId: i.key })); const n = new LogRetention(root, i.id, {}); if (i.child) n.node.defaultChild = { _cfnProperties: { RetentionInDays: i.days } }; return check(i, n); },
  ensures: { found: (o, r) => agrees(o, r, o.id, o.log ? (o.child && o.days ? [] : [["LOG_GROUP_RETENTION", true]]) : o.key ? [] : [["QUEUE_ENCRYPTION", true]]) },
});
const good = ["api", "vessel-details", "{id}", "{vesselId}", "vessels.geojson", "locations{id}", "a-b-c"], bad = ["vesselDetails", "VESSEL", "vessel_details", "Vessel", "vesselDetails.json", "vesselLocations{id}", "", " x"];
export const paths = spec({
  target: "StackCheckingAspect.checkResourceCasing",
  bounded: "the listed paths",
  inputs: { part: or(...[...good, ...bad].map((x) => lit(x))), allowed },
  call: (i) => check(i, new CfnResource(root, "resource", { pathPart: i.part })),
  ensures: { found: (o, r) => agrees(o, r, "resource", good.includes(o.part) ? [] : [["RESOURCE_PATH", false]]) },
});
const snake = ["vessel_id", "id", "limit"], other = ["vesselId", "ID", "vessel-id"];
const name = or(...[...snake, ...other].map((x) => lit(x)));
const where = or(lit("querystring"), lit("path"), lit("header"));
export const parameters = spec({
  target: "StackCheckingAspect.checkResourceCasing",
  bounded: "one or two of the listed parameter names",
  inputs: { a: name, at: where, b: opt(name), none: bool(), allowed },
  call: (i) => check(i, new CfnMethod(root, "method", { integration: i.none ? undefined : { requestParameters: { [`integration.request.${i.at}.${i.a}`]: "x", ...(i.b === undefined ? {} : { [`integration.request.querystring.${i.b}`]: "y" }) } } })),
  ensures: { found: (o, r) => { const names = [...(o.at === "querystring" ? [o.a] : []), ...(o.b !== undefined && !(o.at === "querystring" && o.a === o.b) ? [o.b] : [])]; return agrees(o, r, "method", o.none ? [] : names.filter((n: string) => other.includes(n)).map((n: string) => [n, true])); } },
});
export const others = spec({
  target: "StackCheckingAspect.visit",
  inputs: { kind: str(), id: str(), allowed },
  call: (i) => check(i, new Construct(i.kind, root, i.id, {}), "short"),
  ensures: { found: (o, r) => agrees(o, r, o.id, []) },
});

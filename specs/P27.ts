// Distributions: which origin, edge programs, cache and rights each path gets, and what is refused.
import { spec, str, int, bool, opt, or, lit, arr, tuple, obj, oneOf, same, implies } from "vf";
import { app, made, recorded, distinct } from "./infra.ts";
import { Stack, Role } from "./mocks/cdk.ts";
import { AllowedMethods, FunctionEventType as F, LambdaEdgeEventType as L } from "./mocks/cloudfront.ts";
import { files } from "./mocks/edge-files.ts";
import { Behavior, Origin } from "repo:other/cloudfront/src/distribution/behavior.ts";
import { CloudfrontCdkStack } from "repo:other/cloudfront/src/cloudfront-cdk-stack.ts";
import { DistributionBuilder } from "repo:other/cloudfront/src/distribution/distribution-builder.ts";
import { CachePolicyFactory } from "repo:other/cloudfront/src/util/cachepolicy-factory.ts";
import { FunctionType, createIndexHtml, createRedirectFunction, createPathRewriteFunction, createHttpHeadersFunction } from "repo:other/cloudfront/src/util/function-creator.ts";
import { LambdaType, createGzipRequirement, createWeathercamRewrite, createHttpHeaders, createWeathercamHttpHeaders, createIpRestriction, createLamRedirect, createLamHeaders } from "repo:other/cloudfront/src/util/lambda-creator.ts";
import { WafRules } from "repo:other/cloudfront/src/acl/waf-rules.ts";
import { createWebAcl } from "repo:other/cloudfront/src/acl/acl-creator.ts";
export const mocks = { "aws-cdk-lib/aws-cloudfront": "./mocks/cloudfront.ts", "aws-cdk-lib/aws-cloudfront-origins": "./mocks/cloudfront.ts", "aws-cdk-lib/aws-certificatemanager": "./mocks/cloudfront.ts", "node:fs": "./mocks/edge-files.ts" };
const stack = (): any => new CloudfrontCdkStack(app(), "TheStack", {} as any);

// Edge programs of one path. From any programs at the four events, one more is added or one taken away: so for every sequence.
const EVENTS = [L.VIEWER_REQUEST, L.VIEWER_RESPONSE, L.ORIGIN_REQUEST, L.ORIGIN_RESPONSE];
const lambda = (t: any) => ({ kind: "lambda", type: t }), fun = (t: any) => ({ kind: "function", type: t });
const programsOf = (b: any) => { const out: any = {}; for (const e of EVENTS) { const a: any[] = []; if (b.lambdaConfig.lambdas.has(e)) a.push(lambda(b.lambdaConfig.lambdas.get(e))); if (b.lambdaConfig.functions.has(e)) a.push(fun(b.lambdaConfig.functions.get(e))); out[e] = a; } return out; };
// what each method adds, by event
const ADDS: any = {
  indexHtml: [(b: any) => b.withIndexHtmlFunction(), { [F.VIEWER_REQUEST]: fun(FunctionType.INDEX_HTML) }],
  redirect: [(b: any, i: any) => b.withRedirectFunction(i.text), { [F.VIEWER_REQUEST]: fun(FunctionType.REDIRECT) }],
  removePath: [(b: any, i: any) => b.withRemovePathFunction(i.count), { [F.VIEWER_REQUEST]: fun(FunctionType.PATH_REWRITE) }],
  headersFunction: [(b: any) => b.withHttpHeadersFunction(), { [F.VIEWER_RESPONSE]: fun(FunctionType.HTTP_HEADERS) }],
  headers: [(b: any) => b.withHttpHeadersLambda(), { [L.VIEWER_RESPONSE]: lambda(LambdaType.HTTP_HEADERS) }],
  gzip: [(b: any) => b.withGzipRequirementLambda(), { [L.VIEWER_REQUEST]: lambda(LambdaType.GZIP_REQUIREMENT) }],
  gzipAtOrigin: [(b: any) => b.withGzipRequirementLambda(L.ORIGIN_REQUEST), { [L.ORIGIN_REQUEST]: lambda(LambdaType.GZIP_REQUIREMENT) }],
  restriction: [(b: any, i: any) => b.withIpRestrictionLambda("p", i.text), { [L.VIEWER_REQUEST]: lambda(LambdaType.IP_RESTRICTION) }],
  restrictionAtOrigin: [(b: any, i: any) => b.withIpRestrictionLambda("p", i.text, L.ORIGIN_REQUEST), { [L.ORIGIN_REQUEST]: lambda(LambdaType.IP_RESTRICTION) }],
  weathercam: [(b: any, i: any) => b.withWeathercamLambdas(i.text, "u"), { [L.ORIGIN_REQUEST]: lambda(LambdaType.WEATHERCAM_REDIRECT), [L.ORIGIN_RESPONSE]: lambda(LambdaType.WEATHERCAM_HTTP_HEADERS), [L.VIEWER_RESPONSE]: lambda(LambdaType.HTTP_HEADERS) }],
  lam: [(b: any, i: any) => b.withLamLambdas(i.text), { [L.ORIGIN_REQUEST]: lambda(LambdaType.LAM_REDIRECT), [L.ORIGIN_RESPONSE]: lambda(LambdaType.LAM_HEADERS), [L.VIEWER_RESPONSE]: lambda(LambdaType.HTTP_HEADERS) }],
};
const ALL = [LambdaType.WEATHERCAM_REDIRECT, LambdaType.GZIP_REQUIREMENT, LambdaType.HTTP_HEADERS, LambdaType.IP_RESTRICTION, LambdaType.WEATHERCAM_HTTP_HEADERS, LambdaType.LAM_REDIRECT, LambdaType.LAM_HEADERS];
const atViewer = oneOf("", "lambda", "function"), atOrigin = oneOf("", "lambda");
const start = { request: atViewer, response: atViewer, originRequest: atOrigin, originResponse: atOrigin, lambdaType: oneOf(...ALL), functionType: oneOf(FunctionType.INDEX_HTML, FunctionType.REDIRECT, FunctionType.PATH_REWRITE, FunctionType.HTTP_HEADERS), text: str(), count: int(0, 20) };
const started = (i: any): any => {
  const b: any = new Behavior("p", Origin.http("h"));
  const put = (event: any, kind: any) => { if (kind === "lambda") b.lambdaConfig.lambdas.set(event, i.lambdaType); if (kind === "function") b.lambdaConfig.functions.set(event, i.functionType); };
  put(L.VIEWER_REQUEST, i.request); put(L.VIEWER_RESPONSE, i.response); put(L.ORIGIN_REQUEST, i.originRequest); put(L.ORIGIN_RESPONSE, i.originResponse);
  return b;
};
export const adding = spec({
  target: "Behavior.addLambda, Behavior.addFunction",
  inputs: { op: or(...Object.keys(ADDS).map((k) => lit(k))), ...start },
  call: (i) => { const b = started(i); const before = programsOf(b); let refused = false; try { ADDS[i.op][0](b, i); } catch { refused = true; } return { before, refused, after: programsOf(b), parameters: b.lambdaConfig.parameters }; },
  ensures: {
    refused: (o, r) => r.value.refused === EVENTS.some((e: any) => ADDS[o.op][1][e] !== undefined && r.value.before[e].length > 0),
    assigned: (o, r) => r.value.refused || EVENTS.every((e: any) => same(r.value.after[e], ADDS[o.op][1][e] === undefined ? r.value.before[e] : [ADDS[o.op][1][e]])),
    onePerEvent: (o, r) => EVENTS.every((e: any) => r.value.after[e].length <= 1),
    keepsOthers: (o, r) => EVENTS.every((e: any) => r.value.before[e].length === 0 || same(r.value.after[e], r.value.before[e])),
    settings: (o, r) => r.value.refused || same(r.value.parameters, o.op === "redirect" ? { redirectUrl: o.text } : o.op === "removePath" ? { pathRemoveCount: o.count } : o.op === "restriction" || o.op === "restrictionAtOrigin" ? { ipRestriction: { path: "p", ipList: o.text } } : o.op === "weathercam" ? { weathercam: { host: o.text, url: "u" } } : o.op === "lam" ? { smRef: o.text } : {}),
  },
});
export const removing = spec({
  target: "Behavior.withoutGzipRequirementLambda, removeViewerResponseLambda, removeViewerRequestFunction",
  inputs: { op: or(lit("gzip"), lit("response"), lit("function")), ...start },
  call: (i) => { const b = started(i); const before = programsOf(b); if (i.op === "gzip") b.withoutGzipRequirementLambda(); else if (i.op === "response") b.removeViewerResponseLambda(); else b.removeViewerRequestFunction(); return { before, after: programsOf(b) }; },
  ensures: {
    removed: (o, r) => EVENTS.every((e: any) => same(r.value.after[e], r.value.before[e].filter((x: any) => !(e === (o.op === "response" ? L.VIEWER_RESPONSE : L.VIEWER_REQUEST) && x.kind === (o.op === "function" ? "function" : "lambda"))))),
  },
});
// the ready-made kinds of path
const endpoint = obj({ endpointUrl: str(), apiKey: str({ min: 1 }) });
const PASS = { [L.VIEWER_REQUEST]: [lambda(LambdaType.GZIP_REQUIREMENT)], [L.VIEWER_RESPONSE]: [lambda(LambdaType.HTTP_HEADERS)], [L.ORIGIN_REQUEST]: [], [L.ORIGIN_RESPONSE]: [] };
const NONE = { [L.VIEWER_REQUEST]: [], [L.VIEWER_RESPONSE]: [], [L.ORIGIN_REQUEST]: [], [L.ORIGIN_RESPONSE]: [] };
const KINDS: any = {
  apiGateway: [(i: any) => Behavior.apiGateway(i.path, i.host), "api-gateway", "/prod", PASS, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
  apiGatewayWithKey: [(i: any) => Behavior.apiGateway(i.path, i.endpoint), "api-gateway", "/prod", PASS, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
  plain: [(i: any) => Behavior.apiGatewayPlain(i.path, i.host), "api-gateway", "/prod", NONE, AllowedMethods.ALLOW_ALL],
  plainWithKey: [(i: any) => Behavior.apiGatewayPlain(i.path, i.endpoint), "api-gateway", "/prod", NONE, AllowedMethods.ALLOW_ALL],
  mqtt: [(i: any) => Behavior.mqtt(i.host), "http", undefined, NONE, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
  nginxPlain: [(i: any) => Behavior.nginxPlain(i.path, i.host), "http", undefined, NONE, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
  nginx: [(i: any) => Behavior.nginx(i.path, i.host), "http", undefined, PASS, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
  vpc: [(i: any) => Behavior.vpcLb(i.path, i.host), "vpc", undefined, PASS, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
  s3: [(i: any) => Behavior.s3(i.path, i.host), "s3", undefined, NONE, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
  swagger: [(i: any) => Behavior.swagger(i.path, i.host), "s3", undefined, { ...NONE, [F.VIEWER_REQUEST]: [fun(FunctionType.INDEX_HTML)] }, AllowedMethods.ALLOW_GET_HEAD_OPTIONS],
};
export const kinds = spec({
  target: "Behavior.apiGateway, apiGatewayPlain, mqtt, nginx, nginxPlain, vpcLb, s3, swagger",
  inputs: { kind: or(...Object.keys(KINDS).map((k) => lit(k))), path: str(), host: str(), endpoint },
  call: (i) => { const b: any = KINDS[i.kind][0](i); return { path: b.behaviorPath, origin: { type: b.origin._type, name: b.origin._origin, path: b.origin._path }, programs: programsOf(b), methods: b.allowedMethods, apiKey: b.apiKey, ttl: b.ttl, headers: b.cacheHeaders, keys: b.cacheKeys, timeout: b.readTimeout }; },
  ensures: {
    isReady: (o, r) => {
      const k = KINDS[o.kind], keyed = o.kind === "apiGatewayWithKey" || o.kind === "plainWithKey";
      return r.ok && same(r.value, { path: o.kind === "mqtt" ? "mqtt*" : o.path, origin: { type: k[1], name: keyed ? o.endpoint.endpointUrl : o.host, path: k[2] }, programs: k[3], methods: k[4], apiKey: keyed ? o.endpoint.apiKey : undefined, ttl: 60, headers: [], keys: [], timeout: 30 });
    },
  },
});

// One distribution: every path gets the origin, policies and programs its own settings ask for.
const BASE = { name: str(), certificate: str(), log: str({ min: 1 }), aliases: arr(str()) };
const path27 = (type: any) => obj({ path: str(), type, host: str(), prefix: opt(str()), apiKey: opt(str()), timeout: int(1, 180), ttl: oneOf(30, 60, 120, 600), all: bool() });
const anyType = or(lit("s3"), lit("api-gateway"), lit("http"), lit("https"), lit("vpc"));
const behaviorOf = (x: any): any => { const b: any = new Behavior(x.path, new Origin(x.type, x.host, x.prefix)); if (x.apiKey !== undefined) b.withApiKey(x.apiKey); if (x.all) b.withAllowAllMethods(); return b.withReadTimeout(x.timeout).withCacheTtl(x.ttl); };
const http = (x: any, n: any) => ({ of: x.host, props: { originId: n, readTimeout: { ms: x.timeout * 1000 }, connectionAttempts: 3, connectionTimeout: { ms: 10000 }, httpPort: 80, httpsPort: 443, keepaliveTimeout: { ms: 5000 }, customHeaders: x.apiKey ? { "x-api-key": x.apiKey } : {}, originPath: x.prefix, protocolPolicy: x.type === "http" ? "http-only" : "https-only" } });
const bucket = (x: any) => { const dot = x.host.indexOf("."); return dot < 0 ? { bucketArn: `arn:aws:s3:::${x.host}`, bucketRegionalDomainName: `${x.host}.s3.eu-west-1.amazonaws.com` } : { bucketArn: `arn:aws:s3:::${x.host.substring(0, dot)}`, bucketRegionalDomainName: x.host }; };
const isOriginOf = (x: any, it: any) => {
  if (x.type === "s3") return it.kind === "s3" && same(it.of, bucket(x));
  if (x.type === "vpc") return it.kind === "vpc" && it.props.originId === `vpcOrigin-${x.host}`;
  return it.kind === "http" && same({ of: it.of, props: it.props }, http(x, it.props.originId));
};
const REQUESTS: any = { s3: "cors-s3", "api-gateway": "all-viewer-except-host", vpc: "all-viewer", http: "all-viewer", https: "all-viewer" };
const isOptionsOf = (x: any, it: any, log: any) => isOriginOf(x, it.origin) && it.realtimeLogConfig.realtimeLogConfigRef.realtimeLogConfigArn === log && it.viewerProtocolPolicy === "redirect-to-https" && it.allowedMethods === (x.all ? "ALL" : "GET,HEAD,OPTIONS") && it.cachedMethods === "GET,HEAD,OPTIONS" && it.responseHeadersPolicy === "cors-preflight" && it.originRequestPolicy === REQUESTS[x.type] && it.cachePolicy.props.maxTtl.ms === x.ttl * 1000 && it.edgeLambdas.length === 0 && it.functionAssociations.length === 0;
const distributed = (i: any, xs: any[], more?: (b: any) => void): any => stack().withDistribution(i.name, i.certificate, (b: any) => { b.withLogConfig(i.log).withAliasName(...i.aliases).withAclRule(RULES); for (const x of xs) if (x.type === "vpc") b.withVpcOrigin(x.host, `arn:${x.host}`); more?.(b); b.withBehaviors(...xs.map(behaviorOf)); });
const RULES: any = WafRules.per5min(100, 50);
const optionsOf = (r: any) => made(r, "Distribution")[0].props;
export const kindsOfOrigin = spec({
  target: "CloudfrontCdkStack.createBehavior, createOrigin, createS3Origin",
  inputs: { ...BASE, x: path27(anyType) },
  call: (i) => distributed(i, [{ ...i.x, path: "*" }]),
  ensures: {
    options: (o, r) => r.ok && made(r, "Distribution").length === 1 && isOptionsOf(o.x, optionsOf(r).defaultBehavior, o.log) && same(optionsOf(r).additionalBehaviors, {}),
    privateNetwork: (o, r) => {
      if (o.x.type !== "vpc") return made(r, "CfnVpcOrigin").length === 0;
      const p = optionsOf(r).defaultBehavior.origin.props, c = made(r, "CfnVpcOrigin");
      return c.length === 1 && same(c[0].props.vpcOriginEndpointConfig, { arn: `arn:${o.x.host}`, httpsPort: 443, httpPort: 80, name: `CloudfrontVpcOrigin-${o.x.host}`, originProtocolPolicy: "http-only" }) && optionsOf(r).defaultBehavior.origin.of === c[0].it.ref && p.readTimeout.ms === o.x.timeout * 1000 && same(p.customHeaders, o.x.apiKey ? { "x-api-key": o.x.apiKey } : {});
    },
  },
});
const own = obj({ path: str(), host: str(), type: or(lit("http"), lit("api-gateway")), apiKey: opt(str({ min: 1 })), timeout: int(1, 180) });
const full = (x: any) => ({ prefix: undefined, ttl: 60, all: false, ...x });
export const origins = spec({
  target: "CloudfrontCdkStack.getOrigin, createAdditionalBehaviors",
  bounded: "three paths",
  inputs: { ...BASE, a: own, b: own, c: own },
  requires: (i) => i.b.path !== "*" && i.c.path !== "*" && i.b.path !== i.c.path,
  call: (i) => distributed(i, [full(i.b), full({ ...i.a, path: "*" }), full(i.c)]),
  ensures: {
    everyPath: (o, r) => r.ok && isOptionsOf(full(o.a), optionsOf(r).defaultBehavior, o.log) && isOptionsOf(full(o.b), optionsOf(r).additionalBehaviors[o.b.path], o.log) && isOptionsOf(full(o.c), optionsOf(r).additionalBehaviors[o.c.path], o.log) && Object.keys(optionsOf(r).additionalBehaviors).length === 2,
    toldApart: (o, r) => { const p = optionsOf(r), x = [p.defaultBehavior.origin, p.additionalBehaviors[o.b.path].origin, p.additionalBehaviors[o.c.path].origin]; return x.every((a: any) => x.every((b: any) => a.props.originId !== b.props.originId || same({ of: a.of, props: a.props }, { of: b.of, props: b.props }))); },
  },
});
const plain = obj({ path: str(), type: anyType, host: str(), prefix: opt(str()), apiKey: opt(str({ min: 1 })), timeout: int(1, 180) });
export const mixed = spec({
  target: "CloudfrontCdkStack.getOrigin",
  bounded: "two paths",
  inputs: { ...BASE, a: plain, b: plain },
  requires: (i) => i.b.path !== "*",
  call: (i) => distributed(i, [full({ ...i.a, path: "*" }), full(i.b)]),
  ensures: { everyPath: (o, r) => r.ok && isOptionsOf(full(o.a), optionsOf(r).defaultBehavior, o.log) && isOptionsOf(full(o.b), optionsOf(r).additionalBehaviors[o.b.path], o.log) },
});
export const settings = spec({
  target: "CloudfrontCdkStack.addDistribution",
  inputs: { ...BASE, x: path27(lit("http")), root: opt(str()), logicalId: opt(str({ min: 1 })), group: opt(str()) },
  call: (i) => distributed(i, [{ ...i.x, path: "*" }], (b: any) => { if (i.root !== undefined) b.withDefaultRootObject(i.root); if (i.logicalId !== undefined) b.withLogicalId(i.logicalId); if (i.group !== undefined) b.withLogGroupName(i.group); }),
  ensures: {
    asGiven: (o, r) => { const d = made(r, "Distribution"), p = d[0].props; return r.ok && d[0].id === o.name && same(p.domainNames, o.aliases) && p.certificate.certificateArn === o.certificate && p.defaultRootObject === (o.root ?? "index.html") && p.httpVersion === "http2and3" && d[0].it.node.logicalId === o.logicalId; },
    protectedByTheRules: (o, r) => { const a = made(r, "CfnWebACL"); return a.length === 1 && optionsOf(r).webAclId === a[0].it.attrArn; },
    shielded: (o, r) => { const t = recorded(r, "tag"); return t.length === 1 && t[0][0].kind === "Distribution" && t[0][1] === "EnableShieldAdvanced" && t[0][2] === "true"; },
    logGroup: (o, r) => { const g = made(r, "LogGroup"); return g.length === 1 && g[0].props.logGroupName === `aws-waf-logs-${o.group ?? o.name}-${o.aliases[0] ?? ""}` && g[0].props.removalPolicy === "retain"; },
  },
});
// what is refused, and what the stack's own settings give to a distribution that has none
export const defaultPath = spec({
  target: "DistributionBuilder.findDefaultBehavior",
  inputs: { paths: arr(or(lit("*"), str())) },
  call: (i) => new DistributionBuilder(stack(), "d", "c").withBehaviors(...i.paths.map((p: any) => new Behavior(p, Origin.http("h")))).findDefaultBehavior(),
  ensures: {
    exactlyOne: (o, r) => r.ok === (o.paths.filter((p: any) => p === "*").length === 1),
    it: (o, r) => !r.ok || r.value.behaviorPath === "*",
  },
});
const logs = or(lit(undefined), str({ min: 1 })), rules = or(lit(undefined), int(50, 1000));
const limits = (n: any): any => WafRules.per5min(n, 50);
export const refused = spec({
  target: "CloudfrontCdkStack.withDistribution, withLogConfig, withAclRule",
  bounded: "no more than two paths",
  inputs: { log: logs, stackLog: logs, rule: rules, stackRule: rules, host: str(), vpc: opt(str()), paths: or(tuple(), tuple(str()), tuple(lit("*")), tuple(lit("*"), str()), tuple(str(), lit("*"))) },
  call: (i) => {
    const s = stack();
    if (i.stackLog !== undefined) s.withLogConfig(i.stackLog);
    if (i.stackRule !== undefined) s.withAclRule(limits(i.stackRule));
    return s.withDistribution("d", "c", (b: any) => {
      if (i.log !== undefined) b.withLogConfig(i.log);
      if (i.rule !== undefined) b.withAclRule(limits(i.rule));
      if (i.vpc !== undefined) b.withVpcOrigin(i.vpc, "arn");
      b.withBehaviors(...i.paths.map((p: any) => new Behavior(p, i.vpc === undefined ? Origin.http(i.host) : Origin.vpc(i.host))));
    });
  },
  ensures: {
    refused: (o, r) => r.ok === (o.paths.filter((p: any) => p === "*").length === 1 && (o.log !== undefined || o.stackLog !== undefined) && (o.rule !== undefined || o.stackRule !== undefined) && (o.vpc === undefined || o.vpc === o.host)),
    log: (o, r) => !r.ok || [optionsOf(r).defaultBehavior, ...Object.keys(optionsOf(r).additionalBehaviors).map((k) => optionsOf(r).additionalBehaviors[k])].every((b: any) => b.realtimeLogConfig.realtimeLogConfigRef.realtimeLogConfigArn === (o.log ?? o.stackLog)),
    rules: (o, r) => !r.ok || ruleLimits(r)["ThrottleRuleWithDigitrafficUser"] === (o.rule ?? o.stackRule),
    oneOfEach: (o, r) => !r.ok || (made(r, "CfnWebACL").length === 1 && made(r, "Distribution").length === 1 && new Set(aclRules(r).map((x: any) => x.name)).size === aclRules(r).length),
  },
});
// a second distribution of the same stack takes nothing from the first
export const second = spec({
  target: "CloudfrontCdkStack.withDistribution",
  inputs: { ...BASE, x: own, y: own, vpc: str() },
  call: (i) => { const s = stack().withLogConfig(i.log).withAclRule(RULES); const one = (name: any, x: any) => s.withDistribution(name, i.certificate, (b: any) => b.withBehaviors(behaviorOf(full({ ...x, path: "*" })))); one("first", i.x); one("second", i.y); },
  ensures: { own: (o, r) => { const d = made(r, "Distribution"); return r.ok && d.length === 2 && isOptionsOf(full(o.x), d[0].props.defaultBehavior, o.log) && isOptionsOf(full(o.y), d[1].props.defaultBehavior, o.log) && distinct(made(r, "CfnWebACL").map((x: any) => x.id)); } },
});
export const secondVpc = spec({
  target: "CloudfrontCdkStack.withDistribution",
  inputs: { name: str() },
  call: (i) => { const s = stack().withLogConfig("l").withAclRule(RULES); s.withDistribution("first", "c", (b: any) => b.withVpcOrigin(i.name, "arn").withBehaviors(Behavior.vpcLb("*", i.name).withoutGzipRequirementLambda().removeViewerResponseLambda())); return s.withDistribution("second", "c", (b: any) => b.withBehaviors(Behavior.vpcLb("*", i.name).withoutGzipRequirementLambda().removeViewerResponseLambda())); },
  ensures: { ownOrigins: (o, r) => !r.ok && made(r, "Distribution").length === 1 },
});

// Cache policies: two uses share one exactly when they ask for the same.
const aclRules = (r: any) => made(r, "CfnWebACL")[0].props.rules;
const ruleLimits = (r: any) => { const out: any = {}; for (const x of aclRules(r)) if (x.statement.rateBasedStatement) out[x.name] = x.statement.rateBasedStatement.limit; return out; };
const few = or(tuple(), tuple(str()), tuple(str(), str()));
const policy = obj({ ttl: oneOf(30, 60, 120, 600), headers: few, keys: few });
const isPolicyOf = (x: any, p: any) => same(p, { minTtl: { ms: 0 }, maxTtl: { ms: x.ttl * 1000 }, defaultTtl: { ms: x.ttl * 1000 }, ...(x.headers.length > 0 ? { headerBehavior: { behavior: "whitelist", headers: x.headers } } : {}), enableAcceptEncodingGzip: true, enableAcceptEncodingBrotli: true, queryStringBehavior: x.keys.length > 0 ? { behavior: "whitelist", queryStrings: x.keys } : { behavior: "all" } });
export const cachePolicies = spec({
  target: "CachePolicyFactory.getCachePolicy",
  bounded: "no more than two headers and two query parameters",
  inputs: { a: policy, b: policy },
  call: (i) => { const f: any = new CachePolicyFactory(stack()); const at = (x: any) => f.getCachePolicy(x.ttl, x.headers, x.keys); return [at(i.a), at(i.b)].map((p: any) => ({ id: p.node.id, props: p.props })); },
  ensures: {
    asAsked: (o, r) => r.ok && isPolicyOf(o.a, r.value[0].props) && isPolicyOf(o.b, r.value[1].props),
    shared: (o, r) => (made(r, "CachePolicy").length === 1) === same(o.a, o.b),
    named: (o, r) => distinct(made(r, "CachePolicy").map((x: any) => x.id)),
  },
});
// one use of any length
export const cachePolicy = spec({
  target: "CachePolicyFactory.getCachePolicy",
  inputs: { ttl: oneOf(30, 60, 120, 600), headers: arr(str()), keys: arr(str()) },
  call: (i) => { const b: any = new Behavior("*", Origin.http("h")); b.withCacheTtl(i.ttl).withCacheHeaders(...i.headers).withQueryCacheKeys(...i.keys); return stack().createBehavior(b, "log").cachePolicy.props; },
  ensures: { asAsked: (o, r) => r.ok && isPolicyOf(o, r.value) },
});

// Edge programs as deployed: the bundled program with its settings written in, nothing of it lost, and no more rights than it needs.
// the bundled programs, with every place that settings are written to; each setting is written into its own program only
const MARKS = '1 "EXT_REDIRECT_URL" 2 "EXT_PATHS_TO_REMOVE" 3 "EXT_IP" 4 "EXT_DOMAIN_NAME" 5 "EXT_HOST_NAME" 6 "EXT_IP" 7 "EXT_DOMAIN_NAME" 8 "EXT_REDIRECT_URL" 9';
const filled = (m: any) => `1 "${m.redirect ?? "EXT_REDIRECT_URL"}" 2 "${m.count ?? "EXT_PATHS_TO_REMOVE"}" 3 "${m.ip ?? "EXT_IP"}" 4 "${m.domain ?? "EXT_DOMAIN_NAME"}" 5 "${m.host ?? "EXT_HOST_NAME"}" 6 "${m.ip ?? "EXT_IP"}" 7 "${m.domain ?? "EXT_DOMAIN_NAME"}" 8 "${m.redirect ?? "EXT_REDIRECT_URL"}" 9 `;
const setting = str({ re: /^[^$]*$/ });
const FUNCTIONS: any = {
  indexHtml: [(s: any) => createIndexHtml(s), "function-index-html", (i: any) => ({})],
  redirect: [(s: any, i: any) => createRedirectFunction(s, i.setting), "function-redirect", (i: any) => ({ redirect: i.setting })],
  removePath: [(s: any, i: any) => createPathRewriteFunction(s, i.count), "function-rewrite-uri", (i: any) => ({ count: `${i.count}` })],
  headers: [(s: any) => createHttpHeadersFunction(s), "function-http-headers", (i: any) => ({})],
};
export const functionCode = spec({
  target: "createIndexHtml, createRedirectFunction, createPathRewriteFunction, createHttpHeadersFunction, createCloudfrontFunction",
  inputs: { kind: or(...Object.keys(FUNCTIONS).map((k) => lit(k))), setting, count: int(0, 20), exported: bool(), previous: bool() },
  call: (i) => { const s = stack(); files.text = `${MARKS} ${i.exported ? "exports.handler = handler" : ""}`; if (i.previous) createHttpHeadersFunction(s); files.read = ""; const f: any = FUNCTIONS[i.kind][0](s, i); return { read: files.read, props: f.props, after: f.node.deps.map((x: any) => x.node.id) }; },
  ensures: {
    program: (o, r) => r.ok && r.value.read === `dist/lambda/${FUNCTIONS[o.kind][1]}.cjs`,
    code: (o, r) => r.value.props.code.kind === "inline" && r.value.props.code.code === filled(FUNCTIONS[o.kind][2](o)) && r.value.props.runtime === "js2",
    oneAfterAnother: (o, r) => !o.previous || same(r.value.after, ["http-headers-function"]),
  },
});
const LAMBDAS: any = {
  gzip: [(s: any, r: any) => createGzipRequirement(s, r), "lambda-gzip-requirement", (i: any) => ({})],
  weathercam: [(s: any, r: any, i: any) => createWeathercamRewrite(s, r, i.setting, i.other), "lambda-weathercam-rewrite", (i: any) => ({ domain: i.setting, host: i.other })],
  headers: [(s: any, r: any) => createHttpHeaders(s, r), "lambda-http-headers", (i: any) => ({})],
  weathercamHeaders: [(s: any, r: any) => createWeathercamHttpHeaders(s, r), "lambda-weathercam-http-headers", (i: any) => ({})],
  restriction: [(s: any, r: any, i: any) => createIpRestriction(s, r, i.other, i.setting), "lambda-ip-restriction", (i: any) => ({ ip: i.setting })],
  lam: [(s: any, r: any, i: any) => createLamRedirect(s, r, i.setting), "lambda-lam-redirect", (i: any) => ({})],
  lamHeaders: [(s: any, r: any) => createLamHeaders(s, r), "lambda-lam-headers", (i: any) => ({})],
};
export const lambdaCode = spec({
  target: "createGzipRequirement, createWeathercamRewrite, createHttpHeaders, createWeathercamHttpHeaders, createIpRestriction, createLamRedirect, createLamHeaders, createFunction",
  inputs: { kind: or(...Object.keys(LAMBDAS).map((k) => lit(k))), setting: str({ re: /^[^$_]*$/ }), other: str({ re: /^[^$_]*$/ }) },
  call: (i) => { const s = stack(); files.text = `${MARKS} exports.handler = handler`; files.read = ""; const role = new Role(s, "edge", {}); const f: any = LAMBDAS[i.kind][0](s, role, i); return { read: files.read, of: f.versionOf }; },
  ensures: {
    program: (o, r) => r.ok && r.value.read === `dist/lambda/${LAMBDAS[o.kind][1]}.cjs` && made(r, "Function").length === 1 && made(r, "Function")[0].id === r.value.of,
    code: (o, r) => { const p = made(r, "Function")[0].props; return p.code.kind === "inline" && p.code.code === `${filled(LAMBDAS[o.kind][2](o))}exports.handler = handler`; },
    limits: (o, r) => { const p = made(r, "Function")[0].props; return p.handler === "index.handler" && p.memorySize === 128 && p.timeout.ms === 2000 && p.reservedConcurrentExecutions === 10 && p.role.node.id === "edge"; },
    rights: (o, r) => { const g = recorded(r, "grantSecret"), n = recorded(r, "import"); return o.kind !== "lam" ? g.length === 0 : g.length === 1 && g[0][1].node.id === r.value.of && same(n.map((x: any) => [x[0], x[2]]), [["Secret", o.setting]]); },
  },
});

// Access rules: limits that are too low or missing are refused, and the rest become the rules of the distribution.
const limit = or(lit(undefined), int(0, 2000)), byPath = or(lit(undefined), int(0, 2000));
const low = (x: any) => x !== undefined && x < 50;
const PATH = /^\/api\//;
const rulesOf = (i: any): any => { const p = i.byPath === undefined ? undefined : { path: PATH, limit: i.byPath }; return i.kind === "selected" ? WafRules.per5minWithSelectedCommon(["SQLiRuleSet"], i.user, i.anonymous, i.userPath, i.anonymousPath, undefined) : i.kind === "count" ? WafRules.per5minCount(i.user, i.anonymous, i.userPath, i.anonymousPath, p) : WafRules.per5min(i.user, i.anonymous, i.userPath, i.anonymousPath, p, undefined); };
export const throttling = spec({
  target: "WafRules.per5min, per5minWithSelectedCommon, checkLimits, createWebAcl",
  inputs: { kind: or(lit("all"), lit("selected")), user: int(0, 2000), anonymous: int(0, 2000), userPath: limit, anonymousPath: limit, byPath, environment: str(), name: str() },
  call: (i) => createWebAcl(stack(), i.environment, [rulesOf(i)], i.name),
  ensures: {
    lowIsRefused: (o, r) => r.ok === !(low(o.user) || low(o.anonymous) || low(o.userPath) || low(o.anonymousPath) || (o.kind === "all" && low(o.byPath))),
    limits: (o, r) => !r.ok || same(ruleLimits(r), { ThrottleRuleWithDigitrafficUser: o.user, ThrottleRuleWithAnonymousUser: o.anonymous, ...(o.userPath === undefined ? {} : { ThrottleRuleIPQueryWithDigitrafficUser: o.userPath }), ...(o.anonymousPath === undefined ? {} : { ThrottleRuleIPQueryWithAnonymousUser: o.anonymousPath }), ...(o.byPath === undefined || o.kind !== "all" ? {} : { ThrottleRuleWithAnonymousUserByPath: o.byPath }) }),
    blocks: (o, r) => !r.ok || aclRules(r).every((x: any) => x.statement.rateBasedStatement === undefined || x.action.block !== undefined),
    managed: (o, r) => !r.ok || same(aclRules(r).filter((x: any) => x.statement.managedRuleGroupStatement).map((x: any) => x.statement.managedRuleGroupStatement.name), o.kind === "all" ? ["AWSManagedRulesCommonRuleSet", "AWSManagedRulesAmazonIpReputationList", "AWSManagedRulesKnownBadInputsRuleSet", "AWSManagedRulesSQLiRuleSet"] : ["AWSManagedRulesSQLiRuleSet"]),
    path: (o, r) => !r.ok || aclRules(r).every((x: any) => x.name !== "ThrottleRuleWithAnonymousUserByPath" || JSON.stringify(x.statement).includes(JSON.stringify(PATH.source))),
  },
});
export const counting = spec({
  target: "WafRules.per5minCount, createWebAcl",
  inputs: { kind: lit("count"), user: limit, anonymous: limit, userPath: limit, anonymousPath: limit, byPath },
  requires: (i) => i.user !== undefined || i.anonymous !== undefined || i.userPath !== undefined || i.anonymousPath !== undefined,
  call: (i) => createWebAcl(stack(), "e", [rulesOf(i)], "n"),
  ensures: {
    onlyCounts: (o, r) => r.ok && aclRules(r).every((x: any) => x.action !== undefined && x.action.count !== undefined && x.action.block === undefined),
    limits: (o, r) => same(aclRules(r).map((x: any) => x.statement.rateBasedStatement.limit), [o.user, o.userPath, o.anonymous, o.anonymousPath].filter((x: any) => x !== undefined)),
  },
});
// Edge programs and rights through the distribution: what a path names is what the distribution runs at that event.
const PICK: any = { indexHtml: ["index-html"], redirect: ["redirect-function"], removePath: ["rewrite-uri-function-3"], headersFunction: ["http-headers-function"], headers: ["http-headers"], gzip: ["gzip-requirement"], gzipAtOrigin: ["gzip-requirement"], restriction: ["ip-restriction-p"], restrictionAtOrigin: ["ip-restriction-p"], weathercam: ["weathercam-rewrite", "weathercam-http-headers", "http-headers"], lam: ["lam-redirect", "lam-headers", "http-headers"] };
export const programs = spec({
  target: "CloudfrontCdkStack.createEdgeLambdas, createFunctions, EdgeLambdaFactory, EdgeFunctionFactory",
  inputs: { a: or(...Object.keys(ADDS).map((k) => lit(k))), b: or(...Object.keys(ADDS).map((k) => lit(k))), setting: str({ re: /^[^$_]+$/ }) },
  call: (i) => { files.text = MARKS + " "; const make = (op: any, path: any) => ADDS[op][0](new Behavior(path, Origin.http("h")), { text: i.setting, count: 3 }); const s = stack(); s.withDistribution("d", "c", (b: any) => b.withLogConfig("l").withAclRule(RULES).withBehaviors(make(i.a, "*"), make(i.b, "/b"))); return made; },
  ensures: {
    runs: (o, r) => { const p = optionsOf(r); return r.ok && ([[o.a, p.defaultBehavior], [o.b, p.additionalBehaviors["/b"]]] as any[]).every(([op, it]: any) => same([...it.functionAssociations.map((x: any) => ({ at: x.eventType, is: x.function.node.id, kind: "function" })), ...it.edgeLambdas.map((x: any) => ({ at: x.eventType, is: x.functionVersion.versionOf, kind: "lambda" }))], Object.keys(ADDS[op][1]).map((e, n) => ({ at: e, is: PICK[op][n], kind: ADDS[op][1][e].kind })))); },
    madeOnce: (o, r) => distinct([...made(r, "Function"), ...made(r, "EdgeFunction")].map((x: any) => x.id)),
    role: (o, r) => made(r, "Role").length === 1 && same(made(r, "Role")[0].props.assumedBy.principals.map((x: any) => x.name), ["lambda.amazonaws.com", "edgelambda.amazonaws.com"]) && same(made(r, "Role")[0].props.managedPolicies.map((x: any) => x.name), ["service-role/AWSLambdaBasicExecutionRole"]) && made(r, "Function").every((x: any) => x.props.role.node.id === "edgeLambdaRole") && recorded(r, "rolePolicy").length === 0 && recorded(r, "managedPolicy").length === 0,
    secret: (o, r) => recorded(r, "grantSecret").length === (o.a === "lam" || o.b === "lam" ? 1 : 0),
    settings: (o, r) => [...made(r, "Function"), ...made(r, "EdgeFunction")].every((x: any) => x.props.code.code === filled(x.id === "redirect-function" ? { redirect: o.setting } : x.id === "rewrite-uri-function-3" ? { count: "3" } : x.id === "ip-restriction-p" ? { ip: o.setting } : x.id === "weathercam-rewrite" ? { host: o.setting, domain: "u" } : {})),
  },
});
// the settings a program cannot do without
export const missing = spec({
  target: "CloudfrontCdkStack.createEdgeLambdas, createFunctions",
  inputs: { kind: or(lit("redirect"), lit("removePath"), lit("lam")) },
  call: (i) => { files.text = MARKS; const b: any = new Behavior("*", Origin.http("h")); ADDS[i.kind][0](b, { text: "", count: 0 }); return stack().createBehavior(b, "l"); },
  ensures: { refused: (o, r) => !r.ok },
});
// one and the same program for one and the same setting, another for another
export const perSetting = spec({
  target: "EdgeFunctionFactory, EdgeLambdaFactory",
  inputs: { kind: or(lit("redirect"), lit("lam"), lit("removePath")), a: str({ re: /^[^$_]+$/ }), b: str({ re: /^[^$_]+$/ }), m: int(1, 9), n: int(1, 9) },
  call: (i) => { files.text = MARKS; const s = stack(); for (const x of [{ text: i.a, count: i.m }, { text: i.b, count: i.n }]) s.createBehavior(ADDS[i.kind][0](new Behavior("*", Origin.http("h")), x), "l"); },
  ensures: { shared: (o, r) => made(r, "EdgeFunction").length + made(r, "Function").filter((x: any) => x.id === "lam-redirect").length === ((o.kind === "removePath" ? o.m === o.n : o.a === o.b) ? 1 : 2) },
});

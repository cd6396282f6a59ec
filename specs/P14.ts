// Web application firewall rules.
import { spec, str, int, bool, opt, or, lit, arr, tuple, obj, dict, oneOf, same } from "vf";
import { Construct } from "./mocks/cdk.ts";
import { AclBuilder } from "repo:lib/digitraffic-common/src/aws/infra/acl-builder.ts";
const made = (r: any, kind: string) => r.trace.filter((e: any) => e.name === "new" && e.args[0] === kind).map((e: any) => ({ id: e.args[1], props: e.args[2] }));
const builder = (name?: string) => new AclBuilder(new Construct("Stack", undefined, "stack", {}) as any, name);
const acl = (r: any) => made(r, "CfnWebACL")[0].props;
const sized = (op: string) => ({ sizeConstraintStatement: { comparisonOperator: op, fieldToMatch: { singleHeader: { Name: "digitraffic-user" } }, textTransformations: [{ priority: 0, type: "NONE" }], size: 0 } });
const uriKeys = [{ uriPath: { textTransformations: [{ priority: 1, type: "LOWERCASE" }, { priority: 2, type: "NORMALIZE_PATH" }, { priority: 3, type: "MD5" }] } }, { ip: {} }];
const scope = (header: boolean, path?: RegExp) => {
  const user = header ? sized("GT") : { notStatement: { statement: sized("GE") } };
  return path === undefined ? user : { andStatement: { statements: [user, { regexMatchStatement: { fieldToMatch: { uriPath: {} }, regexString: path.source, textTransformations: [{ priority: 0, type: "NONE" }] } }] } };
};
const rate = (limit: any, header: boolean, uri: boolean, path?: RegExp) => ({ rateBasedStatement: uri ? { aggregateKeyType: "CUSTOM_KEYS", customKeys: uriKeys, limit, scopeDownStatement: scope(header, path) } : { aggregateKeyType: "IP", limit, scopeDownStatement: scope(header, path) } });
const action = (key: any) => (key ? { block: { customResponse: { responseCode: 429, customResponseBodyKey: key } } } : { count: {} });
const rule = (x: any) => ({ name: x.name, visibilityConfig: { sampledRequestsEnabled: true, cloudWatchMetricsEnabled: true, metricName: x.name }, action: action(x.key), statement: rate(x.limit, x.header, x.uri, x.path) });
const throttle = obj({ name: str(), limit: int(), header: bool(), uri: bool(), key: opt(str()) });
const distinct = (names: any[]) => new Set(names).size === names.length;
// any number of counting and of blocking rules
const counting = obj({ name: str(), limit: int(), header: bool(), uri: bool() });
const blocking = obj({ name: str(), limit: int(), header: bool(), uri: bool(), key: str({ min: 1 }) });
const add = (b: any, x: any) => b.withThrottleRule(x.name, x.limit, x.header, x.uri, x.key, x.path);
const built = {
  refused: (o: any, r: any) => r.ok === (o.counts.length + o.blocks.length > 0 && distinct([...o.counts, ...o.blocks].map((x: any) => x.name))),
  rules: (o: any, r: any) => !r.ok || same(acl(r).rules.map(({ priority, ...x }: any) => x), [...o.counts, ...o.blocks].map(rule)),
  priorities: (o: any, r: any) => !r.ok || acl(r).rules.every((x: any, n: number) => x.priority === n),
  acl: (o: any, r: any) => !r.ok || (made(r, "CfnWebACL").length === 1 && made(r, "CfnWebACL")[0].id === o.name && same(acl(r).defaultAction, { allow: {} }) && acl(r).scope === "CLOUDFRONT" && same(acl(r).customResponseBodies ?? {}, {})),
};
export const order = spec({
  target: "AclBuilder.build",
  inputs: { name: str(), counts: arr(counting), blocks: arr(blocking), countsFirst: bool() },
  call: (i) => { const b = builder(i.name); if (i.countsFirst) for (const x of i.counts) add(b, x); for (const x of i.blocks) add(b, x); if (!i.countsFirst) for (const x of i.counts) add(b, x); b.build(); },
  ensures: built,
});
// any interleaving of three, with a path pattern
const path = or(lit(undefined), oneOf("/a", "/b"));
const any = obj({ name: str(), limit: int(), header: bool(), uri: bool(), key: opt(str()), pattern: path });
const plain = obj({ name: str(), limit: int(), key: opt(str()) });
const withPath = (x: any) => ({ ...x, path: x.pattern === "/a" ? /^\/api\/a/ : x.pattern === "/b" ? /b$/i : undefined });
export const mixed = spec({
  target: "AclBuilder.withThrottleRule",
  bounded: "three rules",
  inputs: { rules: or(tuple(plain, plain, plain), tuple(any)) },
  call: (i) => { const b = builder(); for (const x of i.rules) add(b, withPath({ header: true, uri: false, ...x })); b.build(); },
  ensures: {
    refused: (o, r) => r.ok === distinct(o.rules.map((x: any) => x.name)),
    rules: (o, r) => !r.ok || same(acl(r).rules, [...o.rules.filter((x: any) => !x.key), ...o.rules.filter((x: any) => x.key)].map((x: any, n: number) => ({ ...rule(withPath({ header: true, uri: false, ...x })), priority: n }))),
  },
});
// the named limits: a missing limit adds nothing, and a throttling limit tells itself in its response
const named: any = {
  throttleUser: [(b: any, l: any) => b.withThrottleDigitrafficUserIp(l), "ThrottleRuleWithDigitrafficUser", true, false, true],
  throttleUserPath: [(b: any, l: any) => b.withThrottleDigitrafficUserIpAndUriPath(l), "ThrottleRuleIPQueryWithDigitrafficUser", true, true, true],
  throttleAnonymous: [(b: any, l: any) => b.withThrottleAnonymousUserIp(l), "ThrottleRuleWithAnonymousUser", false, false, true],
  throttleAnonymousPath: [(b: any, l: any) => b.withThrottleAnonymousUserIpAndUriPath(l), "ThrottleRuleIPQueryWithAnonymousUser", false, true, true],
  throttleAnonymousByPath: [(b: any, l: any, p: any) => b.withThrottleAnonymousUserIpByUriPath(l, p), "ThrottleRuleWithAnonymousUserByPath", false, false, true],
  countUser: [(b: any, l: any) => b.withCountDigitrafficUserIp(l), "CountRuleWithDigitrafficUser", true, false, false],
  countUserPath: [(b: any, l: any) => b.withCountDigitrafficUserIpAndUriPath(l), "CountRuleIPQueryWithDigitrafficUser", true, true, false],
  countAnonymous: [(b: any, l: any) => b.withCountAnonymousUserIp(l), "CountRuleWithAnonymousUser", false, false, false],
  countAnonymousPath: [(b: any, l: any) => b.withCountAnonymousUserIpAndUriPath(l), "CountRuleIPQueryWithAnonymousUser", false, true, false],
};
const kind = oneOf("throttleUser", "throttleUserPath", "throttleAnonymous", "throttleAnonymousPath", "throttleAnonymousByPath", "countUser", "countUserPath", "countAnonymous", "countAnonymousPath");
const limited = obj({ kind, limit: opt(int(1)) });
const described = (x: any) => { const [, name, header, uri, block] = named[x.kind]; return { name, header, uri, block, limit: x.limit, path: x.kind === "throttleAnonymousByPath" ? /^\/v1/ : undefined }; };
const bodyOf = (b: any) => b.statement.rateBasedStatement.limit;
export const limits = spec({
  target: "AclBuilder.withThrottle… / withCount…",
  bounded: "two limits",
  inputs: { limits: tuple(limited, limited), pathGiven: bool() },
  call: (i) => { const b = builder(); for (const x of i.limits) named[x.kind][0](b, x.limit, i.pathGiven ? /^\/v1/ : undefined); b.build(); },
  ensures: {
    rules: (o, r) => {
      const want = o.limits.filter((x: any) => x.limit !== undefined && (o.pathGiven || x.kind !== "throttleAnonymousByPath")).map(described);
      if (!r.ok) return want.length === 0 || (want.length === 2 && want[0].name === want[1].name && (want[0].block || want[0].limit === want[1].limit));
      const rules = acl(r).rules, bodies = acl(r).customResponseBodies ?? {};
      const ordered = [...want.filter((x: any) => !x.block), ...want.filter((x: any) => x.block)];
      return rules.length === ordered.length && rules.every((x: any, n: number) => {
        const w = ordered[n];
        if (x.priority !== n || !x.name.startsWith(w.name) || !same(x.statement, rate(w.limit, w.header, w.uri, w.path))) return false;
        if (!w.block) return same(x.action, { count: {} });
        const answer = x.action.block.customResponse;
        return answer.responseCode === 429 && same(bodies[answer.customResponseBodyKey], { content: `Request rate is limited to ${w.limit} requests in a 5 minute window.`, contentType: "TEXT_PLAIN" });
      });
    },
  },
});
// managed rule groups with exclusions, address lists and the query size limit
const group = (name: string, excluded: any[]) => ({ name: `AWS-AWSManagedRules${name}`, overrideAction: { none: {} }, statement: { managedRuleGroupStatement: { vendorName: "AWS", name: `AWSManagedRules${name}`, excludedRules: excluded.map((x: any) => ({ name: x })) } }, visibilityConfig: { sampledRequestsEnabled: true, cloudWatchMetricsEnabled: true, metricName: `AWS-AWSManagedRules${name}` } });
const groups = ["CommonRuleSet", "AmazonIpReputationList", "KnownBadInputsRuleSet", "SQLiRuleSet"];
const always: any = { CommonRuleSet: ["NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY"] };
export const managed = spec({
  target: "AclBuilder.withAWSManagedRules",
  inputs: { all: bool(), on: tuple(bool(), bool(), bool(), bool()), excluded: opt(obj({ CommonRuleSet: opt(arr(str())), AmazonIpReputationList: opt(arr(str())), KnownBadInputsRuleSet: opt(arr(str())), SQLiRuleSet: opt(arr(str())) })) },
  call: (i) => { const b = builder(); b.withAWSManagedRules(i.all ? "all" : (groups.filter((_, n) => (i.on as any)[n]) as any), i.excluded as any); b.build(); },
  ensures: {
    rules: (o, r) => {
      const on = groups.filter((_, n) => o.all || o.on[n]);
      return on.length === 0 ? !r.ok : r.ok && same(acl(r).rules, on.map((g, n) => ({ ...group(g, [...(always[g] ?? []), ...((o.excluded as any)?.[g] ?? [])]), priority: n })));
    },
  },
});
export const addresses = spec({
  target: "AclBuilder.withIpBlacklistRule / withIpWhitelistRule / withQueryStringSizeRestriction",
  inputs: { blocked: opt(arr(str())), allowed: opt(arr(str())), size: opt(int()) },
  requires: (i) => i.blocked !== undefined || i.allowed !== undefined || i.size !== undefined,
  call: (i) => { const b = builder(); if (i.blocked !== undefined) b.withIpBlacklistRule(i.blocked); if (i.allowed !== undefined) b.withIpWhitelistRule(i.allowed); if (i.size !== undefined) b.withQueryStringSizeRestriction(i.size); b.build(); },
  ensures: {
    rules: (o, r) => {
      const sets = made(r, "CfnIPSet");
      const arn = (list: any) => { const s = sets.find((x: any) => same(x.props, { ipAddressVersion: "IPV4", scope: "CLOUDFRONT", addresses: list })); return s && `attrArn(${s.id})`; };
      const want: any[] = [];
      if (o.blocked !== undefined) want.push({ ipSetReferenceStatement: { arn: `attrArn(${sets[0].id})` } });
      if (o.allowed !== undefined) want.push({ notStatement: { statement: { ipSetReferenceStatement: { arn: `attrArn(${sets[sets.length - 1].id})` } } } });
      if (o.size !== undefined) want.push({ sizeConstraintStatement: { fieldToMatch: { queryString: {} }, comparisonOperator: "GT", size: o.size, textTransformations: [{ priority: 0, type: "NONE" }] } });
      const lists = [o.blocked, o.allowed].filter((x) => x !== undefined);
      return r.ok && same(sets.map((x: any) => x.props), lists.map((addresses) => ({ ipAddressVersion: "IPV4", scope: "CLOUDFRONT", addresses }))) && new Set(sets.map((x: any) => x.id)).size === sets.length
        && same(acl(r).rules.map((x: any) => x.statement), want) && acl(r).rules.every((x: any, n: number) => x.priority === n && same(x.action, { block: {} }));
    },
  },
});
// a response body set earlier under the same key is kept
export const responses = spec({
  target: "AclBuilder.withCustomResponseBody",
  inputs: { first: str(), second: str(), limit: int(1) },
  call: (i) => { const b = builder(); b.withCustomResponseBody("k", { content: i.first, contentType: "TEXT_PLAIN" }); b.withCustomResponseBody("k", { content: i.second, contentType: "TEXT_PLAIN" }); b.withCustomResponseBody(`IP_THROTTLE_DIGITRAFFIC_USER_${i.limit}`, { content: "mine", contentType: "TEXT_PLAIN" }); b.withThrottleDigitrafficUserIp(i.limit); b.build(); },
  ensures: {
    bodies: (o, r) => r.ok && same(acl(r).customResponseBodies.k, { content: o.second, contentType: "TEXT_PLAIN" }),
    kept: (o, r) => acl(r).customResponseBodies[acl(r).rules[0].action.block.customResponse.customResponseBodyKey].content === "mine",
    warned: (o, r) => r.trace.filter((e: any) => e.name === "log.warn").length === 1,
  },
});

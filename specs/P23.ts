// Canary checks: a check that fails makes the canary fail, and only then.
import { spec, str, num, int, bool, opt, or, lit, arr, tuple, obj, fn, err, oneOf, same, record, setEnv, callOf } from "vf";
import { recorded } from "./infra.ts";
import { control } from "./mocks/synthetics.ts";
import { control as dbs } from "./mocks/pg-promise.ts";
import { control as aws } from "./mocks/aws-client.ts";
import { control as secrets } from "./mocks/secrets-manager.ts";
import { gzipSync } from "node:zlib";
import { DatabaseCountChecker } from "repo:lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts";
import * as u from "repo:lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts";
import { Asserter } from "repo:lib/digitraffic-common/src/__test__/asserter.ts";
export const mocks = { Synthetics: "./mocks/synthetics.ts", "pg-promise": "./mocks/pg-promise.ts", "@aws-sdk/client-secrets-manager": "./mocks/secrets-manager.ts", "@aws-sdk/client-api-gateway": "./mocks/aws-client.ts", "@smithy/fetch-http-handler": "./mocks/aws-client.ts", vitest: null };
const settings = (r: any) => Object.fromEntries(recorded(r, "configure").map((x: any) => [x[0], x[1]]));
// database counts
const kinds: any = { one: "expectOne", zero: "expectZero", some: "expectOneOrMore" };
const holds = (kind: string, n: number) => (kind === "one" ? n === 1 : kind === "zero" ? n === 0 : n >= 1);
const check = obj({ kind: or(lit("one"), lit("zero"), lit("some")), name: str(), count: int(0) });
const secret = { username: "user", password: "password", host: "writer", ro_host: "reader", proxy_host: "proxy", proxy_ro_host: "proxy reader" };
export const counts = spec({
  target: ["DatabaseCountChecker.expect"], bounded: "at most three checks",
  inputs: { proxy: bool(), checks: or(tuple(), tuple(check), tuple(check, check), tuple(check, check, check)), fails: bool() },
  env: { SECRET_ID: lit("secret"), AWS_REGION: lit("region") },
  call: async (i) => {
    secrets.calls = 0; secrets.answer = () => ({ SecretString: JSON.stringify(secret) });
    dbs.fails = i.fails ? ["select count(*) 0"] : []; dbs.conns = []; dbs.rows = (sql: string) => ({ count: i.checks[Number(sql.slice(-1))]?.count });
    const c: any = i.proxy ? DatabaseCountChecker.createForProxy() : DatabaseCountChecker.createForRds();
    i.checks.forEach((x: any, n: number) => c[kinds[x.kind]](x.name, `select count(*) ${n}`));
    return await c.expect();
  },
  ensures: {
    verdict: (o, r) => (o.checks.length > 0 && !o.fails && o.checks.every((x: any) => holds(x.kind, x.count)) ? r.ok && r.value === "OK" : !r.ok),
    steps: (o, r) => o.fails || same(recorded(r, "step").map((x: any) => [x[0], x[1]]), o.checks.map((x: any) => [x.name, !holds(x.kind, x.count)])),
    goesOn: (o, r) => recorded(r, "step").every((x: any) => x[2].continueOnStepFailure === true),
    readOnly: (o, r) => recorded(r, "connect").length === (o.checks.length > 0 ? 1 : 0) && recorded(r, "connect").every((x: any) => x[0].startsWith(`postgresql://user:password@${o.proxy ? "proxy reader" : "reader"}?`)) && recorded(r, "pool.end").length === recorded(r, "connect").length,
    reported: (o, r) => settings(r).withFailedCanaryMetric === true && settings(r).disableRequestMetrics === true,
  },
});
export const countSql = spec({
  target: ["DatabaseCountChecker"],
  inputs: { kind: or(lit("one"), lit("zero"), lit("some")), sql: str() },
  call: (i) => { (DatabaseCountChecker.createForProxy() as any)[kinds[i.kind]]("name", i.sql); },
  ensures: { refused: (o, r) => r.ok === (o.sql.toLowerCase().includes("select") && o.sql.toLowerCase().includes("count")) },
});
// requests
const KEY = "x-api-key";
const words = str({ re: /[a-zA-Z0-9\-_. \/?=]*/ });
const request = (r: any) => recorded(r, "httpStep").map((x: any) => x[1]);
export const requests = spec({
  target: ["UrlChecker"],
  inputs: { how: or(lit("expect200"), lit("expect404"), lit("expect400"), lit("expect403WithoutApiKey"), lit("expectStatus")), host: str(), key: opt(str()), url: str(), status: int(100, 599) },
  call: async (i) => { control.response = undefined; const c: any = new u.UrlChecker(i.host, i.key); await (i.how === "expectStatus" ? c.expectStatus(i.status, i.url, async () => {}) : c[i.how](i.url)); return c.done(); },
  ensures: {
    request: (o, r) => r.ok && request(r).length === 1 && same({ ...request(r)[0], headers: undefined }, { hostname: o.host, method: "GET", protocol: "https:", path: o.url, headers: undefined }),
    key: (o, r) => same(request(r)[0].headers, { "Digitraffic-User": "internal-digitraffic-canary", "Accept-Encoding": "gzip", Accept: "*/*", ...(o.key && o.how !== "expect403WithoutApiKey" ? { [KEY]: o.key } : {}) }),
    noted: (o, r) => recorded(r, "log.error").length === (o.how === "expect403WithoutApiKey" && !o.key ? 1 : 0),
    named: (o, r) => recorded(r, "httpStep")[0][0].startsWith(`Verify ${o.how === "expectStatus" ? o.status : o.how.slice(6, 9)} for `),
    settings: (o, r) => same(settings(r), { disableRequestMetrics: true, withIncludeRequestBody: false, withIncludeRequestHeaders: false, withIncludeResponseBody: false, withIncludeResponseHeaders: false, withFailedCanaryMetric: true }),
  },
});
export const stepNames = spec({
  target: ["sanitizeStepName"],
  bounded: "five addresses", inputs: { url: or(lit("/api/v1/x"), lit("/api/x?auth=secret"), lit("/a_b-c.d e"), lit("/ä?x=1&auth=secret&y=2"), lit("auth=")) },
  call: async (i) => { control.response = undefined; await new u.UrlChecker("host").expect404(i.url); },
  ensures: { clean: (o, r) => { const n = recorded(r, "httpStep")[0][0]; return r.ok && /^[a-zA-Z0-9\-_. ]*$/.test(n) && !n.includes("secret"); } },
});
const outcome = or(lit("passes"), lit("fails"), lit("throws"));
export const everyCheck = spec({
  target: ["UrlChecker.expect200"], bounded: "at most three checks",
  inputs: { checks: or(tuple(), tuple(outcome), tuple(outcome, outcome), tuple(outcome, outcome, outcome)), problem: err() },
  call: (i) => {
    const res = { statusCode: 200 }; control.response = res;
    return new u.UrlChecker("host", "key").expect200("/x", ...(i.checks.map((c: string) => (x: any) => { record("check", x === res); if (c === "throws") throw i.problem; return c === "fails" ? Promise.reject(i.problem) : Promise.resolve(); }) as any[]));
  },
  ensures: {
    verdict: (o, r, i) => (o.checks.every((c: string) => c === "passes") ? r.ok : !r.ok && r.error === i.problem),
    given: (o, r) => recorded(r, "check").every((x: any) => x[0] === true) && (o.checks.some((c: string) => c === "throws") || recorded(r, "check").length === o.checks.length),
  },
});
export const refusals = spec({
  target: ["UrlChecker.expect404", "UrlChecker.expect400", "UrlChecker.expect403WithoutApiKey", "validateStatusCodeAndContentType"],
  inputs: { how: or(lit(404), lit(400), lit(403)), status: opt(int()), message: opt(str()), type: opt(str()), media: opt(oneOf("application/json", "text/plain")) },
  call: (i) => {
    control.response = { statusCode: i.status, statusMessage: i.message, headers: { "content-type": i.type } };
    const c = new u.UrlChecker("host", "key");
    return i.how === 404 ? c.expect404("/x") : i.how === 400 ? c.expect400("/x") : c.expect403WithoutApiKey("/x", i.media as any);
  },
  ensures: { verdict: (o, r) => r.ok === (o.status === o.how && o.type === (o.how === 403 ? (o.media ?? "application/json") : "text/plain")) },
});
export const created = spec({
  target: ["UrlChecker.create", "UrlChecker.createV2"],
  inputs: { v2: bool(), key: opt(str()), fails: bool() }, env: { hostname: opt(str()), apiKeyId: opt(str()) },
  call: async (i) => { control.response = undefined; aws.answer = () => { if (i.fails) throw new Error("refused"); return { value: i.key }; }; const c = await (i.v2 ? u.UrlChecker.createV2() : u.UrlChecker.create("given host", "given key")); await c.expect404("/x"); },
  ensures: {
    refused: (o, r) => r.ok === (!o.fails && (!o.v2 || (o.env.hostname !== undefined && o.env.apiKeyId !== undefined))),
    from: (o, r) => !r.ok || (request(r)[0].hostname === (o.v2 ? o.env.hostname : "given host") && request(r)[0].headers[KEY] === (o.key || undefined) && same(recorded(r, "aws.GetApiKey").map((x: any) => x[0].apiKey), [o.v2 ? o.env.apiKeyId : "given key"])),
  },
});
// responses
const headers = obj({ cors: opt(str()), type: opt(str()), extra: opt(str()) });
const answer = (i: any, body: any): any => {
  const on: any = {};
  return { statusCode: i.status, statusMessage: i.message, headers: { "access-control-allow-origin": i.headers.cors, "content-type": i.headers.type, extra: i.headers.extra, ...(i.encoding === undefined ? {} : { "content-encoding": i.encoding }) }, on: (e: string, f: any) => { if (e === "data") for (const b of body) f(b); else if (e === "end") f(); } };
};
const good = (o: any, type: string) => !!o.status && o.status >= 200 && o.status <= 299 && !!o.headers.cors && o.headers.type === type;
const TYPES: any = { forJson: "application/json", forCSV: "text/csv", forGeojson: "application/geo+json;charset=UTF-8", forJpeg: "image/jpeg" };
export const responses = spec({
  target: ["ResponseChecker", "ContentTypeChecker"],
  inputs: { how: or(lit("forJson"), lit("forCSV"), lit("forGeojson"), lit("forJpeg"), lit("type")), status: opt(int()), message: opt(str()), headers, type: oneOf("application/json", "text/csv", "text/plain"), body: tuple(str(), str()) },
  call: async (i) => { const res = answer(i, i.body.map((b: string) => Buffer.from(b))); await (i.how === "type" ? u.ContentTypeChecker.checkContentType(i.type as any)(res) : (u.ResponseChecker as any)[i.how]().responseChecker((b: string, x: any) => { record("body", b, x === res); })(res)); },
  ensures: {
    verdict: (o, r) => r.ok === good(o, o.how === "type" ? o.type : TYPES[o.how]),
    body: (o, r) => same(recorded(r, "body"), r.ok && o.how !== "type" ? [[o.body[0] + o.body[1], true]] : []),
  },
});
export const passing = spec({
  target: ["ResponseChecker.check"],
  inputs: { status: opt(int()), message: opt(str()), headers },
  call: (i) => u.ResponseChecker.forJson().check()(answer(i, [])),
  ensures: { verdict: (o, r) => r.ok === good(o, "application/json") },
});
export const contents = spec({
  target: ["ResponseChecker.checkJson", "ContentChecker", "getResponseBody"],
  inputs: { gzip: bool(), how: or(lit("response"), lit("json"), lit("text")), value: obj({ a: num(), b: arr(str()) }), status: opt(int()), message: opt(str()), headers, problem: opt(err()) },
  call: async (i) => {
    const body = JSON.stringify(i.value), res = answer({ ...i, encoding: i.gzip ? "gzip" : undefined }, [i.gzip ? gzipSync(body) : Buffer.from(body)]);
    const f = (a: any, b: any, c: any) => { record("seen", a, b, c === res); if (i.problem) throw i.problem; };
    await (i.how === "response" ? u.ResponseChecker.forJson().checkJson(f) : i.how === "json" ? u.ContentChecker.checkJson(f) : u.ContentChecker.checkResponse((b: any, x: any) => f(undefined, b, x)))(res);
  },
  ensures: {
    verdict: (o, r, i) => (o.how === "response" && !good(o, "application/json") ? !r.ok && recorded(r, "seen").length === 0 : i.problem ? !r.ok && r.error === i.problem : r.ok),
    seen: (o, r) => (o.how === "response" && !good(o, "application/json")) || same(recorded(r, "seen"), [[o.how === "text" ? undefined : o.value, JSON.stringify(o.value), true]]),
  },
});
export const headerChecks = spec({
  target: ["HeaderChecker"],
  inputs: { value: opt(str()), missing: bool() },
  call: async (i) => { await (i.missing ? u.HeaderChecker.checkHeaderMissing("extra") : u.HeaderChecker.checkHeaderExists("extra"))(answer({ headers: { extra: i.value } }, [])); },
  ensures: { verdict: (o, r) => r.ok === (o.missing ? !o.value : !!o.value) },
});
export const asserts = spec({
  target: ["Asserter"],
  inputs: { a: or(num(), str()), b: or(num(), str()), t: bool(), n: num(), m: num(), list: opt(arr(num())), len: int(0) },
  call: (i) => { const ok = (f: any) => { try { f(); return true; } catch { return false; } }; return [ok(() => Asserter.assertEquals(i.a, i.b)), ok(() => Asserter.assertTrue(i.t)), ok(() => Asserter.assertLength(i.list, i.len)), ok(() => Asserter.assertLengthGreaterThan(i.list, i.len)), ok(() => Asserter.assertGreaterThan(i.n, i.m))]; },
  ensures: { verdicts: (o, r) => r.ok && same(r.value, [o.a === o.b, o.t, o.list !== undefined && o.list.length === o.len, o.list !== undefined && o.list.length > o.len, o.n > o.m]) },
});
export const collections = spec({
  target: ["GeoJsonChecker.validFeatureCollection"],
  inputs: { type: oneOf("FeatureCollection", "Feature", "Point"), valid: bool(), status: opt(int()), message: opt(str()), headers, given: bool(), problem: opt(err()) },
  contracts: { "lib/digitraffic-common/src/utils/geometry.ts#isValidGeoJson": (json: any) => json.features !== undefined },
  call: async (i) => { const text = JSON.stringify(i.valid ? { type: i.type, features: [] } : { type: i.type }); await u.GeoJsonChecker.validFeatureCollection(i.given ? (j) => { record("seen", j); if (i.problem) throw i.problem; } : undefined)(answer(i, [Buffer.from(text)])); },
  ensures: {
    verdict: (o, r) => r.ok === (good(o, TYPES.forGeojson) && o.type === "FeatureCollection" && o.valid && !(o.given && o.problem)),
    seen: (o, r) => same(recorded(r, "seen"), good(o, TYPES.forGeojson) && o.type === "FeatureCollection" && o.valid && o.given ? [[{ type: "FeatureCollection", features: [] }]] : []),
  },
});

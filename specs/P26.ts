// Edge requests: what is answered at the edge, what is passed on, and what is changed on the way.
import { spec, str, int, bool, opt, or, lit, arr, obj, dict, oneOf, fn, same, implies, record } from "vf";
import { control } from "./mocks/secrets-manager.ts";
import { control as query } from "./mocks/querystring.ts";
import { handler as gzip } from "repo:other/cloudfront/src/lambda/lambda-gzip-requirement.ts";
import { handler as httpHeaders } from "repo:other/cloudfront/src/lambda/lambda-http-headers.ts";
import { handler as functionHeaders } from "repo:other/cloudfront/src/lambda/function-http-headers.ts";
import { handler as restriction } from "repo:other/cloudfront/src/lambda/lambda-ip-restriction.ts";
import { handler as cameraHeaders } from "repo:other/cloudfront/src/lambda/lambda-weathercam-http-headers.ts";
import { IMAGE_NOT_AVAILABLE_BASE64 } from "repo:other/cloudfront/src/lambda/image-not-available.ts";
import { handler as cameraRewrite } from "repo:other/cloudfront/src/lambda/lambda-weathercam-rewrite.ts";
import { handler as lamHeaders } from "repo:other/cloudfront/src/lambda/lambda-lam-headers.ts";
import { handler as lamRedirect } from "repo:other/cloudfront/src/lambda/lambda-lam-redirect.ts";
import { handler as indexHtml } from "repo:other/cloudfront/src/lambda/function-index-html.ts";
import { handler as redirect } from "repo:other/cloudfront/src/lambda/function-redirect.ts";
import { handler as rewrite } from "repo:other/cloudfront/src/lambda/function-rewrite-uri.ts";
import { removePathParts } from "repo:other/cloudfront/src/lambda/uri-util.ts";
export const mocks = { "@aws-sdk/client-secrets-manager": "./mocks/secrets-manager.ts", "node:querystring": "./mocks/querystring.ts" };
// as the deployment writes them into the code
export const placeholders = { EXT_IP: "10.1.2.3,192.168.0.1", EXT_DOMAIN_NAME: "images.example.com", EXT_HOST_NAME: "www.example.com", EXT_REDIRECT_URL: "https://www.example.com/x", EXT_PATHS_TO_REMOVE: "2" };
export const baseEnv = { AWS_REGION: "eu-west-1" };

const header = arr(obj({ key: opt(str()), value: str() }), { min: 1 });
const request = { method: or(lit("GET"), lit("OPTIONS"), lit("HEAD"), str()), uri: str(), querystring: str(), clientIp: str(), accept: opt(header), host: header };
const req = (i: any): any => ({ method: i.method, uri: i.uri, querystring: i.querystring, clientIp: i.clientIp, headers: { ...(i.accept ? { "accept-encoding": i.accept } : {}), host: i.host } });
const event = (q: any, response?: any): any => ({ Records: [{ cf: response ? { request: q, response } : { request: q } }] });
const unread = [{}, { Records: [] }];
const call = (h: any, e: any) => h(e, {}, () => undefined);
const LIST = "DNT,X-CustomHeader,Keep-Alive,User-Agent,X-Requested-With,If-Modified-Since,Cache-Control,Content-Type,Content-Range,Range,Digitraffic-User";
const CORS: any = { "access-control-allow-origin": "*", "access-control-allow-methods": "GET, POST, OPTIONS", "access-control-allow-headers": LIST, "access-control-expose-headers": LIST };
const corsHeaders = () => { const h: any = {}; for (const k of Object.keys(CORS)) h[k] = [{ key: k, value: CORS[k] }]; return h; };

export const compression = spec({
  target: "lambda-gzip-requirement.handler",
  inputs: request,
  call: (i) => call(gzip, event(req(i))),
  ensures: {
    preflightIsAnswered: (o, r) => implies(o.method === "OPTIONS", () => r.ok && r.value.status === "204" && same(r.value.headers, { ...corsHeaders(), "access-control-max-age": [{ key: "access-control-max-age", value: "86400" }] })),
    uncompressedReadsAreRefused: (o, r) => implies(o.method === "GET" && !(o.accept && o.accept[0].value.includes("gzip")), () => r.ok && r.value.status === "406"),
    othersPassUnchanged: (o, r) => implies(o.method !== "OPTIONS" && (o.method !== "GET" || (o.accept !== undefined && o.accept[0].value.includes("gzip"))), () => r.ok && same(r.value, req(o))),
  },
});
const response = { status: or(lit("200"), lit("403"), lit("404"), str()), headers: dict(header) };
const res = (i: any): any => ({ status: i.status, statusDescription: "as is", headers: i.headers });
export const crossOrigin = spec({
  target: ["lambda-http-headers.handler", "addCorsHeadersToLambdaResponse"],
  inputs: { method: request.method, ...response },
  call: (i) => call(httpHeaders, event({ method: i.method }, res(i))),
  ensures: {
    readsMayBeUsedAnywhere: (o, r) => r.ok && same(r.value, { ...res(o), headers: o.method === "GET" ? { ...o.headers, ...corsHeaders() } : o.headers }),
  },
});
export const crossOriginFunction = spec({
  target: ["function-http-headers.handler", "addCorsHeadersToFunctionResponse"],
  inputs: { method: request.method, headers: dict(obj({ value: str() })) },
  call: (i) => functionHeaders({ request: { uri: "/", method: i.method }, response: { statusCode: 200, headers: i.headers } }),
  ensures: {
    readsMayBeUsedAnywhere: (o, r) => r.ok && same(r.value, { statusCode: 200, headers: o.method === "GET" ? { ...o.headers, ...Object.fromEntries(Object.entries(CORS).map(([k, v]) => [k, { value: v }])) } : o.headers }),
  },
});
export const addresses = spec({
  target: "lambda-ip-restriction.handler", bounded: "two allowed addresses written by the deployment",
  inputs: request,
  call: (i) => call(restriction, event(req(i))),
  ensures: {
    onlyAllowed: (o, r) => r.ok && (o.clientIp === "10.1.2.3" || o.clientIp === "192.168.0.1" ? same(r.value, req(o)) : r.value.status === "403" && r.value.headers === undefined),
  },
});
const meta = "x-amz-meta-last-modified", META = "X-Amz-Meta-Last-Modified";
export const images = spec({
  target: ["lambda-weathercam-http-headers.handler", "addWeathercamImageLastModifiedHeaderFromXAmzMeta"],
  inputs: { method: request.method, ...response },
  call: (i) => call(cameraHeaders, event({ method: i.method }, res(i))),
  ensures: {
    missingImage: (o, r) => implies(o.status === "403" || o.status === "404", () => r.ok && r.value.status === "200" && r.value.body === IMAGE_NOT_AVAILABLE_BASE64 && r.value.bodyEncoding === "base64" && same(r.value.headers, { ...o.headers, "content-type": [{ key: "Content-Type", value: "image/jpeg" }], "cache-control": [{ key: "Cache-Control", value: "no-cache" }] })),
    lastModified: (o, r) => implies(o.status !== "403" && o.status !== "404", () => r.ok && same(r.value, { ...res(o), headers: o.method === "GET" && (o.headers[meta] ?? o.headers[META]) ? { ...o.headers, "last-modified": [{ key: "last-modified", value: (o.headers[meta] ?? o.headers[META])[0].value }] } : o.headers })),
  },
});
export const versions = spec({
  target: "lambda-weathercam-rewrite.handler",
  inputs: request,
  call: (i) => call(cameraRewrite, event(req(i))),
  ensures: {
    plainImagesAsTheyAre: (o, r) => implies(o.querystring === "", () => r.ok && same(r.value, req(o))),
    versionsFromTheOtherOrigin: (o, r) => implies(o.querystring !== "", () => r.ok && r.value.origin.custom.domainName === "images.example.com" && r.value.origin.custom.protocol === "http" && r.value.origin.custom.port === 80 && r.value.origin.custom.path === "" && same({ ...r.value, origin: undefined }, { ...req(o), headers: { ...req(o).headers, host: [{ key: "host", value: "www.example.com" }] } })),
  },
});
export const paths = spec({
  target: ["function-index-html.handler", "function-redirect.handler"],
  inputs: { uri: str(), method: str() },
  call: (i) => [indexHtml({ request: { uri: i.uri, method: i.method } } as any), redirect({ request: { uri: i.uri, method: i.method } } as any)],
  ensures: {
    indexOfFolders: (o, r) => r.ok && same(r.value[0], { uri: o.uri.endsWith("/") ? o.uri + "index.html" : o.uri, method: o.method }),
    redirect: (o, r) => r.value[1].statusCode === 302 && r.value[1].headers.location.value === "https://www.example.com/x",
  },
});
const step = (uri: string) => { const at = uri.indexOf("/", 1); return at < 0 ? uri : uri.slice(at); };
export const parts = spec({
  target: ["function-rewrite-uri.handler", "removePathParts"], bounded: "at most three parts removed",
  inputs: { n: or(lit(-1), lit(0), lit(1), lit(2), lit(3)), uri: str() },
  call: (i) => [removePathParts(i.uri, i.n), i.n === 0 ? rewrite({ request: { uri: i.uri, method: "GET" } } as any) : undefined],
  ensures: {
    leading: (o, r) => { let left = o.uri; for (let k = 0; k < o.n; k++) left = step(left); return r.ok && r.value[0] === left; },
    deployedCount: (o, r) => implies(o.n === 0, () => same(r.value[1], { uri: step(step(o.uri)), method: "GET" })),
  },
});
const SECRET = { "tms-history.snowflakeApikey": "KEY", "tms-history.s3DomainTmsRawOngoing": "ongoing.s3", "tms-history.s3DomainTmsRawHistory": "history.s3", "tms-history.snowflakeDomain": "snow.example.com" };
const secrets = () => { control.answer = () => ({ SecretString: JSON.stringify(SECRET) }); };
export const rawData = spec({
  target: "lambda-lam-redirect.handler",
  inputs: { before: or(lit(""), lit("/x"), lit("https://tie.example.com")), id: int(1, 99999), year: int(0, 99), day: int(1, 366), s3: bool(), headers: dict(header) },
  call: (i) => { secrets(); return call(lamRedirect, event({ method: "GET", uri: `${i.before}/api/tms/v1/history/raw/lamraw_${i.id}_${i.year}_${i.day}.csv`, querystring: "", headers: i.headers, ...(i.s3 ? { origin: { s3: { domainName: "history.s3", path: "" } } } : {}) })); },
  ensures: {
    file: (o, r) => implies(r.ok, () => r.value.uri === `/lamraw_${o.id}_${o.year}_${o.day}.csv` && r.value.querystring === ""),
    from2022TheOngoingStore: (o, r) => implies(o.year > 21, () => r.ok === o.s3 && (!r.ok || (same(r.value.origin, { s3: { domainName: "ongoing.s3", path: "" } }) && same(r.value.headers, { ...o.headers, host: [{ key: "host", value: "ongoing.s3" }] })))),
    beforeThatTheHistoryStore: (o, r) => implies(o.year <= 21, () => r.ok && same(r.value.origin, o.s3 ? { s3: { domainName: "history.s3", path: "" } } : undefined) && same(r.value.headers, o.headers)),
  },
});
const text = opt(str());
const many = or(lit(undefined), str(), arr(str(), { min: 2 }));
const api = or(lit(undefined), str(), arr(str(), { min: 2 }));
const joined = (v: any, by: string) => (Array.isArray(v) ? v.join(by) : v);
const given = (v: any) => v !== undefined && v !== "";
const complete = (p: any) => given(p.api) && given(p.tyyppi) && (given(p.piste) || given(p.pistejoukko)) && (given(p.pvm) || given(p.viikko)) && (given(p.ryhma) || !given(p.luokka) || p.tyyppi === "h");
const wanted = (p: any) => {
  const until = given(p.loppu) ? `-${p.loppu}` : "";
  return {
    tyyppi: p.tyyppi,
    ...(given(p.pvm) ? { pvm: p.pvm + until } : { viikko: p.viikko + until }),
    ...(given(p.piste) ? { piste: p.piste } : { pistejoukko: p.pistejoukko }),
    ...(given(p.suunta) ? { suunta: joined(p.suunta, "-") } : {}),
    ...(given(p.sisallytakaistat) ? { sisallytakaistat: p.sisallytakaistat } : {}),
    ...(given(p.ryhma) ? { ryhma: joined(p.ryhma, ",") } : given(p.luokka) ? { ajoneuvoluokka: joined(p.luokka, ",") } : {}),
  };
};
const historyCall = (i: any) => { secrets(); query.read = () => ({ ...i.p }); query.written = () => "written"; return call(lamRedirect, event({ method: "GET", uri: i.uri, querystring: i.querystring, headers: i.headers, origin: { s3: {} } })); };
const historyEnsures = {
  refusedWhenIncomplete: (o: any, r: any) => r.ok === (complete(o.p) && typeof o.p.api === "string"),
  asksTheSame: (o: any, r: any) => implies(r.ok, () => { const w = r.trace.filter((e: any) => e.name === "stringify"); return w.length === 1 && same(w[0].args[0], wanted(o.p)) && r.trace.every((e: any) => e.name !== "parse" || e.args[0] === o.querystring); }),
  fromTheOtherOrigin: (o: any, r: any) => implies(r.ok, () => r.value.uri === "/" + o.p.api && r.value.querystring === "written" && same(r.value.headers, { ...o.headers, host: [{ key: "host", value: "snow.example.com" }] })
    && r.value.origin.s3 === undefined && r.value.origin.custom.domainName === "snow.example.com" && r.value.origin.custom.protocol === "https" && r.value.origin.custom.port === 443 && r.value.origin.custom.path === "/prod" && same(r.value.origin.custom.customHeaders, { "x-api-key": [{ key: "x-api-key", value: "KEY" }] })),
};
export const history = spec({
  history: true,
  target: ["lambda-lam-redirect.handler", "parseQuery", "getApiPath"],
  inputs: { uri: oneOf("/ui/tms/history", "/ui/tms/history/", "/api/tms/v1/history"), querystring: str({ min: 1 }), p: obj({ api, tyyppi: text, pvm: text, viikko: text, loppu: text, piste: text, pistejoukko: text }), headers: dict(header) },
  call: historyCall, ensures: historyEnsures,
});
export const historyChoices = spec({
  history: true,
  target: ["lambda-lam-redirect.handler", "parseQuery", "getValue"],
  inputs: { uri: lit("/ui/tms/history"), querystring: str({ min: 1 }), p: obj({ api: str({ min: 1 }), tyyppi: str({ min: 1 }), viikko: str({ min: 1 }), piste: str({ min: 1 }), suunta: many, sisallytakaistat: text, ryhma: many, luokka: many }), headers: lit({}) },
  call: historyCall, ensures: historyEnsures,
});
const file = str({ re: /^[a-z0-9.-]*$/ });
export const pages = spec({
  target: "lambda-lam-redirect.handler",
  inputs: { before: or(lit(""), lit("/x")), kind: or(lit("bare"), lit("index"), lit("file"), lit("nested"), lit("other")), file, folder: file, headers: dict(header) },
  requires: (o) => !o.file.startsWith("index."),
  call: (i) => {
    const base = i.before + "/ui/tms/history";
    const uri = i.kind === "bare" ? base : i.kind === "index" ? `${base}/index.html` : i.kind === "file" ? `${base}/${i.file}` : i.kind === "nested" ? `${base}/d${i.folder}/${i.file}` : `/other/${i.file}`;
    return call(lamRedirect, event({ method: "GET", uri, querystring: "", headers: i.headers }));
  },
  ensures: {
    landingPage: (o, r) => implies(o.kind === "bare" || (o.kind === "index"), () => r.ok && r.value.status === "301" && r.value.headers.location[0].value === "/ui/tms/history/"),
    resources: (o, r) => implies(o.kind === "file" || o.kind === "nested", () => r.ok && same(r.value, { method: "GET", uri: o.kind === "file" && o.file === "" ? "/index.html" : "/" + o.file, querystring: "", headers: o.headers })),
    others: (o, r) => implies(o.kind === "other", () => r.ok && same(r.value, { method: "GET", uri: "/other/" + o.file, querystring: "", headers: o.headers })),
  },
});
const HIDDEN = ["x-api-key", "x-amzn-remapped-x-forwarded-for", "x-amzn-remapped-host"];
const answered = dict(header);
export const downloads = spec({
  target: ["lambda-lam-headers.handler", "createFilename", "getDateOrWeek"],
  inputs: { path: str(), p: obj({ tyyppi: many, pvm: many, viikko: many }), headers: answered, status: str(), querystring: str() },
  call: (i) => { query.read = () => ({ ...i.p }); return call(lamHeaders, event({ uri: "/" + i.path, querystring: i.querystring }, { status: i.status, headers: i.headers })); },
  ensures: {
    namedAfterTheQuery: (o, r) => implies(Object.hasOwn(o.headers, "x-amzn-remapped-host"), () => {
      const day = typeof o.p.pvm === "string" && o.p.pvm !== "" ? o.p.pvm : typeof o.p.viikko === "string" && o.p.viikko !== "" ? o.p.viikko : undefined;
      return r.ok === (day !== undefined) && (!r.ok || (same(r.value.headers["content-disposition"], [{ key: "Content-Disposition", value: `attachment; filename="${o.path}_${typeof o.p.tyyppi === "string" ? o.p.tyyppi : ""}_${day}.csv"` }]) && same(r.value.headers["content-type"], [{ key: "Content-Type", value: "text/csv; charset=utf-8" }])));
    }),
    nothingInternal: (o, r) => implies(r.ok, () => HIDDEN.every((k) => !Object.hasOwn(r.value.headers, k))),
    restUnchanged: (o, r) => implies(!Object.hasOwn(o.headers, "x-amzn-remapped-host"), () => { const h: any = { ...o.headers }; for (const k of HIDDEN) delete h[k]; return r.ok && same(r.value, { status: o.status, headers: h }); }),
  },
});
export const unreadable = spec({
  target: "handlers",
  inputs: { which: oneOf(0, 1), records: oneOf(0, 1) },
  call: async (i) => {
    const outcomes: any[] = [];
    for (const h of [gzip, httpHeaders, restriction, cameraHeaders, cameraRewrite, lamHeaders, lamRedirect]) { try { await call(h, unread[i.records]); outcomes.push("answered"); } catch (e) { outcomes.push(e instanceof Error); } }
    return outcomes;
  },
  ensures: { refused: (o, r) => r.ok && r.value.every((x: any) => x === true) },
});

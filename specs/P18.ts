// Handlers of API requests, and the mapping of requests and responses between the API and its functions.
import { spec, str, int, bool, opt, or, lit, arr, tuple, obj, dict, fn, err, oneOf, opaqueFn, record, advance, same } from "vf";
import { recorded, distinct } from "./infra.ts";
import { Resource } from "./mocks/cdk.ts";
import { render } from "./vtl.ts";
import { DigitrafficIntegration } from "repo:lib/digitraffic-common/src/aws/infra/api/integration.ts";
import { DigitrafficStaticIntegration } from "repo:lib/digitraffic-common/src/aws/infra/api/static-integration.ts";
import { DigitrafficIntegrationResponse } from "repo:lib/digitraffic-common/src/aws/runtime/digitraffic-integration-response.ts";
import { DigitrafficMethodResponse } from "repo:lib/digitraffic-common/src/aws/infra/api/response.ts";
import { defaultIntegration, methodResponse } from "repo:lib/digitraffic-common/src/aws/infra/api/responses.ts";
import { HandlerFactory, createJsonLoggingHandler } from "repo:lib/digitraffic-common/src/aws/infra/api/handler-factory.ts";
// what the function receives for a request that carries every parameter
const escape = (s: any) => (s === undefined ? "" : String(s).replace(/\\/g, "\\\\").replace(/"/g, '\\"'));
const request = (query: any, many: any) => ({
  context: { p1: "context 1", p2: "context 2", responseOverride: { header: {} } },
  method: { request: { multivaluequerystring: many } },
  input: { body: 'the "body"', params: () => new Map<string, any>([["querystring", new Map(Object.entries(query))], ["path", new Map([["p1", 'path "1"'], ["p2", "path\\2"]])], ["header", new Map([["p1", "header 1"], ["p2", "header 2"]])]]) },
  util: { escapeJavaScript: escape, base64Encode: (s: any) => Buffer.from(s).toString("base64") },
});
const query: any = { p1: 'one "query"', p2: "two", other: "three" }, many: any = { p1: ["one", 't"wo'], p2: ["single"] };
const type = or(lit("none"), lit("path"), lit("querystring"), lit("multivaluequerystring"), lit("context"), lit("header"));
const add = (b: any, t: string, name: string) => { if (t === "path") b.addPathParameter(name); else if (t === "querystring") b.addQueryParameter(name); else if (t === "multivaluequerystring") b.addMultiValueQueryParameter(name); else if (t === "context") b.addContextParameter(name); else if (t === "header") b.addHeaderParameter(name); };
const sent: any = { path: (n: string) => (n === "p1" ? 'path "1"' : "path\\2"), querystring: (n: string) => query[n], multivaluequerystring: (n: string) => many[n], context: (n: string) => `context ${n[1]}`, header: (n: string) => `header ${n[1]}` };
export const parameters = spec({
  target: "DigitrafficIntegration",
  bounded: "two parameters",
  inputs: { types: tuple(type, type), all: bool(), body: bool(), allFirst: bool() },
  call: (i) => {
    const b = new DigitrafficIntegration<string>("fn" as any);
    if (i.all && i.allFirst) b.passAllQueryParameters();
    add(b, i.types[0], "p1"); add(b, i.types[1], "p2");
    if (i.all && !i.allFirst) b.passAllQueryParameters();
    if (i.body) b.passBody();
    return b.build() as any;
  },
  ensures: {
    refused: (o, r) => r.ok === !(o.all && o.types.includes("querystring")),
    received: (o, r) => {
      if (!r.ok) return true;
      const want: any = {};
      o.types.forEach((t: string, n: number) => { if (t !== "none") want[`p${n + 1}`] = sent[t](`p${n + 1}`); });
      if (o.all) for (const k of Object.keys(query)) if (o.types[k === "p1" ? 0 : k === "p2" ? 1 : 2] !== "multivaluequerystring") want[k] = query[k];
      if (o.body) want.payload = Buffer.from('the "body"').toString("base64");
      const t = r.value.options.requestTemplates;
      return Object.keys(want).length === 0 ? t === undefined || same(JSON.parse(render(t["application/json"], request(query, many))), {}) : same(JSON.parse(render(t["application/json"], request(query, many))), want);
    },
    plain: (o, r) => !r.ok || (r.value.handler === "fn" && r.value.options.proxy === false && r.value.options.passthroughBehavior === "WHEN_NO_MATCH" && r.value.options.integrationResponses.length === 1),
  },
});
export const names = spec({
  target: "DigitrafficIntegration.addParameter",
  inputs: { type: oneOf("path", "querystring", "multivaluequerystring", "context", "header"), name: str() },
  call: (i) => { new DigitrafficIntegration<string>("fn" as any).addParameter(i.type as any, i.name); },
  ensures: { refused: (o, r) => r.ok === !o.name.startsWith("_") },
});
// what the caller of the API receives for a response of the function
const decoded = opaqueFn("base64Decode");
export const responses = spec({
  target: ["DigitrafficIntegrationResponse", "RESPONSE_DEFAULT_LAMBDA"],
  inputs: { kind: or(lit("ok"), lit("bad"), lit("none"), lit("build")), media: oneOf("application/json", "text/csv"), deprecated: bool(), sunset: or(lit(undefined), lit("2024-02-29"), lit("2022-12-20T00:00:00Z"), lit("soon")), status: int(100, 599), body: str(), etag: opt(str()), timestamp: opt(str()), fileName: opt(str()) },
  requires: (i) => (i.kind === "ok" || i.kind === "build") || (!i.deprecated && i.sunset === undefined),
  call: (i) => (i.kind === "ok" ? DigitrafficIntegrationResponse.ok(i.media as any, i.deprecated, i.sunset) : i.kind === "bad" ? DigitrafficIntegrationResponse.badRequest(i.media as any) : i.kind === "none" ? DigitrafficIntegrationResponse.notImplemented(i.media as any) : (new DigitrafficIntegration<string>("fn" as any, i.media as any, i.deprecated, i.sunset).build() as any).options.integrationResponses[0]),
  ensures: {
    refused: (o, r) => r.ok === !(o.deprecated && o.sunset === "soon"),
    status: (o, r) => !r.ok || (r.value.statusCode === (o.kind === "bad" ? "400" : o.kind === "none" ? "501" : "200") && same(Object.keys(r.value.responseTemplates), [o.media])),
    rendered: (o, r) => {
      if (!r.ok) return true;
      const context: any = { responseOverride: { header: {} } };
      const answer = { status: o.status, body: o.body, etag: o.etag, timestamp: o.timestamp, fileName: o.fileName };
      const text = render(r.value.responseTemplates[o.media], { context, input: { path: () => answer }, util: { base64Decode: (s: any) => decoded(s) } });
      const want: any = { "Access-Control-Allow-Origin": "*" };
      if (o.status !== 200) want["Content-Type"] = "text/plain";
      if (o.timestamp) want["Last-Modified"] = o.timestamp;
      if (o.etag) want.ETag = o.etag;
      if (o.fileName) want["Content-Disposition"] = `attachment; filename="${o.fileName}"`;
      if (o.deprecated) want.Deprecation = "true";
      if (o.deprecated && o.sunset !== undefined) want.Sunset = new Date(o.sunset).toUTCString();
      return same(context.responseOverride.header, want) && (o.status === 200 ? context.responseOverride.status === undefined || context.responseOverride.status === 200 : context.responseOverride.status === o.status) && (o.deprecated ? text.startsWith(decoded(o.body)) && (o.deprecated && text.length - decoded(o.body).length < 20) : text === decoded(o.body));
    },
  },
});
// a fixed answer
export const fixed = spec({
  target: "DigitrafficStaticIntegration",
  inputs: { json: bool(), response: str(), media: oneOf("application/json", "text/csv"), cors: opt(bool()), key: opt(bool()), headers: opt(dict(str())), name: str() },
  requires: (i) => i.name !== "__proto__",
  call: (i) => { const at = new Resource("/fixed", undefined) as any; return (i.json ? DigitrafficStaticIntegration.json(at, { text: i.response }, "model" as any, i.cors, i.key, i.headers) : new DigitrafficStaticIntegration(at, i.media as any, i.response, "model" as any, i.cors, i.key, i.headers)) as any; },
  ensures: {
    answer: (o, r) => {
      const media = o.json ? "application/json" : o.media, p = r.value.options, a = p.integrationResponses[0];
      return r.ok && p.integrationResponses.length === 1 && a.statusCode === "200" && same(a.responseTemplates, { [media]: o.json ? JSON.stringify({ text: o.response }) : o.response }) && p.passthroughBehavior === "WHEN_NO_TEMPLATES" && same(Object.keys(p.requestTemplates), [media]) && JSON.parse(p.requestTemplates[media]).statusCode === 200;
    },
    headers: (o, r) => {
      const given = o.name === "Access-Control-Allow-Origin" && o.cors !== false ? "*" : o.headers?.[o.name], key = `method.response.header.${o.name}`;
      return r.value.options.integrationResponses[0].responseParameters[key] === (given === undefined ? undefined : `'${given}'`) && recorded(r, "method").every((m: any) => m[3].methodResponses[0].responseParameters[key] === (given === undefined ? undefined : true));
    },
    methods: (o, r) => same(recorded(r, "method").map((m: any) => [m[0], m[1], m[3].apiKeyRequired, m[3].methodResponses[0].statusCode, m[3].methodResponses[0].responseModels]), ["GET", "HEAD"].map((x) => ["/fixed", x, o.key ?? true, "200", { [o.json ? "application/json" : o.media]: "model" }])) && recorded(r, "method").every((m: any) => m[2] === r.value),
  },
});
// declared responses of methods
const media = oneOf("application/json", "text/csv");
export const declared = spec({
  target: ["DigitrafficMethodResponse", "methodResponse"],
  inputs: { kind: oneOf("response", "200", "400", "500", "old"), status: str(), media: opt(media), noCors: opt(bool()), deprecated: opt(bool()), sunset: opt(bool()), parameters: opt(dict(bool())) },
  requires: (i) => i.media !== undefined || (i.kind !== "response" && i.kind !== "old"),
  call: (i) => { const m = "model" as any, t = i.media as any; return i.kind === "response" ? DigitrafficMethodResponse.response(i.status, m, t, i.noCors, i.deprecated, i.sunset) : i.kind === "200" ? DigitrafficMethodResponse.response200(m, t, i.deprecated, i.sunset) : i.kind === "400" ? DigitrafficMethodResponse.response400(m, t) : i.kind === "500" ? DigitrafficMethodResponse.response500(m, t) : methodResponse(i.status, t, m, i.parameters); },
  ensures: {
    content: (o, r) => r.ok && r.value.statusCode === (o.kind === "response" || o.kind === "old" ? o.status : o.kind) && same(r.value.responseModels, { [o.media ?? "application/json"]: "model" }),
    headers: (o, r) => {
      if (o.kind === "old") return same(r.value.responseParameters, o.parameters ?? {});
      const marks = o.kind === "response" || o.kind === "200", want: any = {};
      if (o.kind !== "response" || !o.noCors) want["method.response.header.Access-Control-Allow-Origin"] = true;
      if (marks && o.deprecated) want["method.response.header.Deprecation"] = true;
      if (marks && o.sunset) want["method.response.header.Sunset"] = true;
      return same(r.value.responseParameters, want);
    },
  },
});
export const older = spec({
  target: "defaultIntegration",
  inputs: { noCors: opt(bool()), xml: opt(bool()), own: bool(), parameters: opt(dict(str())), templates: opt(dict(str())), passthrough: opt(oneOf("NEVER")) },
  call: (i) => defaultIntegration("fn" as any, { disableCors: i.noCors, xml: i.xml, responses: i.own ? [{ statusCode: "201" }] : undefined, requestParameters: i.parameters, requestTemplates: i.templates, passthroughBehavior: i.passthrough as any }) as any,
  ensures: {
    request: (o, r) => r.ok && r.value.handler === "fn" && r.value.options.proxy === false && same(r.value.options.requestParameters, o.parameters ?? {}) && same(r.value.options.requestTemplates, o.templates ?? {}) && r.value.options.passthroughBehavior === (o.passthrough ?? "WHEN_NO_MATCH"),
    responses: (o, r) => {
      const rs = r.value.options.integrationResponses;
      if (o.own) return same(rs, [{ statusCode: "201" }]);
      const codes: any = { "200": undefined, "400": "BAD REQUEST", "404": "NOT_FOUND", "500": "ERROR" };
      return same(rs.map((x: any) => x.statusCode).sort(), Object.keys(codes)) && rs.every((x: any) => x.selectionPattern === codes[x.statusCode] && same(x.responseParameters, o.noCors ? undefined : { "method.response.header.Access-Control-Allow-Origin": "'*'" }) && (o.xml ? same(x.responseTemplates, { "application/xml": "$input.path('$').body" }) : x.statusCode === "200" ? x.responseTemplates === undefined : typeof JSON.parse(x.responseTemplates["application/json"]).message === "string"));
    },
  },
});
// handlers
const outcome = obj({ ok: bool(), value: str(), message: str(), took: int(0, 100000) });
export const handlers = spec({
  target: ["HandlerFactory", "createJsonLoggingHandler"],
  inputs: { work: outcome, recover: bool(), logging: or(lit("default"), lit("json"), lit("own")), event: dict(str()) },
  call: async (i) => {
    const f = new HandlerFactory();
    if (i.recover) f.withErrorHandler((e: any, l: any) => { record("failed", e.message, l); return { status: 500, body: e.message } as any; });
    if (i.logging === "json") f.withLoggingHandler(createJsonLoggingHandler());
    if (i.logging === "own") f.withLoggingHandler(async (m, l) => { record("around", l); const x = await m(); record("after"); return x; });
    const log: any = { info: (x: any) => { record("mine", x); } };
    return await f.createEventHandler(async (e: any) => { record("handled", e); advance(i.work.took); if (i.work.ok) return { status: 200, body: i.work.value } as any; throw new Error(i.work.message); }, log)(i.event);
  },
  ensures: {
    result: (o, r) => (o.work.ok ? r.ok && same(r.value, { status: 200, body: o.work.value }) : o.recover ? r.ok && same(r.value, { status: 500, body: o.work.message }) : !r.ok && r.error.message === o.work.message),
    once: (o, r) => same(recorded(r, "handled"), [[o.event]]) && recorded(r, "failed").length === (o.recover && !o.work.ok ? 1 : 0),
    logged: (o, r) => { const [l, m] = [recorded(r, "log.info"), recorded(r, "mine")]; return o.logging === "own" ? recorded(r, "around").length === 1 && l.length + m.length === 0 : l.length + m.length === 1 && [...l, ...m][0][0].tookMs === o.work.took && [...l, ...m][0][0].method.endsWith(".handler"); },
  },
});
// two requests under way at the same time
export const overlapping = spec({
  target: ["HandlerFactory", "createJsonLoggingHandler"],
  inputs: { before: int(0, 100000), inner: int(0, 100000), after: int(0, 100000), json: bool(), fails: bool(), message: str() },
  call: async (i) => {
    const f = new HandlerFactory(), log: any = { info: (x: any) => { record("mine", x); } };
    if (i.json) f.withLoggingHandler(createJsonLoggingHandler());
    const h: any = f.createEventHandler(async (e: any) => {
      if (e === "inner") { advance(i.inner); return { status: 201 } as any; }
      advance(i.before); record("within", await h("inner")); advance(i.after);
      if (i.fails) throw new Error(i.message);
      return { status: 200 } as any;
    }, log);
    return await h("outer");
  },
  ensures: {
    result: (o, r) => (o.fails ? !r.ok && r.error.message === o.message : r.ok && same(r.value, { status: 200 })) && same(recorded(r, "within"), [[{ status: 201 }]]),
    logged: (o, r) => same([...recorded(r, "log.info"), ...recorded(r, "mine")].map((x: any) => x[0].tookMs), [o.inner, o.before + o.inner + o.after]),
  },
});

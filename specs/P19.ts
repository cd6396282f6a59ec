// The REST API: who may call it, what it answers to unknown callers, keys, exports, models and documentation.
import { Construct, spec, str, int, num, bool, opt, or, lit, arr, tuple, obj, oneOf, dict, same, clone } from "vf";
import { Construct, app, stackOf, made, recorded, distinct } from "./infra.ts";
import { Construct, Resource, RestApi } from "./mocks/cdk.ts";
import { DigitrafficRestApi, createRestApi, add401Support, add404Support, setReturnCodeForMissingAuthenticationToken, PUBLIC_REST_API_CORS_CONFIG } from "repo:lib/digitraffic-common/src/aws/infra/stack/rest-api.ts";
import { DocumentationPart, addDocumentation, addQueryParameterDescription, addTags, addTagsAndSummary } from "repo:lib/digitraffic-common/src/aws/infra/documentation.ts";
import { createUsagePlan, createDefaultUsagePlan } from "repo:lib/digitraffic-common/src/aws/infra/usage-plans.ts";
const addresses = or(lit(undefined), lit(null), arr(str()));
// who may call it
export const policies = spec({
  target: ["DigitrafficRestApi", "createRestApi"],
  inputs: { old: bool(), id: str(), name: str(), addresses, extra: opt(obj({ description: str() })), ownPolicy: bool(), ownName: opt(str()) },
  requires: (i) => !i.old || (i.extra === undefined && !i.ownPolicy && i.ownName === undefined),
  call: (i) => {
    const s = stackOf({});
    if (i.old) return createRestApi(s, i.id, i.name, i.addresses as any) as any;
    return new DigitrafficRestApi(s, i.id, i.name, i.addresses as any, { ...i.extra, ...(i.ownPolicy ? { policy: "own" as any } : {}), ...(i.ownName === undefined ? {} : { restApiName: i.ownName }) }) as any;
  },
  ensures: {
    policy: (o, r) => {
      if (!r.ok || made(r, "RestApi").length !== 1) return false;
      const p = made(r, "RestApi")[0].props.policy;
      if (o.ownPolicy) return p === "own";
      const [x] = p.statements;
      return p.statements.length === 1 && x.effect === "Allow" && same(x.actions, ["execute-api:Invoke"]) && same(x.resources, ["*"]) && x.principals.length === 1 && x.principals[0].kind === "any" && (o.addresses == null ? x.conditions === undefined : same(x.conditions, { IpAddress: { "aws:SourceIp": o.addresses } }));
    },
    settings: (o, r) => { const a = made(r, "RestApi")[0]; return a.id === o.id && a.props.restApiName === (o.ownName ?? o.name) && same(a.props.endpointTypes, ["REGIONAL"]) && a.props.deployOptions.loggingLevel === "ERROR" && a.props.description === o.extra?.description; },
    unknown: (o, r) => { const g = made(r, "GatewayResponse"); return g.length === 1 && g[0].props.type === "MISSING_AUTHENTICATION_TOKEN" && g[0].props.statusCode === "404" && g[0].props.restApi === r.value && same(Object.keys(g[0].props.templates), ["application/json"]) && typeof JSON.parse(g[0].props.templates["application/json"]).message === "string"; },
    fresh: (o, r) => o.old || (same(r.value.apiKeyIds, []) && r.value.hostname() === `RestApi`.slice(0, 0) + `restApiId(${o.id}).execute-api.eu-west-1.amazonaws.com`),
  },
});
export const answers = spec({
  target: ["add401Support", "add404Support", "setReturnCodeForMissingAuthenticationToken"],
  inputs: { kind: oneOf("401", "404", "own"), code: int(100, 599), message: int(), name: str() },
  call: (i) => { const s = stackOf({}), api = new RestApi(s, "api", { restApiName: i.name }) as any; if (i.kind === "401") add401Support(api, s); else if (i.kind === "404") add404Support(api, s); else setReturnCodeForMissingAuthenticationToken(i.code, `${i.message}`, api, s); return api; },
  ensures: {
    one: (o, r) => { const g = made(r, "GatewayResponse"); return r.ok && g.length === 1 && g[0].props.restApi === r.value && g[0].props.type === (o.kind === "401" ? "UNAUTHORIZED" : "MISSING_AUTHENTICATION_TOKEN") && g[0].props.statusCode === (o.kind === "own" ? String(o.code) : o.kind); },
    content: (o, r) => { const p = made(r, "GatewayResponse")[0].props; return o.kind === "401" ? same(p.responseHeaders, { "WWW-Authenticate": "'Basic'" }) : o.kind === "404" ? JSON.parse(p.templates["application/json"]).message === "Not Found" : p.templates["application/json"] === `{"message": ${o.message}}`; },
  },
});
// keys and usage plans
const plan = (r: any, id: string, key: string) => same(recorded(r, "usagePlan").filter((a: any) => a[1] === id).map((a: any) => [a[0], a[2].name]), [["api", id]]) && same(recorded(r, "planKey").filter((a: any) => a[0] === id), [[id, `key(${key})`]]) && same(recorded(r, "planStage").filter((a: any) => a[0] === id), [[id, { stageOf: "api" }]]);
export const keys = spec({
  target: ["createUsagePlan", "createDefaultUsagePlan"],
  inputs: { old: bool(), id: str(), name: str(), value: opt(str()) },
  call: (i) => { const api = new RestApi(new Construct("App", undefined, "", {}) as any, "api", {}) as any; return (i.old ? createUsagePlan(api, i.id, i.name) : createDefaultUsagePlan(api, i.name, i.value)) as any; },
  ensures: {
    key: (o, r) => { const k = recorded(r, "apiKey"), id = o.old ? o.id : `${o.name} API Key`; return r.ok && r.value.keyId === `key(${id})` && k.length === 1 && k[0][1] === id && (o.old || (k[0][2].apiKeyName === id && k[0][2].value === o.value)); },
    plan: (o, r) => recorded(r, "usagePlan").length === 1 && (o.old ? plan(r, o.name, o.id) : plan(r, `${o.name} API Usage Plan`, `${o.name} API Key`)),
  },
});
const kind = or(lit("none"), lit("old"), lit("new"));
export const exported = spec({
  target: "DigitrafficRestApi.exportEndpoint",
  bounded: "two keys",
  inputs: { kinds: tuple(kind, kind), names: tuple(str(), str()), chosen: opt(str()), name: opt(str()), plain: bool() },
  requires: (i) => !i.plain || (i.chosen === undefined && i.name === undefined),
  call: (i) => {
    const api = new DigitrafficRestApi(stackOf({}), "api", "name") as any;
    const made = [0, 1].filter((n) => i.kinds[n] !== "none").map((n) => (i.kinds[n] === "old" ? api.createUsagePlan(`id ${n}`, i.names[n]) : api.createUsagePlanV2(i.names[n])));
    return { made, ids: api.apiKeyIds, url: api.url, parameters: i.plain ? api.exportEndpoint() : api.exportEndpoint({ apiKeyId: i.chosen, exportName: i.name }) };
  },
  ensures: {
    refused: (o, r) => r.ok === (!!o.chosen || o.kinds.filter((k: string) => k !== "none").length === 1),
    keys: (o, r) => !r.ok || (same(r.value.made, r.value.ids) && same(r.value.ids, [0, 1].filter((n) => o.kinds[n] !== "none").map((n) => (o.kinds[n] === "old" ? `key(id ${n})` : `key(${o.names[n]} API Key)`)))),
    parameters: (o, r) => {
      if (!r.ok) return made(r, "StringParameter").length === 0;
      const name = o.name ?? "Foo", p = made(r, "StringParameter");
      return same(p.map((x: any) => x.props), [{ parameterName: `/digitraffic/${name}/endpointUrl`, stringValue: r.value.url }, { parameterName: `/digitraffic/${name}/apiKeyId`, stringValue: o.chosen ? o.chosen : r.value.ids[0] }]) && r.value.parameters[0] === p[0].it && r.value.parameters[1] === p[1].it && p[0].id !== p[1].id;
    },
  },
});
// models and resources
export const models = spec({
  target: ["DigitrafficRestApi.addJsonModel", "DigitrafficRestApi.addCSVModel", "getModelReference"],
  inputs: { csv: bool(), name: str(), schema: dict(str()) },
  call: (i) => { const api = new DigitrafficRestApi(stackOf({}), "api", "name") as any; return i.csv ? api.addCSVModel(i.name) : api.addJsonModel(i.name, i.schema as any); },
  ensures: {
    model: (o, r) => r.ok && same(recorded(r, "model"), [["api", o.name, { contentType: o.csv ? "text/csv" : "application/json", modelName: o.name, schema: o.csv ? {} : o.schema }]]),
    reference: (o, r) => r.value.modelId === `model(${o.name})` && r.value.modelReference === `https://apigateway.amazonaws.com/restapis/restApiId(api)/models/model(${o.name})`,
  },
});
export const resources = spec({
  target: ["DigitrafficRestApi.addResourceWithCorsOptionsSubTree", "DigitrafficRestApi.addCorsOptions"],
  inputs: { part: str(), extra: opt(dict(str())), own: bool() },
  requires: (i) => i.extra === undefined || i.extra.defaultCorsPreflightOptions === undefined,
  call: (i) => {
    const api = new DigitrafficRestApi(stackOf({}), "api", "name") as any, at = new Resource("/top", api) as any;
    api.addCorsOptions(at);
    return api.addResourceWithCorsOptionsSubTree(at, i.part, (i.own ? { ...i.extra, defaultCorsPreflightOptions: "own" } : i.extra) as any) as any;
  },
  ensures: {
    added: (o, r) => { const a = recorded(r, "resource"); return r.ok && a.length === 1 && a[0][0] === "/top" && a[0][1] === o.part && same(a[0][2], { ...o.extra, defaultCorsPreflightOptions: o.own ? "own" : PUBLIC_REST_API_CORS_CONFIG.defaultCorsPreflightOptions }) && r.value.path === `/top/${o.part}`; },
    cors: (o, r) => { const c = recorded(r, "cors"); return c.length === 1 && c[0][0] === "/top" && same(c[0][1].allowOrigins, ["*"]) && same([...c[0][1].allowMethods].sort(), ["GET", "HEAD", "OPTIONS"]) && ["X-Api-Key", "Digitraffic-User", "Content-Type"].every((h) => c[0][1].allowHeaders.includes(h)); },
  },
});
// documentation
const part = obj({ kind: oneOf("query", "path", "method"), name: str(), text: str(), tags: arr(str()), note: opt(str()) });
const partOf = (k: string, p: any) => { const d = k === "query" ? DocumentationPart.queryParameter(p.name, p.text) : k === "path" ? DocumentationPart.pathParameter(p.name, p.text) : DocumentationPart.method(clone(p.tags), p.name, p.text); return p.note === undefined ? d : d.deprecated(p.note); };
const wanted = (k: string, p: any) => ({ ...(k === "method" ? { tags: p.tags, summary: p.note === undefined ? p.text : `${p.text}. ${p.note}` } : { description: p.text, ...(p.note === undefined ? {} : { summary: p.note }) }), ...(p.note === undefined ? {} : { deprecated: true }) });
const types: any = { query: "QUERY_PARAMETER", path: "PATH_PARAMETER", method: "METHOD" };
export const documented = spec({
  target: ["DigitrafficRestApi.documentResource", "DocumentationPart"],
  inputs: { enabled: or(lit(undefined), lit(true), lit(false)), features: bool(), parts: arr(part), path: str() },
  requires: (i) => i.features || i.enabled === undefined,
  call: (i) => {
    const api = new DigitrafficRestApi(stackOf(i.features ? { stackFeatures: { enableDocumentation: i.enabled } } : {}), "api", "name") as any;
    api.documentResource(new Resource(i.path, api), ...i.parts.map((p: any) => partOf(p.kind, p)));
  },
  ensures: {
    parts: (o, r) => r.ok && same(made(r, "CfnDocumentationPart").map((d: any) => [d.props.restApiId, d.props.location.type, d.props.location.path, d.props.location.name, JSON.parse(d.props.properties)]), o.enabled === false ? [] : o.parts.map((p: any) => ["restApiId(api)", types[p.kind], o.path, p.kind === "method" ? undefined : p.name, wanted(p.kind, p)])),
    names: (o, r) => same(made(r, "CfnDocumentationPart").map((d: any) => d.id), o.enabled === false ? [] : o.parts.map((p: any) => `${o.path}.${p.name}.Documentation`)),
  },
});
export const older = spec({
  target: ["addDocumentation", "addQueryParameterDescription", "addTags", "addTagsAndSummary"],
  inputs: { kind: oneOf("query", "tags", "summary", "any"), name: str(), text: str(), tags: arr(str()), other: dict(str()), path: str() },
  call: (i) => {
    const s = stackOf({}), at = new Resource(i.path, { restApiId: "the api" }) as any;
    if (i.kind === "query") addQueryParameterDescription(i.name, i.text, at, s);
    else if (i.kind === "tags") addTags(i.name, clone(i.tags), at, s);
    else if (i.kind === "summary") addTagsAndSummary(i.name, clone(i.tags), i.text, at, s);
    else addDocumentation(i.name, i.other, at, s);
  },
  ensures: {
    one: (o, r) => {
      const d = made(r, "CfnDocumentationPart");
      return r.ok && d.length === 1 && d[0].id === `${o.name}Documentation` && d[0].props.restApiId === "the api" && same(d[0].props.location, o.kind === "query" ? { type: "QUERY_PARAMETER", name: o.name, path: o.path } : { type: "METHOD", path: o.path }) && same(JSON.parse(d[0].props.properties), o.kind === "query" ? { description: o.text } : o.kind === "tags" ? { tags: o.tags } : o.kind === "summary" ? { tags: o.tags, summary: o.text } : o.other);
    },
  },
});
import * as am from "repo:lib/digitraffic-common/src/utils/api-model.ts";
const modelUrl = (apiId: string, m: string) => `https://apigateway.amazonaws.com/restapis/${apiId}/models/${m}`;
export const serviceModels = spec({
  target: ["addServiceModel", "addSimpleServiceModel", "addDefaultValidator", "createArraySchema", "getModelReference"],
  inputs: { name: str(), api: str(), other: str(), type: opt(str()), schema: obj({ type: str(), a: num() }) },
  call: (i) => { const a: any = new RestApi(app(), i.api, {}); return { model: am.addServiceModel(i.name, a, i.schema as any), simple: am.addSimpleServiceModel(i.other, a, i.type as any), validator: am.addDefaultValidator(a), list: am.createArraySchema({ modelId: i.name } as any, a) }; },
  ensures: {
    models: (o, r) => r.ok && same(recorded(r, "model").map((x: any) => [x[1], x[2]]), [[o.name, { contentType: "application/json", modelName: o.name, schema: o.schema }], [o.other, { contentType: o.type ?? "application/xml", modelName: o.other, schema: {} }]]),
    references: (o, r) => r.value.model.modelReference === modelUrl(`restApiId(${o.api})`, `model(${o.name})`) && r.value.simple.modelId === `model(${o.other})` && same(r.value.list, { type: "array", items: { ref: modelUrl(`restApiId(${o.api})`, o.name) } }),
    validator: (o, r) => same(recorded(r, "validator").map((x: any) => x[2]), [{ validateRequestParameters: true, validateRequestBody: true }]),
  },
});
export const schemas = spec({
  target: ["featureSchema", "geojsonSchema"],
  inputs: { ref: str() },
  call: (i) => [am.featureSchema(i.ref), am.geojsonSchema(i.ref)],
  ensures: {
    feature: (o, r) => { const s: any = r.value[0]; return r.ok && s.type === "object" && same([...s.required].sort(), ["geometry", "properties", "type"]) && same(s.properties.type.enum, ["Feature"]) && s.properties.properties.ref === o.ref && s.properties.geometry.type === "object"; },
    collection: (o, r) => { const s: any = r.value[1]; return s.type === "object" && same([...s.required].sort(), ["features", "type"]) && same(s.properties.type.enum, ["FeatureCollection"]) && s.properties.features.type === "array" && s.properties.features.items.ref === o.ref; },
  },
});

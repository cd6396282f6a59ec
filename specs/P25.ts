// Schemas: GeoJSON documents are accepted exactly when well-formed, and unchanged; OpenAPI documents by version and closed parts.
import { spec, str, num, int, bool, opt, or, lit, arr, tuple, obj, oneOf, dict, same } from "vf";
import * as g from "repo:lib/digitraffic-common/src/types/geojson.ts";
import { openapiSchema, openapiOperation, parameterObject } from "repo:lib/digitraffic-common/src/types/openapi-schema.ts";
const S = g as any;
const pos = arr(num());
const okPos = (p: any) => Array.isArray(p) && p.length >= 2 && p.length <= 3 && p.every((x: any) => typeof x === "number");
const okLine = (l: any) => Array.isArray(l) && l.length >= 2 && l.every(okPos);
const okRing = (l: any) => Array.isArray(l) && l.length >= 4 && l.every(okPos);
const shapes: any = { Point: okPos, MultiPoint: (c: any) => Array.isArray(c) && c.every(okPos), LineString: okLine, MultiLineString: (c: any) => Array.isArray(c) && c.every(okLine), Polygon: (c: any) => Array.isArray(c) && c.every(okRing), MultiPolygon: (c: any) => Array.isArray(c) && c.every((p: any) => Array.isArray(p) && p.every(okRing)) };
const ok = (x: any) => x.success === true;
const verdict = (want: boolean, x: any, doc: any) => x.success === want && (!want || same(x.data, doc));
const flat = or(lit("Point"), lit("MultiPoint"), lit("LineString"));
const nested = or(lit("MultiLineString"), lit("Polygon"), lit("MultiPolygon"));
const check = (i: any) => S[`${i.kind}Schema`].safeParse({ type: i.right ? i.kind : i.type, coordinates: i.coordinates });
export const geometries = spec({
  target: ["PointSchema", "MultiPointSchema", "LineStringSchema"],
  inputs: { kind: flat, right: bool(), type: str(), coordinates: or(pos, arr(pos), str(), lit(undefined)) },
  requires: (o) => o.type !== o.kind,
  call: check,
  ensures: { verdict: (o, r) => r.ok && verdict(o.right && shapes[o.kind](o.coordinates), r.value, { type: o.kind, coordinates: o.coordinates }) },
});
const p2 = or(tuple(num(), num()), tuple(num()));
const line = or(tuple(), tuple(p2), tuple(tuple(num(), num(), num()), p2), tuple(tuple(num(), num()), tuple(num(), num()), p2), tuple(tuple(num(), num()), tuple(num(), num()), tuple(num(), num()), p2));
const ring = tuple(tuple(num(), num()), tuple(num(), num()), tuple(num(), num()), tuple(num(), num()));
export const nestedGeometries = spec({
  target: ["MultiLineStringSchema", "PolygonSchema", "MultiPolygonSchema"], bounded: "at most two polygons or rings, the last of them of at most four positions",
  inputs: { kind: nested, right: bool(), type: str(), coordinates: or(tuple(), tuple(line), tuple(ring, line), tuple(tuple(line)), tuple(tuple(ring), tuple(ring, line)), pos, str(), lit(undefined)) },
  requires: (o) => o.type !== o.kind,
  call: check,
  ensures: { verdict: (o, r) => r.ok && verdict(o.right && shapes[o.kind](o.coordinates), r.value, { type: o.kind, coordinates: o.coordinates }) },
});
const point = { type: "Point", coordinates: [25, 60] };
const geometryOf = (i: any): any => (i.deep === "plain" ? { type: i.kind, coordinates: i.coordinates } : i.deep === "collection" ? { type: "GeometryCollection", geometries: [point, { type: i.kind, coordinates: i.coordinates }] } : { type: "GeometryCollection", geometries: [{ type: "GeometryCollection", geometries: [{ type: i.kind, coordinates: i.coordinates }] }] });
export const anyGeometry = spec({
  target: ["GeometrySchema"], bounded: "collections nested at most twice, with at most two parts",
  inputs: { kind: or(lit("Point"), lit("LineString"), lit("Polygon"), lit("Else")), deep: or(lit("plain"), lit("collection"), lit("deeper")), coordinates: or(tuple(num(), num()), tuple(num()), line, tuple(line)) },
  call: (i) => g.GeometrySchema.safeParse(geometryOf(i)),
  ensures: { verdict: (o, r) => r.ok && verdict(o.kind !== "Else" && shapes[o.kind](o.coordinates), r.value, geometryOf(o)) },
});
const feature = (i: any): any => ({ ...(i.type ? { type: "Feature" } : {}), ...(i.geometry === undefined ? {} : { geometry: i.geometry }), ...(i.properties === undefined ? {} : { properties: i.properties }), ...(i.id === undefined ? {} : { id: i.id }) });
const okFeature = (i: any) => i.type && i.geometry?.type === "Point" && okPos(i.geometry.coordinates) && (i.properties === undefined || typeof i.properties === "object") && (i.id === undefined || typeof i.id !== "boolean");
const part = { type: bool(), geometry: opt(obj({ type: or(lit("Point"), lit("Else")), coordinates: pos })), properties: or(lit(undefined), obj({ a: str(), b: opt(num()) }), str()), id: or(lit(undefined), str(), num(), bool()) };
export const features = spec({
  target: ["FeatureSchema"],
  inputs: part,
  call: (i) => g.FeatureSchema.safeParse(feature(i)),
  ensures: { verdict: (o, r) => r.ok && verdict(okFeature(o), r.value, feature(o)) },
});
const f = obj({ type: or(lit("Feature"), lit("Else")), geometry: obj({ type: lit("Point"), coordinates: p2 }), id: str() });
export const collections = spec({
  target: ["FeatureCollectionSchema"], bounded: "at most two features",
  inputs: { type: or(lit("FeatureCollection"), lit("Feature"), lit(undefined)), features: or(tuple(), tuple(f), tuple(f, f), str(), lit(undefined)) },
  call: (i) => g.FeatureCollectionSchema.safeParse({ type: i.type, features: i.features }),
  ensures: { verdict: (o, r) => r.ok && verdict(o.type === "FeatureCollection" && Array.isArray(o.features) && o.features.every((f: any) => f.type === "Feature" && okPos(f.geometry.coordinates)), r.value, { type: o.type, features: o.features }) },
});

const api = (i: any): any => ({ openapi: i.version, info: { title: i.title, version: "1", ...(i.infoExtra ? { extra: 1 } : {}) }, paths: i.paths, ...(i.server === undefined ? {} : { servers: [i.server] }), ...(i.components === undefined ? {} : { components: i.components }) });
export const documents = spec({
  target: ["openapiSchema"],
  inputs: { version: str(), title: or(str(), num()), infoExtra: bool(), paths: or(lit(undefined), obj({ a: obj({ summary: opt(str()) }) })), server: opt(obj({ url: str(), extra: opt(str()) })), components: opt(obj({ schemas: opt(obj({ a: num() })), extra: opt(str()) })) },
  call: (i) => openapiSchema.safeParse(api(i)),
  ensures: {
    verdict: (o, r) => r.ok && verdict(/^3\.\d\.\d(-.+)?$/.test(o.version) && typeof o.title === "string" && !o.infoExtra && o.paths !== undefined && (o.server === undefined || o.server.extra === undefined) && (o.components === undefined || o.components.extra === undefined), r.value, api(o)),
  },
});
const parameter = (i: any): any => ({ name: i.name, in: i.in, required: i.required });
export const operations = spec({
  target: ["openapiOperation", "parameterObject"],
  inputs: { name: opt(str()), in: or(lit("query"), lit("header"), lit("path"), lit("cookie"), lit("body"), lit(undefined)), required: or(lit(undefined), bool(), str()), ref: opt(str()), tags: or(lit(undefined), arr(str()), str()), deprecated: or(lit(undefined), bool(), num()) },
  call: (i) => [parameterObject.safeParse(parameter(i)), openapiOperation.safeParse({ tags: i.tags, deprecated: i.deprecated, parameters: [{ $ref: i.ref, ...parameter(i) }] })],
  ensures: {
    parameter: (o, r) => r.ok && r.value[0].success === (o.name !== undefined && o.in !== "body" && o.in !== undefined && typeof o.required !== "string"),
    operation: (o, r) => r.value[1].success === ((r.value[0].success || o.ref !== undefined) && typeof o.tags !== "string" && typeof o.deprecated !== "number"),
  },
});
// parts of a document that name what they may hold
const u = opt(lit(1));
export const closedParts = spec({
  target: ["openapiSchema"],
  inputs: { license: opt(obj({ name: opt(str()), url: opt(str()), other: u })), contact: opt(obj({ name: opt(str()), url: opt(str()), other: u })), docs: opt(obj({ url: opt(str()), other: u })) },
  call: (i) => openapiSchema.safeParse(partly(i)),
  ensures: {
    verdict: (o, r) => r.ok && verdict((o.license === undefined || (o.license.name !== undefined && o.license.other === undefined)) && o.contact?.other === undefined && (o.docs === undefined || (o.docs.url !== undefined && o.docs.other === undefined)), r.value, partly(o)),
  },
});
const given = (o: any) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
const partly = (i: any): any => ({ openapi: "3.0.1", info: given({ title: "t", version: "1", license: i.license && given(i.license), contact: i.contact && given(i.contact) }), paths: {}, ...(i.docs ? { externalDocs: given(i.docs) } : {}) });
const tagged = (i: any): any => ({ openapi: "3.0.1", info: { title: "t", version: "1" }, paths: {}, tags: [{ name: "first" }, given({ ...i.tag, docs: undefined, ...(i.tag.docs ? { externalDocs: given(i.tag.docs) } : {}) })], servers: [{ url: "first" }, given({ url: "second", variables: i.variable && { v: given(i.variable) } })] });
export const closedLists = spec({
  target: ["openapiSchema"],
  inputs: { tag: obj({ name: opt(str()), other: u, docs: opt(obj({ url: opt(str()), other: u })) }), variable: opt(obj({ default: opt(str()), enum: opt(arr(str())), other: u })) },
  call: (i) => openapiSchema.safeParse(tagged(i)),
  ensures: {
    verdict: (o, r) => r.ok && verdict(o.tag.name !== undefined && o.tag.other === undefined && (o.tag.docs === undefined || (o.tag.docs.url !== undefined && o.tag.docs.other === undefined)) && (o.variable === undefined || (o.variable.default !== undefined && o.variable.other === undefined)), r.value, tagged(o)),
  },
});

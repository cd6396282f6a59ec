// Geometry text: every coordinate appears, in order, in the form the type requires; distances are great-circle distances.
import { spec, str, num, int, obj, arr, tuple, lit, oneOf, or, nullable, date, dict, json, same, implies } from "vf";
import { createGeometry, createGmlLineString, positionToList, createFeatureCollection, distanceBetweenPositionsInKm, distanceBetweenPositionsInM, areDistinctPositions } from "repo:lib/digitraffic-common/src/utils/geometry.ts";

const pos = or(tuple(num(-180, 180), num(-90, 90)), tuple(num(-180, 180), num(-90, 90), num(-1000, 9000)));
const line = arr(pos);
const poly = arr(arr(pos));
const pair = (p: any) => String(p[0]) + " " + String(p[1]);
export const wktPoint = spec({ target: "createGeometry", inputs: { c: pos }, call: (i) => createGeometry({ type: "Point", coordinates: i.c }), ensures: { text: (o, r) => r.value === "POINT(" + pair(o.c) + ")" } });
export const wktLine = spec({ target: "createGeometry", inputs: { c: line }, call: (i) => createGeometry({ type: "LineString", coordinates: i.c }), ensures: { text: (o, r) => r.value === "LINESTRING(" + o.c.map((p: any) => pair(p)).join(",") + ")" } });
const rings = (c: any) => c.map((l: any) => "(" + l.map((p: any) => pair(p)).join(",") + ")").join(",");
export const wktPolygon = spec({ target: "createGeometry", inputs: { c: poly }, call: (i) => createGeometry({ type: "Polygon", coordinates: i.c }), ensures: { text: (o, r) => r.value === "POLYGON(" + rings(o.c) + ")" } });
export const wktMultiPolygon = spec({ target: "createGeometry", inputs: { c: arr(poly) }, call: (i) => createGeometry({ type: "MultiPolygon", coordinates: i.c }), ensures: { text: (o, r) => r.value === "MULTIPOLYGON(" + o.c.map((p: any) => "(" + rings(p) + ")").join(",") + ")" } });
export const wktOther = spec({ target: "createGeometry", inputs: { t: oneOf("MultiPoint", "MultiLineString", "GeometryCollection"), c: line }, call: (i) => createGeometry({ type: i.t, coordinates: i.c } as any), ensures: { empty: (o, r) => r.value === "POLYGON EMPTY", logged: (o, r) => r.trace.length === 1 && r.trace[0].name === "log.error" } });

const plist = (p: any) => p.map((n: number) => n.toPrecision(8)).join(" ");
export const gmlPoint = spec({ target: "createGmlLineString", inputs: { c: pos }, call: (i) => createGmlLineString({ type: "Point", coordinates: i.c }), ensures: { text: (o, r) => same(r.value, { srsName: "EPSG:4326", posList: plist(o.c) }) } });
export const gmlLine = spec({ target: "createGmlLineString", inputs: { c: line, srs: str() }, call: (i) => createGmlLineString({ type: "LineString", coordinates: i.c }, i.srs as any), ensures: { text: (o, r) => same(r.value, { srsName: o.srs, posList: o.c.map((p: any) => plist(p)).join(" ") }) } });
export const gmlPolygon = spec({ target: "createGmlLineString", inputs: { c: poly }, call: (i) => createGmlLineString({ type: "Polygon", coordinates: i.c }), ensures: { text: (o, r) => r.value.posList === o.c.map((l: any) => l.map((p: any) => plist(p)).join(" ")).join(" ") } });
export const gmlOther = spec({ target: "createGmlLineString", inputs: { t: oneOf("MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection") }, call: (i) => createGmlLineString({ type: i.t } as any), ensures: { refused: (o, r) => !r.ok && r.error instanceof Error } });
export const precision = spec({ target: "positionToList", inputs: { p: arr(num()), n: int(1, 21) }, call: (i) => positionToList(i.p, i.n), ensures: { text: (o, r) => r.value === o.p.map((x: number) => x.toPrecision(o.n)).join(" ") } });

const haversine = (lon1: number, lat1: number, lon2: number, lat2: number) => {
  const s1 = Math.sin(((lat2 - lat1) * 0.017453292519943295) / 2);
  const s2 = Math.sin(((lon2 - lon1) * 0.017453292519943295) / 2);
  const a = s1 * s1 + Math.cos(lat1 * 0.017453292519943295) * Math.cos(lat2 * 0.017453292519943295) * s2 * s2;
  return 6371 * 2 * Math.atan2(Math.sqrt(a), Math.sqrt(1 - a));
};
export const distanceKm = spec({ target: "distanceBetweenPositionsInKm", inputs: { a: pos, b: pos }, call: (i) => distanceBetweenPositionsInKm(i.a, i.b), ensures: { haversine: (o, r) => r.ok && same(r.value, haversine(o.a[0], o.a[1], o.b[0], o.b[1])) } });
export const distanceM = spec({ target: "distanceBetweenPositionsInM", inputs: { a: pos, b: pos }, call: (i) => distanceBetweenPositionsInM(i.a, i.b), ensures: { haversine: (o, r) => r.ok && same(r.value, 1000 * haversine(o.a[0], o.a[1], o.b[0], o.b[1])) } });
export const badPositions = spec({ target: "distanceBetweenPositionsInKm", inputs: { a: arr(num(1, 90)), b: arr(num(1, 90)) }, requires: (o) => o.a.length < 2 || o.b.length < 2 || o.a.length > 3 || o.b.length > 3, call: (i) => distanceBetweenPositionsInKm(i.a, i.b), ensures: { refused: (o, r) => !r.ok } });
export const distinct = spec({ target: "areDistinctPositions", inputs: { a: pos, b: pos }, call: (i) => areDistinctPositions(i.a, i.b), ensures: { iff: (o, r) => r.value === !(o.a[0] === o.b[0] && o.a[1] === o.b[1]) } });
export const featureCollection = spec({ target: "createFeatureCollection", inputs: { f: arr(obj({ type: lit("Feature"), geometry: nullable(obj({ type: lit("Point"), coordinates: pos })), properties: nullable(dict(json(1))) })), t: nullable(date()) }, call: (i) => createFeatureCollection(i.f as any, i.t), ensures: { complete: (o, r) => same(r.value, { type: "FeatureCollection", lastUpdated: o.t, features: o.f }) } });

// Query parameters of a proxied request reach the handler complete and unmixed.
import { spec, str, opt, same, implies, dict, arr, nullable } from "vf";
import { parseQueryParams } from "repo:lib/digitraffic-common/src/utils/lambda-proxy-event.ts";
const has = (o: any, k: string) => o !== null && o !== undefined && Object.hasOwn(o, k);
export const params = spec({
  target: "parseQueryParams",
  inputs: { single: opt(nullable(dict(str()))), multi: opt(nullable(dict(arr(str())))), force: arr(str()), k: str() },
  requires: (o) => o.k !== "__proto__",
  call: (i) => parseQueryParams({ queryStringParameters: i.single, multiValueQueryStringParameters: i.multi } as any, i.force),
  ensures: {
    succeeds: (o, r) => r.ok,
    repeatedKeepsAllValues: (o, r) => implies(has(o.multi, o.k) && o.multi[o.k].length > 1, () => same(r.value[o.k], o.multi[o.k])),
    declaredListIsList: (o, r) => implies(has(o.multi, o.k) && o.force.includes(o.k), () => same(r.value[o.k], o.multi[o.k])),
    onlyValueIsScalar: (o, r) => implies(has(o.multi, o.k) && !o.force.includes(o.k) && o.multi[o.k].length === 1, () => r.value[o.k] === o.multi[o.k][0]),
    singleOnly: (o, r) => implies(!has(o.multi, o.k) && has(o.single, o.k) && !o.force.includes(o.k), () => r.value[o.k] === o.single[o.k]),
    singleOnlyDeclaredList: (o, r) => implies(!has(o.multi, o.k) && has(o.single, o.k) && o.force.includes(o.k), () => same(r.value[o.k], [o.single[o.k]])),
    nothingInvented: (o, r) => implies(!has(o.multi, o.k) && !has(o.single, o.k), () => !Object.hasOwn(r.value, o.k)),
  },
});
export const defaults = spec({
  target: "parseQueryParams",
  inputs: { single: nullable(dict(str())), multi: nullable(dict(arr(str(), { min: 1 }))), k: str() },
  requires: (o) => o.k !== "__proto__",
  call: (i) => parseQueryParams({ queryStringParameters: i.single, multiValueQueryStringParameters: i.multi } as any),
  ensures: {
    scalarWhenSingle: (o, r) => implies(has(o.multi, o.k) && o.multi[o.k].length === 1, () => r.value[o.k] === o.multi[o.k][0]),
    listWhenRepeated: (o, r) => implies(has(o.multi, o.k) && o.multi[o.k].length > 1, () => same(r.value[o.k], o.multi[o.k])),
    fallsBackToSingle: (o, r) => implies(!has(o.multi, o.k) && has(o.single, o.k), () => r.value[o.k] === o.single[o.k]),
  },
});

// Collection, configuration and error helpers mean what they say.
import { spec, str, int, num, bool, opt, or, lit, err, json, arr, dict, obj, nullable, same, implies, opaqueFn, opaque, setEnv, tuple } from "vf";
import { bothArraysHasSameValues, getFirst, getLast, getEnvVariable, getEnvVariableSafe, getEnvVariableOr, getEnvVariableOrElse, setEnvVariable, hasOwnPropertySafe, getErrorMessage, isDefined, setEnvVariableAwsRegion, setSecretOverideAwsRegionEnv, omitDeep } from "repo:lib/digitraffic-common/src/utils/utils.ts";

const upTo3 = (x: any) => or(tuple(), tuple(x), tuple(x, x), tuple(x, x, x));
export const sameValues = spec({
  target: "bothArraysHasSameValues",
  bounded: "lists of at most three elements",
  inputs: { a: upTo3(str()), b: upTo3(str()) },
  call: (i) => bothArraysHasSameValues(i.a, i.b),
  ensures: { iffMutuallyContained: (o, r) => r.value === (o.a.every((x: any) => o.b.includes(x)) && o.b.every((x: any) => o.a.includes(x))) },
});
export const sameValuesMissing = spec({
  target: "bothArraysHasSameValues",
  inputs: { a: or(lit(null), lit(undefined), arr(str())), b: or(lit(null), lit(undefined), arr(str())) },
  requires: (o) => !o.a || !o.b,
  call: (i) => bothArraysHasSameValues(i.a, i.b),
  ensures: { onlyBothMissing: (o, r) => r.value === (!o.a && !o.b) },
});
export const firstLast = spec({
  target: ["getFirst", "getLast"],
  inputs: { a: arr(or(str(), num(), lit(null)), { min: 1 }) },
  call: (i) => [getFirst(i.a), getLast(i.a)],
  ensures: { first: (o, r) => r.value[0] === o.a[0], last: (o, r) => r.value[1] === o.a[o.a.length - 1], untouched: (o, r, i) => same(i.a, o.a) },
});
export const firstLastInOrder = spec({
  target: ["getFirst", "getLast"], bounded: "lists of at most three elements",
  inputs: { a: or(tuple(num()), tuple(num(), num()), tuple(num(), num(), num())) },
  call: (i) => { const order: any = (a: number, b: number) => b - a; const b = [...i.a]; return [getFirst(i.a, order), getLast(b, order), b]; },
  ensures: { first: (o, r) => r.ok && r.value[0] === Math.max(...o.a), last: (o, r) => r.value[1] === Math.min(...o.a), untouched: (o, r, i) => same(i.a, o.a) && same(r.value[2], o.a) },
});
export const firstEmpty = spec({ target: "getFirst", inputs: {}, call: () => getFirst([]), ensures: { refused: (o, r) => !r.ok && r.error instanceof Error } });
export const lastEmpty = spec({ target: "getLast", inputs: {}, call: () => getLast([]), ensures: { refused: (o, r) => !r.ok && r.error instanceof Error } });

export const env = spec({
  target: ["getEnvVariable", "getEnvVariableSafe", "getEnvVariableOr", "getEnvVariableOrElse"],
  inputs: { k: str(), other: or(str(), num(), lit(undefined)) },
  env: dict(str()),
  requires: (o) => o.k !== "__proto__",
  call: (i) => [getEnvVariableSafe(i.k), getEnvVariableOr(i.k, () => i.other), getEnvVariableOrElse(i.k, i.other), getEnvVariable(i.k)],
  ensures: {
    definedIsReturned: (o, r) => implies(Object.hasOwn(o.env, o.k), () => r.ok && same(r.value, [{ result: "ok", value: o.env[o.k] }, o.env[o.k], o.env[o.k], o.env[o.k]])),
    undefinedIsAnError: (o, r) => implies(!Object.hasOwn(o.env, o.k), () => !r.ok && r.error instanceof Error && r.error.message.includes(o.k)),
  },
});
export const envMissing = spec({
  target: ["getEnvVariableSafe", "getEnvVariableOr", "getEnvVariableOrElse"],
  inputs: { k: str(), other: or(str(), num(), lit(undefined)) },
  env: dict(str()),
  requires: (o) => !Object.hasOwn(o.env, o.k) && o.k !== "__proto__" && o.k !== "",
  call: (i) => [getEnvVariableSafe(i.k).result, getEnvVariableOr(i.k, () => i.other), getEnvVariableOrElse(i.k, i.other)],
  ensures: { alternative: (o, r) => r.ok && same(r.value, ["error", o.other, o.other]) },
});
export const envSet = spec({
  target: "setEnvVariable",
  inputs: { k: str({ re: /^[A-Z_]+$/ }), v: str(), k2: str({ re: /^[A-Z_]+$/ }) },
  env: dict(str(), { keys: /^[A-Z_]+$/ }),
  requires: (o) => o.k !== "__proto__" && o.k2 !== "__proto__",
  call: (i) => { setEnvVariable(i.k, i.v); return [getEnvVariable(i.k), getEnvVariableSafe(i.k2)]; },
  ensures: {
    set: (o, r) => r.ok && r.value[0] === o.v,
    othersKept: (o, r) => implies(o.k2 !== o.k, () => (Object.hasOwn(o.env, o.k2) ? r.value[1].value === o.env[o.k2] : r.value[1].result === "error")),
  },
});
export const envRegion = spec({
  target: ["setEnvVariableAwsRegion", "setSecretOverideAwsRegionEnv"],
  inputs: { v: str(), w: str() },
  env: dict(str()),
  call: (i) => { setEnvVariableAwsRegion(i.v); setSecretOverideAwsRegionEnv(i.w); return [getEnvVariable("AWS_REGION"), getEnvVariable("SECRET_OVERRIDE_AWS_REGION")]; },
  ensures: { set: (o, r) => r.ok && same(r.value, [o.v, o.w]) },
});
export const own = spec({ target: "hasOwnPropertySafe", inputs: { o: dict(str()), k: str() }, requires: (o) => o.k !== "__proto__", call: (i) => hasOwnPropertySafe(i.o, i.k), ensures: { iff: (o, r) => r.value === Object.keys(o.o).includes(o.k) } });
export const errorText = spec({ target: "getErrorMessage", inputs: { e: or(err(), str(), num(), bool(), lit(null), lit(undefined)) }, call: (i) => getErrorMessage(i.e), ensures: { text: (o, r) => r.value === (o.e instanceof Error ? `${o.e.name}: ${o.e.message}` : String(o.e)) } });
export const defined = spec({ target: "isDefined", inputs: { v: or(str(), num(), bool(), lit(null), lit(undefined), arr(str())) }, call: (i) => isDefined(i.v), ensures: { iff: (o, r) => r.value === !(o.v === undefined || o.v === null) } });

// omitDeep: structural induction over the value
function strip(x: any, keys: readonly string[]): any {
  if (typeof x !== "object" || x === null) return x;
  if (Array.isArray(x)) return x.map((y) => strip(y, keys));
  const out: any = {};
  for (const k of Object.keys(x)) if (!keys.includes(k)) out[k] = strip(x[k], keys);
  return out;
}
const hyp = opaqueFn("stripped");
export const omit = spec({
  target: "omitDeep",
  inputs: { v: json(2), keys: arr(str()) },
  contracts: { "lib/digitraffic-common/src/utils/utils.ts#omitDeep": (x: any, ...keys: string[]) => hyp(x, keys.join(",")), "spec:P05.ts#strip": (x: any, keys: string[]) => hyp(x, keys.join(",")) },
  recursive: true,
  call: (i) => omitDeep(i.v, ...i.keys),
  ensures: { exactlyTheKeysAreGone: (o, r) => r.ok && same(r.value, strip(o.v, o.keys)), inputUntouched: (o, r, i) => same(i.v, o.v) },
});

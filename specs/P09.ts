// Secrets: retrieval, prefixes, expected keys, caching, database credentials.
import { spec, str, num, int, bool, opt, or, lit, arr, dict, obj, err, fn, oneOf, same, implies, advance, setEnv, settled } from "vf";
import { control } from "./mocks/secrets-manager.ts";
import { getSecret, getFromEnvOrSecret } from "repo:lib/digitraffic-common/src/aws/runtime/secrets/secret.ts";
import { SecretHolder } from "repo:lib/digitraffic-common/src/aws/runtime/secrets/secret-holder.ts";
import { ProxyHolder } from "repo:lib/digitraffic-common/src/aws/runtime/secrets/proxy-holder.ts";
import { RdsHolder } from "repo:lib/digitraffic-common/src/aws/runtime/secrets/rds-holder.ts";
import { checkExpectedSecretKeys } from "repo:lib/digitraffic-common/src/aws/runtime/secrets/dbsecret.ts";
export const mocks = { "@aws-sdk/client-secrets-manager": "./mocks/secrets-manager.ts" };
const retrievals = (r: any) => r.trace.filter((e: any) => e.name === "sm.get").length;
const serve = (secret: any) => { control.answer = () => ({ SecretString: JSON.stringify(secret) }); };
const key = /^[A-Za-z_.]+$/;
const secret = dict(str());
// names every object has are not names of secret values
const plainKey = (k: string) => k !== "constructor" && k !== "toString" && k !== "valueOf" && k !== "hasOwnProperty" && k !== "isPrototypeOf" && k !== "propertyIsEnumerable" && k !== "toLocaleString" && !k.startsWith("__");
const env = { AWS_REGION: str({ min: 1 }), SECRET_OVERRIDE_AWS_REGION: opt(str()) };

export const whole = spec({
  target: "getSecret",
  inputs: { secret, id: str() }, env,
  call: (i) => { serve(i.secret); return getSecret<any>(i.id); },
  ensures: {
    value: (o, r) => r.ok && same(r.value, o.secret),
    asksForIt: (o, r) => retrievals(r) === 1 && r.trace.some((e: any) => e.name === "sm.get" && same(e.args[0], { SecretId: o.id })),
    region: (o, r) => r.trace.every((e: any) => e.name !== "sm.get" || e.args[1] === (o.env.SECRET_OVERRIDE_AWS_REGION ?? o.env.AWS_REGION)),
  },
});
export const prefixed = spec({
  target: "getSecret",
  inputs: { secret, id: str(), prefix: str({ min: 1 }), k: str() }, env,
  requires: (o) => o.k !== "__proto__",
  call: (i) => { serve(i.secret); return getSecret<any>(i.id, i.prefix); },
  ensures: {
    stripped: (o, r) => r.ok && (Object.hasOwn(o.secret, `${o.prefix}.${o.k}`) && o.secret[`${o.prefix}.${o.k}`] !== "" ? r.value[o.k] === o.secret[`${o.prefix}.${o.k}`] : !Object.hasOwn(r.value, o.k)),
  },
});
export const missing = spec({
  target: "getSecret",
  inputs: { s: opt(lit("")), id: str() }, env,
  call: (i) => { control.answer = () => ({ SecretString: i.s }); return getSecret(i.id); },
  ensures: { refused: (o, r) => !r.ok && r.error instanceof Error },
});
export const envOrSecret = spec({
  target: "getFromEnvOrSecret",
  inputs: { secret, id: str(), k: oneOf("MY_KEY", "OTHER_KEY") }, env: { ...env, MY_KEY: opt(str()) },
  call: (i) => { serve(i.secret); return getFromEnvOrSecret(i.k, i.id); },
  ensures: {
    environmentFirst: (o, r) => implies(o.k === "MY_KEY" && o.env.MY_KEY !== undefined, () => r.ok && r.value === o.env.MY_KEY && retrievals(r) === 0),
    thenTheSecret: (o, r) => implies((o.k !== "MY_KEY" || o.env.MY_KEY === undefined) && Object.hasOwn(o.secret, o.k), () => r.ok && r.value === o.secret[o.k]),
    elseAnError: (o, r) => implies((o.k !== "MY_KEY" || o.env.MY_KEY === undefined) && !Object.hasOwn(o.secret, o.k), () => !r.ok && r.error.message.includes(o.k)),
  },
});
export const expected = spec({
  target: "checkExpectedSecretKeys",
  inputs: { keys: arr(str({ re: key })), secret },
  requires: (o) => o.keys.every(plainKey),
  call: (i) => checkExpectedSecretKeys(i.keys, i.secret),
  ensures: { exactlyWhenAllPresent: (o, r) => r.ok === o.keys.every((k: string) => Object.hasOwn(o.secret, k)) },
});

// a holder asked three times, the secret changing and the retrieval failing in between
const answers = fn(or(obj({ user: str(), host: str() }), lit(null)), { arity: 1 });
export const cached = spec({
  target: "SecretHolder.get",
  inputs: { answers, id: str(), w1: int(0, 1000000), w2: int(0, 1000000) }, env,
  call: async (i) => {
    control.calls = 0;
    control.answer = (_: any, n: number) => { const s: any = i.answers(n); if (s === null) throw new Error("unavailable"); return { SecretString: JSON.stringify(s) }; };
    const holder = new SecretHolder<any>(i.id);
    const a = await settled(() => holder.get()), n1 = control.calls;
    advance(i.w1);
    const b = await settled(() => holder.get()), n2 = control.calls;
    advance(i.w2);
    const c = await settled(() => holder.get());
    return { a, b, c, n: [n1, n2 - n1, control.calls - n2] };
  },
  ensures: {
    first: (o, r) => r.ok && r.value.n[0] === 1 && outcome(r.value.a, o.answers(1)),
    second: (o, r) => { const again = o.answers(1) === null || o.w1 > 300000; return r.value.n[1] === (again ? 1 : 0) && outcome(r.value.b, again ? o.answers(2) : o.answers(1)); },
    third: (o, r) => {
      // the last successful retrieval and its age
      const again1 = o.answers(1) === null || o.w1 > 300000;
      const n = again1 ? 3 : 2;
      const valid = again1 ? o.answers(2) !== null && o.w2 <= 300000 : o.w1 + o.w2 <= 300000;
      return r.value.n[2] === (valid ? 0 : 1) && outcome(r.value.c, valid ? o.answers(again1 ? 2 : 1) : o.answers(n));
    },
  },
});
function outcome(x: any, s: any) { return s === null ? x.ok === false : x.ok === true && same(x.value, s); }
export const holderPrefix = spec({
  target: ["SecretHolder.get", "SecretHolder.create"],
  inputs: { secret, prefix: str(), need: opt(str()), k: str() }, env: { ...env, SECRET_ID: str() },
  requires: (o) => o.k !== "__proto__" && (o.need === undefined || plainKey(o.need)),
  call: (i) => { serve(i.secret); return SecretHolder.create<any>(i.prefix, i.need === undefined ? [] : [i.need]).get(); },
  ensures: {
    refusedWithoutNeeded: (o, r) => implies(o.need !== undefined && !kept(o, o.need), () => !r.ok),
    accepted: (o, r) => implies(o.need === undefined || kept(o, o.need), () => r.ok && (kept(o, o.k) ? r.value[o.k] === o.secret[full(o, o.k)] : !Object.hasOwn(r.value, o.k))),
    ofTheEnvironment: (o, r) => r.trace.some((e: any) => e.name === "sm.get" && e.args[0].SecretId === o.env.SECRET_ID),
  },
});
const full = (o: any, k: string) => (o.prefix === "" ? k : `${o.prefix}.${k}`);
const kept = (o: any, k: string) => Object.hasOwn(o.secret, full(o, k)) && (o.prefix === "" || o.secret[full(o, k)] !== "");

const dbEnv = { ...env, SECRET_ID: str(), DB_USER: opt(str()), DB_PASS: opt(str()), DB_URI: opt(str()), DB_RO_URI: opt(str()) };
const credentials = (names: any) => (o: any, r: any) => {
  const all = Object.values(names).every((k: any) => Object.hasOwn(o.secret, k));
  return r.value.ok === all && ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"].every((v) => r.value.env[v] === (all ? o.secret[names[v]] : o.env[v]));
};
const snapshot = () => ({ DB_USER: process.env["DB_USER"], DB_PASS: process.env["DB_PASS"], DB_URI: process.env["DB_URI"], DB_RO_URI: process.env["DB_RO_URI"] });
export const proxyCredentials = spec({
  history: true, // what an earlier call put in the environment stays there
  target: "ProxyHolder.setCredentials",
  inputs: { secret: obj({ username: opt(str()), password: opt(str()), proxy_host: opt(str()), proxy_ro_host: opt(str()), host: opt(str()) }) }, env: dbEnv,
  call: async (i) => { serve(i.secret); const x = await settled(() => ProxyHolder.create().setCredentials()); return { ok: x.ok, env: snapshot() }; },
  ensures: { allOrNothing: credentials({ DB_USER: "username", DB_PASS: "password", DB_URI: "proxy_host", DB_RO_URI: "proxy_ro_host" }) },
});
export const rdsCredentials = spec({
  history: true, // what an earlier call put in the environment stays there
  target: "RdsHolder.setCredentials",
  inputs: { secret: obj({ username: opt(str()), password: opt(str()), host: opt(str()), ro_host: opt(str()), proxy_host: opt(str()) }) }, env: dbEnv,
  call: async (i) => { serve(i.secret); const x = await settled(() => RdsHolder.create().setCredentials()); return { ok: x.ok, env: snapshot() }; },
  ensures: { allOrNothing: credentials({ DB_USER: "username", DB_PASS: "password", DB_URI: "host", DB_RO_URI: "ro_host" }) },
});

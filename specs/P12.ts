// Database connections: credentials, clean sessions, transactions, errors and closing; bookkeeping of update times.
import { spec, str, num, int, bool, opt, or, lit, date, arr, dict, tuple, obj, err, fn, oneOf, same, implies, record, settled } from "vf";
import { control } from "./mocks/pg-promise.ts";
import { inDatabase, inDatabaseReadonly, inTransaction, initDbConnection } from "repo:lib/digitraffic-common/src/database/database.ts";
import * as lu from "repo:lib/digitraffic-common/src/database/last-updated.ts";
export const mocks = { "pg-promise": "./mocks/pg-promise.ts" };
const env = { DB_USER: str({ min: 1 }), DB_PASS: str({ min: 1 }), DB_URI: str({ min: 1 }), DB_RO_URI: str({ min: 1 }), DB_APPLICATION: opt(str()) };
const names = (r: any) => r.trace.map((e: any) => e.name);
const how = oneOf("write", "read", "transaction");
const use = { write: inDatabase, read: inDatabaseReadonly, transaction: inTransaction } as any;
const reset = () => { control.fails = []; control.rows = undefined; control.conns = []; };

export const lifecycle = spec({
  target: ["inDatabase", "inDatabaseReadonly", "inTransaction"],
  inputs: { how, outcome: or(obj({ value: or(str(), num(), lit(undefined), arr(str())) }), obj({ error: err() })), nulls: opt(bool()) }, env,
  call: (i) => {
    reset();
    return use[i.how](async (db: any) => { record("work", db.isTask === true); await db.none("select 1"); if ("error" in i.outcome) throw i.outcome.error; return (i.outcome as any).value; }, i.nulls);
  },
  ensures: {
    outcome: (o, r, i) => ("error" in i.outcome ? !r.ok && r.error === i.outcome.error : r.ok && same(r.value, (o.outcome as any).value)),
    order: (o, r) => same(names(r), ["connect", "db.none", ...(o.how === "transaction" ? ["tx.begin"] : []), "work", "db.none", ...(o.how === "transaction" ? ["error" in o.outcome ? "tx.rollback" : "tx.commit"] : []), ...("error" in o.outcome ? ["log.error"] : []), "pool.end"]),
    cleanSession: (o, r) => r.trace[1].args[0] === "DISCARD ALL",
    inTransaction: (o, r) => r.trace.every((e: any) => e.name !== "work" || e.args[0] === (o.how === "transaction")),
    address: (o, r) => r.trace[0].args[0] === `postgresql://${o.env.DB_USER}:${o.env.DB_PASS}@${o.how === "read" ? o.env.DB_RO_URI : o.env.DB_URI}?application_name=${o.env.DB_APPLICATION ?? "unknown-cdk-application"}`,
    logged: (o, r, i) => ("error" in i.outcome ? r.trace.filter((e: any) => e.name === "log.error").every((e: any) => e.args[0].message.includes((i.outcome as any).error.message)) : true),
    nullsOnlyOnRequest: (o, r) => (o.nulls === true ? typeof control.conns[0].init?.receive === "function" : control.conns[0].init === undefined || control.conns[0].init.receive === undefined),
  },
});
export const unclean = spec({
  target: ["inDatabase", "inDatabaseReadonly", "inTransaction"],
  inputs: { how }, env,
  call: (i) => { reset(); control.fails = ["DISCARD ALL"]; return use[i.how](async () => { record("work"); return 1; }); },
  ensures: { refused: (o, r) => !r.ok && r.error.message === "query failed" && same(names(r), ["connect", "db.none", "log.error", "pool.end"]) },
});
export const missing = spec({
  target: ["inDatabase", "inDatabaseReadonly", "inTransaction"],
  inputs: { how }, env: { DB_USER: opt(str()), DB_PASS: opt(str()), DB_URI: opt(str()), DB_RO_URI: opt(str()) },
  requires: (o) => o.env.DB_USER === undefined || o.env.DB_PASS === undefined || (o.how === "read" ? o.env.DB_RO_URI : o.env.DB_URI) === undefined,
  call: (i) => { reset(); return use[i.how](async () => { record("work"); return 1; }); },
  ensures: { refused: (o, r) => !r.ok && r.trace.length === 0 },
});
export const connection = spec({
  target: "initDbConnection",
  inputs: { user: str(), pass: str(), app: str(), url: str(), nulls: bool(), options: opt(obj({ a: num() })) },
  call: (i) => { reset(); return initDbConnection(i.user, i.pass, i.app, i.url, i.nulls, i.options); },
  ensures: {
    connects: (o, r) => r.ok && same(names(r), ["connect"]) && r.trace[0].args[0] === `postgresql://${o.user}:${o.pass}@${o.url}?application_name=${o.app}` && same(r.trace[0].args[1], o.options) && r.value === control.conns[0],
  },
});
const cell = or(str(), num(), bool(), date(), lit(null));
const row = obj({ a: cell, b_c: cell });
export const nulls = spec({
  target: "convertNullColumnsToUndefined", bounded: "at most two rows of two columns",
  inputs: { rows: or(tuple(), tuple(row), tuple(row, row)) },
  call: (i) => { reset(); initDbConnection("u", "p", "a", "x", true); control.conns[0].init.receive({ data: i.rows }); control.conns[0].init.receive({ data: undefined }); return i.rows; },
  ensures: { converted: (o, r) => r.ok && r.value.length === o.rows.length && r.value.every((x: any, n: number) => ["a", "b_c"].every((k) => same(x[k], (o.rows as any)[n][k] === null ? undefined : (o.rows as any)[n][k]))) },
});
export const numbers = spec({
  target: "initPgp",
  inputs: { n: int(-9007199254740991, 9007199254740991), f: num(), nulls: bool() },
  call: (i) => { reset(); initDbConnection("u", "p", "a", "x", i.nulls); return [control.parsers[20](String(i.n)), control.parsers[701](String(i.f)), control.parsers[1700](String(i.f))]; },
  ensures: { parsed: (o, r) => r.ok && same(r.value, [o.n, o.f, o.f]) },
});
// update times
export const kinds = spec({
  target: "DataType",
  inputs: {},
  call: () => lu.DataType,
  ensures: { asStored: (o, r) => r.ok && Object.entries(r.value).every(([k, v]) => k === v) },
});
const type = oneOf("VS_DATEX2", "COUNTING_SITES_DATA", "PERMIT_DATA");
const db = () => { reset(); const c = initDbConnection("u", "p", "a", "x", false); return c; };
const squash = (s: any) => s.replace(/\s+/g, " ").toLowerCase();
// what a statement does, whatever the order of its columns, values and conditions
const list = (s: string, by: RegExp) => s.split(by).map((x) => x.trim().replace(/\s*=\s*/, "=")).sort();
const select = (s: string) => { const m = squash(s).trim().match(/^select (.*) from (.*) where (.*)$/)!; return { columns: list(m[1], /,/), table: m[2], conditions: list(m[3], / and /) }; };
const insert = (s: string) => {
  const m = squash(s).trim().match(/^insert into ([a-z_]+) ?\((.*)\) ?values ?\((.*)\) on conflict ?\((.*)\) do update set (.*)$/)!;
  const columns = m[2].split(","), values = m[3].split(",");
  return { table: m[1], row: columns.map((c: string, n: number) => `${c.trim()}=${values[n]!.trim()}`).sort(), sameSize: columns.length === values.length, conflict: list(m[4], /,/), update: list(m[5], /,/) };
};
const query = (r: any) => r.trace.filter((e: any) => e.name !== "connect");
export const readUpdated = spec({
  target: ["getLastUpdated", "getLastUpdatedWithSubtype", "getUpdatedTimestamp"],
  inputs: { what: oneOf("plain", "subtype", "timestamp"), type, sub: str(), t: opt(date()) },
  call: (i) => { const c = db(); control.rows = () => (i.t === undefined ? null : { updated: i.t }); return i.what === "plain" ? lu.getLastUpdated(c, i.type as any) : i.what === "subtype" ? lu.getLastUpdatedWithSubtype(c, i.type as any, i.sub) : lu.getUpdatedTimestamp(c, i.sub); },
  ensures: {
    value: (o, r) => r.ok && same(r.value, o.t ?? null),
    asks: (o, r) => query(r).length === 1 && query(r)[0].name === "db.oneOrNone" && (o.what === "plain" ? same(query(r)[0].args[1], { datatype: o.type, subtype: "-" }) : o.what === "subtype" ? same(query(r)[0].args[1], { datatype: o.type, subtype: o.sub }) : same(query(r)[0].args[1], { datatype: o.sub })),
    statement: (o, r) => same(select(query(r)[0].args[0]), o.what === "timestamp" ? { columns: ["updated_time as updated"], table: "updated_timestamp", conditions: ["updated_name=$(datatype)"] } : { columns: ["updated"], table: "data_updated", conditions: ["data_type=$(datatype)", "subtype=$(subtype)"] }),
  },
});
export const writeUpdated = spec({
  target: ["updateLastUpdated", "updateLastUpdatedWithSubtype", "updateUpdatedTimestamp"],
  inputs: { what: oneOf("plain", "subtype", "timestamp"), type, sub: str(), by: opt(str()), t: date() },
  call: (i) => { const c = db(); return i.what === "plain" ? lu.updateLastUpdated(c, i.type as any, i.t) : i.what === "subtype" ? lu.updateLastUpdatedWithSubtype(c, i.type as any, i.sub, i.t) : lu.updateUpdatedTimestamp(c, i.sub, i.t, i.by); },
  ensures: {
    done: (o, r) => r.ok && r.value === null,
    once: (o, r) => query(r).length === 1 && query(r)[0].name === "db.none",
    values: (o, r) => same(query(r)[0].args[1], o.what === "plain" ? { updated: o.t, datatype: o.type } : o.what === "subtype" ? { updated: o.t, subtype: o.sub, datatype: o.type } : { date: o.t, datatype: o.sub, by: o.by ?? "" }),
    statement: (o, r) => same(insert(query(r)[0].args[0]), o.what === "timestamp"
      ? { table: "updated_timestamp", row: ["updated_by=$(by)", "updated_name=$(datatype)", "updated_time=$(date)"], sameSize: true, conflict: ["updated_name"], update: ["updated_by=$(by)", "updated_time=$(date)"] }
      : { table: "data_updated", row: ["data_type=$(datatype)", "id=nextval('seq_data_updated')", ...(o.what === "subtype" ? ["subtype=$(subtype)"] : []), "updated=$(updated)"], sameSize: true, conflict: ["data_type", "subtype"], update: ["updated=$(updated)"] }),
  },
});

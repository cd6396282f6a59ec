// Port call messages taken in: which are stored, with which ship and port call, each on its own.
import { spec, str, num, int, bool, opt, or, lit, date, tuple, obj, oneOf, nullable, json, anynum, same, implies, record, now } from "vf";
import { recorded } from "./infra.ts";
import { control as dbs } from "./mocks/pg-promise.ts";
import { control as secrets } from "./mocks/secrets-manager.ts";
import { validateTimestamp } from "repo:marine/portactivity/src/service/timestamp-validation.ts";
import { saveTimestamp, saveTimestamps } from "repo:marine/portactivity/src/service/timestamps.ts";
import { createUpdateValues } from "repo:marine/portactivity/src/dao/timestamps.ts";
import { handlerFn } from "repo:marine/portactivity/src/lambda/process-queue/process-queue.ts";
export const baseEnv = { SECRET_ID: "secret", AWS_REGION: "region" };
export const mocks = { "pg-promise": "./mocks/pg-promise.ts", "@aws-sdk/client-secrets-manager": "./mocks/secrets-manager.ts", "@middy/core": "./mocks/middy.ts", "@middy/sqs-partial-batch-failure": "./mocks/middy.ts" };
const when = () => date({ min: 1600000000000, max: 1900000000000 });
const AWAKE = "Awake.AI", PRED = "Awake.AI Pred", CALC = "SCHEDULES_CALCULATED";
const KINDS = ["ATA", "ATB", "ATD", "ETA", "ETB", "ETP", "ETD", "RPS", "PPS", "APS", "APC"];
const time = or(lit(undefined), lit(""), lit("not a time"), when());
const text = (t: any) => (t instanceof Date ? t.toISOString() : t);
const good = (t: any) => t instanceof Date;
const location = obj({ port: opt(str()), from: opt(str()), portArea: opt(str()) });
const message = (i: any) => ({ eventType: i.kind, eventTime: text(i.at), recordTime: text(i.recorded), source: i.source, ship: i.ship, location: i.place, portcallId: i.call, sourceId: i.id });
const db = (row: any) => ({ oneOrNone: async (_sql: string, values: any) => { record("ais", values); return row; } }) as any;
const complete = (o: any) => KINDS.includes(o.kind) && good(o.at) && good(o.recorded) && !!o.source && o.ship !== undefined && (!!o.ship.mmsi || !!o.ship.imo) && o.place !== undefined && !!o.place.port && o.place.port.length <= 5 && (o.place.from ?? "").length <= 5 && (o.place.portArea ?? "").length <= 6;
const decided = {
  decided: (o: any, r: any) => r.ok && (r.value !== undefined) === (complete(o) && !(o.source === PRED && o.kind === "ETD")),
  unchanged: (o: any, r: any) => r.value === undefined || same(r.value, message(o)),
};
const fixed = { kind: lit("ATA"), at: when(), recorded: when(), source: lit("Portnet"), ship: obj({ mmsi: lit(1), imo: lit(2) }), place: obj({ port: lit("FIHEL") }), call: opt(int()), id: opt(str()) };
export const times = spec({
  target: ["validateTimestamp"],
  inputs: { ...fixed, kind: or(lit(undefined), lit("ETA"), lit("ETD"), lit("ATB"), str()), at: time, recorded: time, source: opt(or(lit(""), lit(PRED), lit("Portnet"))) },
  call: (i) => validateTimestamp(message(i) as any, db(null)), ensures: decided,
});
export const ships = spec({ target: ["validateTimestamp"], inputs: { ...fixed, ship: opt(obj({ mmsi: opt(int(0)), imo: opt(int(0)) })) }, call: (i) => validateTimestamp(message(i) as any, db(null)), ensures: decided });
export const places = spec({ target: ["validateTimestamp"], inputs: { ...fixed, place: opt(location) }, call: (i) => validateTimestamp(message(i) as any, db(null)), ensures: decided });
// estimates calculated for ships that lie still are not stored
export const still = spec({
  target: ["validateTimestamp"],
  inputs: { ...fixed, kind: or(lit("ETA"), lit("ETB"), lit("ETD"), lit("ATA")), source: or(lit(CALC), lit(AWAKE), lit("SCHEDULES_VTS_CONTROLLED")), ship: obj({ mmsi: or(lit(undefined), int(0)), imo: lit(9) }), seen: or(lit(null), obj({ sog: num(), nav_stat: int(0, 15) })) },
  call: (i) => validateTimestamp(message(i) as any, db(i.seen)),
  ensures: {
    decided: (o, r) => r.ok && (r.value === undefined) === (o.source === CALC && (o.kind === "ETA" || o.kind === "ETB") && !!o.ship.mmsi && o.seen !== null && ([1, 5, 6].includes(o.seen.nav_stat) || o.seen.sog < 2)),
    asked: (o, r) => same(recorded(r, "ais").map((x: any) => x[0]), o.source === CALC && (o.kind === "ETA" || o.kind === "ETB") && o.ship.mmsi ? [[o.ship.mmsi]] : []),
  },
});
// the spread of an estimate is kept only when it is one
export const spread = spec({
  target: ["validateTimestamp"],
  inputs: { ...fixed, low: or(lit(undefined), lit(null), lit("-3"), anynum()), high: or(lit(undefined), lit(null), lit("3"), anynum()) },
  call: (i) => validateTimestamp({ ...message(i), eventTimeConfidenceLowerDiff: i.low, eventTimeConfidenceUpperDiff: i.high } as any, db(null)),
  ensures: {
    kept: (o, r) => {
      const is = typeof o.low === "number" && typeof o.high === "number" && o.low < 0 && o.high > 0;
      return r.ok && same(r.value, { ...message(o), ...(is ? { eventTimeConfidenceLowerDiff: o.low, eventTimeConfidenceUpperDiff: o.high } : {}) });
    },
  },
});
// the values written
export const values = spec({
  target: ["createUpdateValues"],
  inputs: { at: when(), recorded: when(), low: opt(num()), high: opt(num()), mmsi: opt(int(0)), imo: opt(int(0)), port: str(), from: opt(str()), area: opt(str()), call: opt(int()), id: opt(str()), source: str(), kind: oneOf("ETA", "ATD") },
  call: (i) => createUpdateValues({ eventType: i.kind, eventTime: i.at.toISOString(), recordTime: i.recorded.toISOString(), source: i.source, sourceId: i.id, ship: { mmsi: i.mmsi, imo: i.imo }, location: { port: i.port, from: i.from, portArea: i.area }, portcallId: i.call, eventTimeConfidenceLowerDiff: i.low, eventTimeConfidenceUpperDiff: i.high } as any),
  ensures: { written: (o, r) => r.ok && same(r.value, [o.kind, o.at, undefined, o.low ? Math.floor(o.low) : undefined, undefined, o.high ? Math.ceil(o.high) : undefined, o.source, o.recorded, o.port, o.mmsi || undefined, o.imo || undefined, o.call, o.area, o.from, o.id]) },
});
// storing one: the port call and the ship are looked up when not given
const what = (sql: any) => (typeof sql !== "string" ? sql.name : sql.includes("nav_stat") ? "ais" : sql.includes("AS mmsi") ? "mmsi" : "imo");
const rowsFor = (i: any) => (sql: any) => (({ "find-portcall-id": i.foundCall === null ? null : { port_call_id: i.foundCall }, imo: i.foundImo === null ? null : { imo: i.foundImo }, mmsi: i.foundMmsi === null ? null : { mmsi: i.foundMmsi }, "find-by-portcall-id-and-locode": i.elsewhere, "update-timestamps": i.row }) as any)[what(sql)];
const store = (i: any) => {
  const answer = rowsFor(i), ask = (kind: string) => async (sql: any, values?: any) => { record(what(sql), values ?? sql.values); return answer(sql) ?? (kind === "many" ? [] : null); };
  const t = { oneOrNone: ask("one"), manyOrNone: ask("many"), none: ask("none") };
  return { ...t, tx: async (f: any) => { record("begin"); const v = await f(t); record("commit"); return v; } } as any;
};
const stored = { ...fixed, kind: or(lit("ETA"), lit("ETB"), lit("ATD")), source: or(lit("Portnet"), lit(PRED), lit(AWAKE), lit(CALC)), call: or(lit(undefined), int(1)), ship: obj({ mmsi: or(lit(undefined), int(0)), imo: or(lit(undefined), int(1)) }), foundCall: or(lit(null), int(1)), foundImo: or(lit(null), lit(0), int(1)), foundMmsi: or(lit(null), int(1)), elsewhere: or(tuple(), tuple(obj({ id: int(1) })), tuple(obj({ id: int(1) }), obj({ id: int(1) }))), row: or(lit(null), obj({ ship_imo: int(1), ship_mmsi: int(1), location_locode: lit("FIHEL") })) };
const callOf_ = (o: any) => o.call ?? o.foundCall ?? undefined;
const imoOf = (o: any) => o.ship.imo ?? (o.ship.mmsi ? o.foundImo || undefined : undefined);
const mmsiOf = (o: any) => (o.ship.mmsi ? o.ship.mmsi : o.ship.imo ? o.foundMmsi ?? undefined : undefined);
const accepted = (o: any) => (callOf_(o) !== undefined || o.source === PRED) && imoOf(o) !== undefined;
const moved = (o: any) => (o.source === "Portnet" && callOf_(o) !== undefined ? o.elsewhere : []);
const storing = (inputs: any) => ({
  target: ["saveTimestamp"], inputs: { ...stored, ...inputs },
  requires: (o: any) => !!o.ship.mmsi || !!o.ship.imo,
  call: (i: any) => saveTimestamp(message(i) as any, store(i)),
  ensures: {
    refused: (o: any, r: any) => r.ok && (accepted(o) || (r.value === undefined && recorded(r, "update-timestamps").length === 0 && recorded(r, "delete-by-id").length === 0)),
    written: (o: any, r: any) => !accepted(o) || same(recorded(r, "update-timestamps").map((x: any) => x[0]), [[o.kind, o.at, undefined, undefined, undefined, undefined, o.source, o.recorded, "FIHEL", mmsiOf(o), imoOf(o), callOf_(o), undefined, undefined, o.id]]),
    asked: (o: any, r: any) => same(recorded(r, "find-portcall-id").map((x: any) => x[0]), o.call !== undefined ? [] : [[o.ship.mmsi, o.ship.imo, "FIHEL", o.kind === "ETB" && (o.source === AWAKE || o.source === CALC) ? "ETA" : o.kind, o.at]]),
    moved: (o: any, r: any) => !accepted(o) || (same(recorded(r, "delete-by-id").map((x: any) => x[0]), moved(o).map((x: any) => [x.id])) && (o.source !== "Portnet" || callOf_(o) === undefined || same(recorded(r, "find-by-portcall-id-and-locode").map((x: any) => x[0]), [[callOf_(o), "FIHEL"]]))),
    answered: (o: any, r: any) => !accepted(o) || same(r.value, o.row === null ? undefined : { ...o.row, locodeChanged: moved(o).length > 0 }),
    atOnce: (o: any, r: any) => recorded(r, "begin").length === 1 && recorded(r, "commit").length === 1,
  },
});
export const saved = spec({ ...storing({ elsewhere: tuple(obj({ id: int(1) })) }) });
export const changed = spec({ ...storing({ ship: obj({ mmsi: int(1), imo: int(1) }), kind: lit("ETA") }), bounded: "at most two times in another port" });
// a batch of messages: each on its own
const record_ = or(obj({ body: lit("bad") }), obj({ body: lit("unknown") }), obj({ body: lit("good"), imo: int(1), fails: bool() }));
export const batch = spec({
  target: ["handlerFn"], history: true, bounded: "at most three messages",
  inputs: { records: or(tuple(), tuple(record_), tuple(record_, record_), tuple(record_, record_, record_)), at: when() },
  call: (i) => {
    secrets.calls = 0; secrets.answer = () => ({ SecretString: JSON.stringify({ username: "user", password: "password", host: "writer", ro_host: "reader" }) });
    dbs.conns = []; dbs.fails = [];
    dbs.rows = (sql: any, values: any) => { if (sql.name === "update-timestamps") { const x: any = i.records.find((m: any) => m.imo === values[10] && m.body === "good"); if (x.fails) throw new Error("broken"); return { ship_imo: values[10], location_locode: "FIHEL" }; } return null; };
    const body = (m: any) => (m.body === "bad" ? "{" : JSON.stringify(m.body === "unknown" ? {} : { eventType: "ATA", eventTime: i.at.toISOString(), recordTime: i.at.toISOString(), source: "Portnet2", ship: { imo: m.imo, mmsi: 5 }, location: { port: "FIHEL" }, portcallId: 7 }));
    return handlerFn()({ Records: i.records.map((m: any) => ({ body: body(m) })) } as any);
  },
  requires: (i) => i.records.every((a: any, n: number) => i.records.every((b: any, m: number) => n === m || a.body !== "good" || b.body !== "good" || a.imo !== b.imo)),
  ensures: {
    each: (o, r) => r.ok && same(r.value.map((x: any) => [x.status, x.value === undefined ? undefined : x.value.ship_imo]), o.records.map((m: any) => (m.body === "bad" ? ["rejected", undefined] : m.body === "unknown" ? ["fulfilled", undefined] : m.fails ? ["rejected", undefined] : ["fulfilled", m.imo]))),
    connected: (_o, r) => recorded(r, "connect").length === 1 && recorded(r, "pool.end").length === 1,
  },
});
export const several = spec({
  target: ["saveTimestamps"], bounded: "at most two times",
  inputs: { imos: or(tuple(), tuple(int(1)), tuple(int(1), int(1))), at: when(), none: bool() }, env: { SECRET_ID: lit("secret"), DB_USER: lit("u"), DB_PASS: lit("p"), DB_URI: lit("writer") },
  call: (i) => { dbs.conns = []; dbs.fails = []; dbs.rows = (sql: any, v: any) => (sql.name === "update-timestamps" && !i.none ? { ship_imo: v[10] } : null); return saveTimestamps(i.imos.map((imo: any) => ({ eventType: "ATA", eventTime: i.at.toISOString(), recordTime: i.at.toISOString(), source: "Portnet2", ship: { imo, mmsi: 5 }, location: { port: "FIHEL" }, portcallId: 7 })) as any); },
  ensures: {
    written: (o, r) => r.ok && same(recorded(r, "db.oneOrNone").map((x: any) => x[1][10]), o.imos),
    answered: (o, r) => same(r.value, o.imos.map((imo: any) => (o.none ? undefined : { ship_imo: imo, locodeChanged: false }))),
    atOnce: (_o, r) => recorded(r, "tx.begin").length === 1 && recorded(r, "tx.commit").length === 1,
  },
});

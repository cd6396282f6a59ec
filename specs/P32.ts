// Unknown delays and tracks: read from stop monitoring messages, matched to the timetable, stored.
import { spec, str, num, int, bool, opt, or, lit, date, tuple, arr, obj, oneOf, nullable, same, implies, record, now } from "vf";
import { recorded } from "./infra.ts";
import { control as db, Connection } from "./mocks/mysql2.ts";
import { control as queue } from "./mocks/sqs.ts";
import { parseUDOTMessage } from "repo:rail/rami/src/service/process-sm-message.ts";
import { processUdotMessage } from "repo:rail/rami/src/service/process-udot-message.ts";
import { insertOrUpdate } from "repo:rail/rami/src/dao/udot.ts";
import { handlerFn as smQueue } from "repo:rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts";
import { handlerFn as udotQueue } from "repo:rail/rami/src/lambda/process-udot-queue/process-udot-queue.ts";
export const baseEnv = { SECRET_ID: "secret", AWS_REGION: "region", DB_USER: "u", DB_PASS: "p", DB_URI: "w", DB_APPLICATION: "db", DLQ_URL: "dlq", ROSM_SQS_URL: "rosm", SM_SQS_URL: "sm", UDOT_SQS_URL: "udot" };
export const mocks = { "mysql2/promise": "./mocks/mysql2.ts", "mysql2/promise.js": "./mocks/mysql2.ts", "node:async_hooks": "./mocks/async-hooks.ts", "@aws-sdk/client-sqs": "./mocks/sqs.ts", "@middy/core": "./mocks/middy.ts", "@middy/sqs-partial-batch-failure": "./mocks/middy.ts", "@aws-sdk/client-secrets-manager": "./mocks/secrets-manager.ts" };
const when = () => date({ min: 1600000000000, max: 1900000000000 });
// reading
const call = obj({ station: str(), boarding: oneOf("boarding", "noBoarding", "passthru"), arrives: opt(when()), departs: opt(when()), arrivalKnown: bool(), departureKnown: bool(), arrivalQuay: or(lit(undefined), lit(""), str({ min: 1 })), departureQuay: or(lit(undefined), str({ min: 1 })) });
const raw = (c: any) => ({ arrivalStopAssignment: { expectedQuayName: c.arrivalQuay }, departureStopAssignment: { expectedQuayName: c.departureQuay }, aimedArrivalTime: c.arrives?.toISOString(), aimedDepartureTime: c.departs?.toISOString(), expectedArrivalTime: c.arrivalKnown ? "2024-01-01T00:00:00Z" : undefined, expectedDepartureTime: c.departureKnown ? "2024-01-01T00:00:00Z" : undefined, departureBoardingActivity: c.boarding, stopPointRef: c.station });
const visit = (name: string, first: any, rest: any[]) => ({ headers: { e2eId: "e2e", source: "s", recordedAtTime: "t", eventType: null }, payload: { monitoredStopVisits: [{ monitoredVehicleJourney: { monitoredCall: first, onwardCalls: rest, vehicleJourneyName: name } }] } });
const stops = (c: any) => (c.boarding !== "boarding" ? [] : [
  ...(c.arrives === undefined ? [] : [{ stationShortCode: c.station, scheduledTime: c.arrives, type: 0, unknownDelay: !c.arrivalKnown, unknownTrack: !c.arrivalQuay }]),
  ...(c.departs === undefined ? [] : [{ stationShortCode: c.station, scheduledTime: c.departs, type: 1, unknownDelay: !c.departureKnown, unknownTrack: !c.departureQuay }])]);
export const read = spec({
  target: ["parseUDOTMessage"],
  inputs: { first: call },
  call: (i) => parseUDOTMessage(visit("20240807110076", raw(i.first), [])),
  ensures: {
    stops: (o, r) => r.ok && same(r.value.data, stops(o.first)),
    train: (o, r) => same([r.value.messageId, r.value.trainNumber, r.value.departureDate, r.value.vehicleJourneyName], ["e2e", 10076, "2024-08-07", "20240807110076"]),
  },
});
const later = obj({ station: str(), boarding: oneOf("boarding", "noBoarding"), arrives: when(), departs: opt(when()), arrivalKnown: bool(), departureKnown: lit(true), arrivalQuay: lit(undefined), departureQuay: lit("1") });
export const onward = spec({
  target: ["parseUDOTMessage"],
  inputs: { first: later, rest: or(tuple(), tuple(later), tuple(later, later)) },
  call: (i) => parseUDOTMessage(visit("20241231100008", raw(i.first), i.rest.map(raw))),
  ensures: { stops: (o, r) => r.ok && same(r.value.data, [o.first, ...o.rest].flatMap(stops)) },
});
export const names = spec({
  target: ["parseUDOTMessage"],
  inputs: { day: or(lit("20240807"), lit("19991231"), lit("20300101")), n: or(lit(["00001", 1]), lit(["00045", 45]), lit(["08122", 8122]), lit(["99999", 99999])), bus: or(lit(""), lit("BUS"), lit("B")) },
  call: (i) => parseUDOTMessage(visit(i.day + "1" + i.n[0] + i.bus, raw({ station: "HKI", boarding: "none" }), [])),
  ensures: { train: (o, r) => r.ok && (o.bus === "B" ? r.value === undefined : r.value.trainNumber === o.n[1] && r.value.departureDate === o.day.slice(0, 4) + "-" + o.day.slice(4, 6) + "-" + o.day.slice(6, 8) && same(r.value.data, [])) },
});
// matching: a stop is the timetable row of the same station, kind and minute
const stop = obj({ station: or(lit("HKI"), lit("TPE")), at: when(), type: or(lit(0), lit(1)), ud: bool(), ut: bool() });
const row = obj({ id: int(1), station: or(lit("HKI"), lit("TPE")), at: when(), type: or(lit(0), lit(1)) });
const rows = (l: any[]) => { db.rows = (sql: any) => (/^\s*select/i.test(sql) ? l.map((x: any) => ({ attap_id: x.id, station_short_code: x.station, scheduled_time: x.at, type: x.type })) : { affectedRows: 0 }); };
const minuteOf = (d: any) => d.toISOString().slice(0, 16);
const found = (s: any, l: any[]) => l.find((x: any) => x.station === s.station && x.type === s.type && minuteOf(x.at) === minuteOf(s.at));
const udot = (i: any, data: any[]) => ({ messageId: i.id, trainNumber: i.train, departureDate: i.date, vehicleJourneyName: "n", data: data.map((s: any) => ({ stationShortCode: s.station, scheduledTime: s.at, type: s.type, unknownDelay: s.ud, unknownTrack: s.ut })) }) as any;
const changes = (r: any) => recorded(r, "db.execute").map((a: any) => a[1]);
const change = (i: any, s: any, x: any) => ({ trainNumber: i.train, trainDepartureDate: i.date, attapId: x.id, messageId: i.id, ut: s.ut, ud: s.ud });
export const matched = spec({
  target: ["processUdotMessage", "findTimeTableRows"],
  inputs: { id: str(), train: int(1), date: str(), s: stop, rows: or(tuple(), tuple(row)) },
  call: (i) => { rows(i.rows); return processUdotMessage(udot(i, [i.s])); },
  ensures: {
    asked: (o, r) => r.ok && recorded(r, "db.query").length === 1 && same(recorded(r, "db.query")[0][1], { trainNumber: o.train, departureDate: o.date }),
    stored: (o, r) => { const x = found(o.s, o.rows); return same(changes(r), x === undefined ? [] : [change(o, o.s, x)]); },
  },
});
const A = new Date("2024-01-31T12:34:10Z"), B = new Date("2024-01-31T12:34:50Z"), C = new Date("2024-01-31T12:35:00Z");
const places = [{ id: 11, station: "HKI", at: A, type: 1 }, { id: 12, station: "HKI", at: B, type: 0 }, { id: 13, station: "TPE", at: C, type: 0 }, { id: 14, station: "HKI", at: C, type: 1 }];
const visited = obj({ station: or(lit("HKI"), lit("TPE")), late: bool(), type: or(lit(0), lit(1)), ud: bool(), ut: lit(true) });
const steps = (r: any) => r.trace.filter((e: any) => e.name.startsWith("db.")).map((e: any) => e.name);
const timed = (s: any) => ({ ...s, at: s.late ? C : A });
export const together = spec({
  target: ["processUdotMessage", "inTransaction"],
  inputs: { id: str(), train: int(1), date: str(), stops: tuple(visited, visited), broken: or(lit("none"), lit("execute"), lit("commit"), lit("begin")), nth: or(lit(11), lit(13)) },
  call: (i) => { rows(places); db.fails = (op: any, sql: any, values: any) => op === i.broken && (op !== "execute" || values.attapId === i.nth); return processUdotMessage(udot(i, i.stops.map(timed))); },
  ensures: {
    stored: (o, r) => o.broken !== "none" || (r.ok && same(changes(r), o.stops.map(timed).map((s: any) => [s, found(s, places)]).filter((x: any) => x[1] !== undefined).map((x: any) => change(o, x[0], x[1])))),
    whole: (o, r) => { const l = steps(r), bad = o.broken === "begin" || o.broken === "commit" || (o.broken === "execute" && o.stops.map(timed).some((s: any) => found(s, places)?.id === o.nth)); return r.ok === !bad && l.filter((x: any) => x === "db.commit").length === (bad && o.broken !== "commit" ? 0 : 1) && (bad && l.includes("db.execute") ? l.includes("db.rollback") : bad || !l.includes("db.rollback")); },
    returned: (o, r) => steps(r).filter((x: any) => x === "db.release").length === steps(r).filter((x: any) => x === "db.connect").length,
  },
});
// storing one stop: known ones only correct what is there, a statement is tried three times, and what changed is recorded
const sql = (a: any) => a[0].replace(/--[^\n]*/g, " ").replace(/\s+/g, " ").trim();
const inserted = (text: string) => { const m = /^insert into (\w+) ?\(([^)]*)\) ?(?:values ?\(([^)]*)\)|select (.*?) from)/i.exec(text)!; const names = m[2].split(",").map((x) => x.trim()), vals = (m[3] ?? m[4]).split(",").map((x) => x.trim().replace(/^:/, "")); return [m[1], names.length === vals.length && Object.fromEntries(names.map((n, k) => [n, vals[k]]))]; };
export const upserted = spec({
  target: ["insertOrUpdate", "executeWithRetry"],
  inputs: { v: obj({ trainNumber: int(1), trainDepartureDate: str(), attapId: int(1), messageId: str(), ut: bool(), ud: bool() }), fails: or(lit(0), lit(1), lit(2), lit(3), lit(4)), affected: or(lit(0), lit(1), lit(2)), history: bool() },
  call: async (i) => {
    let n = 0;
    db.fails = (op: any, text: any) => (/rami_udot_history/.test(text) ? i.history : ++n <= i.fails);
    db.rows = () => ({ affectedRows: i.affected });
    return await insertOrUpdate(new Connection() as any, i.v);
  },
  ensures: {
    tries: (o, r) => recorded(r, "db.execute").filter((a: any) => !/rami_udot_history/.test(a[0])).length === (o.fails > 2 ? 3 : o.fails + 1),
    statement: (o, r) => recorded(r, "db.execute").every((a: any) => same(a[1], o.v)) && (!o.v.ut && !o.v.ud ? /^UPDATE rami_udot SET unknown_delay = false, unknown_track = false WHERE train_number = :trainNumber AND train_departure_date = :trainDepartureDate AND attap_id = :attapId\b/i.test(sql(recorded(r, "db.execute")[0])) : /on duplicate key update/i.test(sql(recorded(r, "db.execute")[0])) && same(inserted(sql(recorded(r, "db.execute")[0])), ["rami_udot", { train_number: "trainNumber", train_departure_date: "trainDepartureDate", attap_id: "attapId", unknown_delay: "ud", unknown_track: "ut" }])),
    history: (o, r) => { const l = recorded(r, "db.execute").filter((a: any) => /rami_udot_history/.test(a[0])); return l.length === (o.fails <= 2 && o.affected > 0 ? 1 : 0) && l.every((a: any) => same(inserted(sql(a)), ["rami_udot_history", { rami_message_id: "messageId", train_number: "train_number", train_departure_date: "train_departure_date", attap_id: "attap_id", unknown_track: "ut", unknown_delay: "ud" }])); },
    outcome: (o, r) => r.ok === (o.fails <= 2 && !(o.affected > 0 && o.history)),
  },
});
// the queues
const sm = (name: string, boarding: any) => JSON.stringify(visit(name, raw({ station: "HKI", boarding, arrives: A, arrivalKnown: false, departureKnown: false }), []));
const kinds = or(lit("fine"), lit("bus"), lit("passing"), lit("not json"), lit("not a message"));
const textOf = (k: any) => (k === "not json" ? "{" : k === "not a message" ? "{}" : sm(k === "bus" ? "20240807100761BUS" : "20240807108122", k === "passing" ? "noBoarding" : "boarding"));
export const monitored = spec({
  target: ["handlerFn", "saveSMMessage"],
  inputs: { first: kinds, second: kinds, broken: or(lit("none"), lit("save"), lit("send")) },
  call: async (i) => {
    db.fails = (op: any, _s: any, v: any) => i.broken === "save" && op === "execute" && v.trainNumber === 8122;
    queue.answer = (x: any) => { if (i.broken === "send" && x.QueueUrl === "udot") throw new Error("refused"); return {}; };
    return await smQueue()({ Records: [i.first, i.second].map((k: any) => ({ body: textOf(k) })) } as any);
  },
  ensures: {
    answer: (o, r) => r.ok && same(r.value.map((x: any) => x.status), [o.first, o.second].map((k: any) => (k === "not json" || (o.broken === "save" && (k === "fine" || k === "passing")) || (o.broken === "send" && k === "fine") ? "rejected" : "fulfilled"))),
    saved: (o, r) => same(recorded(r, "db.execute").map((a: any) => a[1]), [o.first, o.second].filter((k: any) => k === "fine" || k === "bus" || k === "passing").map((k: any) => ({ id: "e2e", trainNumber: k === "bus" ? 761 : 8122, trainDepartureDate: "2024-08-07", message: textOf(k) }))),
    sent: (o, r) => same(recorded(r, "sqs").filter((a: any) => a[0].QueueUrl === "udot").map((a: any) => JSON.parse(a[0].MessageBody)), o.broken === "save" ? [] : [o.first, o.second].filter((k: any) => k === "fine").map(() => ({ messageId: "e2e", trainNumber: 8122, departureDate: "2024-08-07", vehicleJourneyName: "20240807108122", data: [{ stationShortCode: "HKI", scheduledTime: "2024-01-31T12:34:10.000Z", type: 0, unknownDelay: true, unknownTrack: true }] }))),
    aside: (o, r) => same(recorded(r, "sqs").filter((a: any) => a[0].QueueUrl !== "udot").map((a: any) => [a[0].QueueUrl, JSON.parse(a[0].MessageBody).messageType, JSON.parse(a[0].MessageBody).message]), [o.first, o.second].filter((k: any) => k === "not a message").map(() => ["dlq", "SM", "{}"])),
  },
});
export const queued = spec({
  target: ["handlerFn", "processUdotMessage"],
  inputs: { first: or(lit("fine"), lit("not json"), lit("refused")), second: or(lit("fine"), lit("refused")) },
  call: async (i) => {
    rows(places);
    db.fails = (op: any, _s: any, v: any) => op === "execute" && v.trainNumber === 666;
    const text = (k: any, n: number) => (k === "not json" ? "{" : JSON.stringify(udot({ id: "m", train: k === "refused" ? 666 : n, date: "2024-08-07" }, [{ station: "HKI", at: A, type: 1, ud: true, ut: false }])));
    return await udotQueue()({ Records: [{ body: text(i.first, 1), messageId: "1" }, { body: text(i.second, 2), messageId: "2" }] } as any);
  },
  ensures: {
    answer: (o, r) => r.ok && same(r.value.map((x: any) => x.status), [o.first === "fine" ? "fulfilled" : "rejected", o.second === "fine" ? "fulfilled" : "rejected"]),
    stored: (o, r) => [[o.first, 1], [o.second, 2]].every(([k, n]: any) => k !== "fine" || changes(r).filter((x: any) => x.trainNumber === n).length === 1),
  },
});

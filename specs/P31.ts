// Passenger information messages: understood, stored, withdrawn and shown.
import { spec, str, num, int, bool, opt, or, lit, date, tuple, arr, obj, oneOf, nullable, same, implies, record, now, settled } from "vf";
import { recorded } from "./infra.ts";
import { control as db } from "./mocks/mysql2.ts";
import { control as queue } from "./mocks/sqs.ts";
import { parseRosmMessage, processRosmMessage } from "repo:rail/rami/src/service/process-rosm-message.ts";
import { handlerFn as rosmQueue } from "repo:rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts";
import { getActiveMessages } from "repo:rail/rami/src/service/get-message.ts";
import { mapBitsToDays, mapDaysToBits } from "repo:rail/rami/src/util/weekdays.ts";
import { handler as active } from "repo:rail/rami/src/lambda/get-active-messages/get-active-messages.ts";
import { handler as updated } from "repo:rail/rami/src/lambda/get-messages-updated-after/get-messages-updated-after.ts";
import { control as validator } from "./mocks/ajv.ts";
import { control as aws } from "./mocks/aws-client.ts";
import { handler as upload } from "repo:rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts";
import { handler as archive } from "repo:rail/rami/src/lambda/process-dlq/process-dlq.ts";
export const baseEnv = { SECRET_ID: "secret", AWS_REGION: "region", DB_USER: "u", DB_PASS: "p", DB_URI: "w", DB_APPLICATION: "db", DLQ_URL: "dlq", SQS_DLQ_BUCKET_NAME: "bucket", ROSM_SQS_URL: "rosm", SM_SQS_URL: "sm", UDOT_SQS_URL: "udot" };
export const mocks = { ajv: "./mocks/ajv.ts", "ajv-formats": "./mocks/ajv-formats.ts", "@aws-sdk/client-s3": "./mocks/aws-client.ts", "mysql2/promise": "./mocks/mysql2.ts", "mysql2/promise.js": "./mocks/mysql2.ts", "node:async_hooks": "./mocks/async-hooks.ts", "@aws-sdk/client-sqs": "./mocks/sqs.ts", "@middy/core": "./mocks/middy.ts", "@middy/sqs-partial-batch-failure": "./mocks/middy.ts", "@aws-sdk/client-secrets-manager": "./mocks/secrets-manager.ts" };
const when = () => date({ min: 1600000000000, max: 1900000000000 });
const LANGUAGES = ["fi_FI", "sv_SE", "en_GB"];
const language = () => oneOf("fi_FI", "sv_SE", "en_GB", "de_DE");
const DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"];
const head = { id: str(), version: int(1), operation: oneOf("INSERT", "UPDATE", "DELETE"), created: when(), from: when(), until: when() };
const message = (i: any, type: string, more: any) => ({ headers: { e2eId: "e", source: "s", recordedAtTime: "t", eventType: null }, payload: { messageId: i.id, messageVersion: i.version, title: "t", messageType: type, operation: i.operation, creationDateTime: i.created.toISOString(), startValidity: i.from.toISOString(), endValidity: i.until.toISOString(), ...more } });
const common = (o: any, v: any, type: string) => v.id === o.id && v.version === o.version && v.messageType === type && v.operation === o.operation && same([v.created, v.startValidity, v.endValidity], [o.created, o.from, o.until]);
const texts = (c: any) => [c.textFi, c.textSv, c.textEn];
const wanted = (ts: any[], field: string) => LANGUAGES.map((l) => ts.find((t: any) => t.language === l)?.[field].trim());
// messages about a train
const journey = (i: any, more: any) => message(i, "MONITORED_JOURNEY_SCHEDULED_MESSAGE", { monitoredJourneyScheduledMessage: { vehicleJourney: { datedVehicleJourneyRef: i.ref, dataFrameRef: i.date, vehicleJourneyName: String(i.train) }, messageContentType: "AUDIO", deliveryPoints: i.points, ...more } });
const inserted = { ...head, operation: lit("INSERT") };
const aboutTrain = { ...inserted, train: int(1, 99999), date: str(), ref: str(), points: nullable(arr(obj({ id: str() }))) };
export const train = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...aboutTrain, ...head, headless: bool() },
  call: (i) => parseRosmMessage(journey(i, i.headless ? { vehicleJourney: null } : {})),
  ensures: {
    understood: (o, r) => r.ok && r.value !== undefined && common(o, r.value, "MONITORED_JOURNEY_SCHEDULED_MESSAGE"),
    train: (o, r) => same([r.value.trainNumber, r.value.trainDepartureLocalDate, r.value.journeyRef], o.headless ? [undefined, undefined, undefined] : [o.train, o.date, o.ref]),
    stations: (o, r) => same(r.value.stations, o.points === null ? undefined : o.points.map((p: any) => p.id)),
    silent: (o, r) => r.value.audio === undefined && r.value.video === undefined,
  },
});
export const trainAudio = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...aboutTrain, points: arr(obj({ id: str() })), audio: arr(obj({ language: language(), audioText: str() })) },
  call: (i) => parseRosmMessage(journey(i, { audioMessageContents: { audioTexts: i.audio, deliveryRules: null, deliveryType: "ON_EVENT" } })),
  ensures: { texts: (o, r) => r.ok && r.value !== undefined && r.value.video === undefined && same(texts(r.value.audio), wanted(o.audio, "audioText")) },
});
export const trainAudioRules = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...aboutTrain, points: arr(obj({ id: str() })), said: str(), rules: nullable(obj({ repetitions: nullable(int(0)), repeatEvery: nullable(int(0)), eventType: or(lit("ARRIVING"), lit("DEPARTING"), lit(null)) })), kind: or(lit(null), lit("ON_EVENT"), lit("ON_SCHEDULE")) },
  call: (i) => parseRosmMessage(journey(i, { audioMessageContents: { audioTexts: [{ language: "en_GB", audioText: i.said }], deliveryRules: i.rules, deliveryType: i.kind } })),
  ensures: { rules: (o, r) => r.ok && r.value !== undefined && same([...texts(r.value.audio), r.value.audio.repetitions, r.value.audio.repeatEvery, r.value.audio.eventType, r.value.audio.deliveryType], [undefined, undefined, o.said.trim(), o.rules?.repetitions ?? undefined, o.rules?.repeatEvery ?? undefined, o.rules?.eventType ?? undefined, o.kind ?? undefined]) },
});
export const trainVideo = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...aboutTrain, points: arr(obj({ id: str() })), video: arr(obj({ language: language(), videoText: str() })) },
  call: (i) => parseRosmMessage(journey(i, { videoTexts: i.video, audioMessageContents: null })),
  ensures: { texts: (o, r) => r.ok && r.value !== undefined && r.value.audio === undefined && same(texts(r.value.video), wanted(o.video, "videoText")) },
});
// messages for stations
const ground = (i: any, more: any) => message(i, "SCHEDULED_MESSAGE", { scheduledMessage: { deliveryChannels: ["ONGROUND"], recipientTypes: ["ONGROUND"], onGroundRecipient: { messageContentType: "AUDIO", deliveryPoints: i.points, ...more } } });
const forStations = { ...inserted, points: arr(obj({ id: str() })) };
const optDate = () => or(lit(undefined), lit(null), when());
const clock = () => or(lit(undefined), lit(null), str());
const days = () => or(lit(undefined), lit(null), tuple(), tuple(oneOf("SUNDAY", "MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY"), oneOf("SUNDAY", "MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY")));
const iso = (d: any) => (d === undefined || d === null ? d : d.toISOString());
const none = (x: any) => x ?? undefined;
export const stationAudio = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, audio: arr(obj({ language: language(), text: str() })), kind: oneOf("NOW", "DELIVERY_AT", "REPEAT_EVERY") },
  call: (i) => parseRosmMessage(ground(i, { recipientAudioMessagesToDeliver: { audioContentType: "AUDIO_TEXT", audioText: i.audio, scheduledAudioDeliveryRules: { audioSchedulationType: i.kind } } })),
  ensures: {
    understood: (o, r) => r.ok && r.value !== undefined && common(o, r.value, "SCHEDULED_MESSAGE") && r.value.trainNumber === undefined && r.value.video === undefined && same(r.value.stations, o.points.map((p: any) => p.id)),
    texts: (o, r) => same(texts(r.value.audio), wanted(o.audio, "text")) && r.value.audio.deliveryType === o.kind,
  },
});
const audioRules = (i: any, more: any) => ground(i, { recipientAudioMessagesToDeliver: { audioContentType: "AUDIO_TEXT", audioText: [{ language: "fi_FI", text: "x" }], scheduledAudioDeliveryRules: { audioSchedulationType: i.kind, ...more } } });
export const audioPeriod = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, kind: or(lit("DELIVERY_AT"), lit("REPEAT_EVERY")), start: optDate(), end: optDate(), at: optDate() },
  call: (i) => parseRosmMessage(audioRules(i, { startDateTime: iso(i.start), endDateTime: iso(i.end), deliveryAtDateTime: iso(i.at) })),
  ensures: { period: (o, r) => r.ok && r.value !== undefined && same([r.value.audio.deliveryType, r.value.audio.startDateTime, r.value.audio.endDateTime, r.value.audio.deliveryAt], [o.kind, none(o.start), none(o.end), none(o.at)]) },
});
export const audioTimes = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, kind: lit("REPEAT_EVERY"), startTime: clock(), endTime: clock(), repetitions: nullable(int(0)), every: nullable(int(0)) },
  call: (i) => parseRosmMessage(audioRules(i, { startTime: i.startTime, endTime: i.endTime, repetitions: i.repetitions, repeatEvery: i.every })),
  ensures: { times: (o, r) => r.ok && r.value !== undefined && same([r.value.audio.startTime ?? undefined, r.value.audio.endTime ?? undefined, r.value.audio.repetitions ?? undefined, r.value.audio.repeatEvery ?? undefined], [none(o.startTime), none(o.endTime), none(o.repetitions), none(o.every)]) },
});
export const audioDays = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, kind: lit("REPEAT_EVERY"), days: days() },
  call: (i) => parseRosmMessage(audioRules(i, { daysOfWeek: i.days })),
  ensures: { days: (o, r) => r.ok && r.value !== undefined && same(r.value.audio.daysOfWeek ?? undefined, none(o.days)) },
});
export const stationVideo = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, video: arr(obj({ language: language(), text: str() })) },
  call: (i) => parseRosmMessage(ground(i, { recipientVideoMessagesToDeliver: { videoTexts: i.video } })),
  ensures: {
    understood: (o, r) => r.ok && r.value !== undefined && common(o, r.value, "SCHEDULED_MESSAGE") && r.value.audio === undefined,
    texts: (o, r) => same(texts(r.value.video), wanted(o.video, "text")),
  },
});
const videoRules = (i: any, more: any) => ground(i, { recipientVideoMessagesToDeliver: { videoTexts: [{ language: "sv_SE", text: "x" }], deliveryRules: { videoSchedulationType: "WHEN", startDateTime: null, endDateTime: null, ...more } } });
export const videoPeriod = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, kind: or(lit("WHEN"), lit("CONTINUOS_VISUALIZATION")), start: nullable(when()), end: nullable(when()), startTime: clock(), endTime: clock() },
  call: (i) => parseRosmMessage(videoRules(i, { videoSchedulationType: i.kind, startDateTime: iso(i.start), endDateTime: iso(i.end), startTime: i.startTime, endTime: i.endTime })),
  ensures: { rules: (o, r) => r.ok && r.value !== undefined && r.value.audio === undefined && same([r.value.video.deliveryType, r.value.video.startDateTime, r.value.video.endDateTime, r.value.video.startTime ?? undefined, r.value.video.endTime ?? undefined], [o.kind, none(o.start), none(o.end), none(o.startTime), none(o.endTime)]) },
});
export const videoDays = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, days: days() },
  call: (i) => parseRosmMessage(videoRules(i, { daysOfWeek: i.days })),
  ensures: { days: (o, r) => r.ok && r.value !== undefined && same(r.value.video.daysOfWeek ?? undefined, none(o.days)) },
});
// a recording instead of a text: the rest of the message is still there
export const recording = spec({
  target: ["parseRosmMessage", "ramiMessageToDtRamiMessage"],
  inputs: { ...forStations, text: or(lit(null), lit(undefined)), seen: str() },
  call: (i) => parseRosmMessage(ground(i, { recipientAudioMessagesToDeliver: { audioContentType: "AUDIO_FILE", audioText: i.text, media: "file", scheduledAudioDeliveryRules: { audioSchedulationType: "NOW" } }, recipientVideoMessagesToDeliver: { videoTexts: [{ language: "fi_FI", text: i.seen }] } })),
  ensures: { understood: (o, r) => r.ok && r.value !== undefined && common(o, r.value, "SCHEDULED_MESSAGE") && same(texts(r.value.video), [o.seen.trim(), undefined, undefined]) && same(texts(r.value.audio ?? {}), [undefined, undefined, undefined]) },
});
// storing: one transaction, each column given the value it names
const columns = (sql: string) => { const m = /^INSERT INTO (\w+)\s*\(([^)]*)\)\s*VALUES\s*(?:\(([^)]*)\)|\?)$/.exec(sql.trim())!; return { table: m[1], names: m[2].split(",").map((x) => x.trim()), params: m[3] === undefined ? undefined : m[3].split(",").map((x) => x.trim().replace(/^b?:/, "")) }; };
const rowOf = (a: any) => { const c = columns(a[0]); return { table: c.table, row: Object.fromEntries(c.names.map((n, i) => [n, a[1][c.params![i]]])) as any }; };
const steps = (r: any) => r.trace.filter((e: any) => (e.name === "db.begin" || e.name === "db.commit" || e.name === "db.rollback" || e.name === "db.release" || e.name === "db.query" || e.name === "db.execute")).map((e: any) => e.name);
const minute = (d: any) => (d === undefined ? null : d.toISOString().slice(0, 10) + " " + d.toISOString().slice(11, 16));
const orNull = (x: any) => x ?? null;
const bits = (ds: any) => (ds === undefined ? "0000000" : DAYS.map((d) => (ds.includes(d) ? "1" : "0")).join(""));
const weekDays = () => or(lit(undefined), tuple(), tuple(oneOf("MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"), oneOf("MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY")));
const parsed = { id: str(), version: int(1), type: oneOf("SCHEDULED_MESSAGE", "MONITORED_JOURNEY_SCHEDULED_MESSAGE"), operation: or(lit("INSERT"), lit("UPDATE")), created: when(), from: when(), until: when(), stations: arr(str()) };
const understood = (i: any, more: any) => ({ id: i.id, version: i.version, messageType: i.type, operation: i.operation, created: i.created, startValidity: i.from, endValidity: i.until, stations: i.stations, ...more }) as any;
const statement = (r: any, table: string) => recorded(r, "db.query").filter((a: any) => a[0].includes(table + "("));
export const stored = spec({
  target: ["processRosmMessage", "insertMessage", "inTransaction"],
  inputs: { ...parsed, train: opt(int(1)), date: opt(str()), ref: opt(str()) },
  call: (i) => processRosmMessage(understood(i, { trainNumber: i.train, trainDepartureLocalDate: i.date, journeyRef: i.ref })),
  ensures: {
    whole: (o, r) => r.ok && same(steps(r), ["db.begin", "db.query", "db.query", "db.query", "db.query", "db.commit", "db.release"]),
    message: (o, r) => { const l = statement(r, "rami_message").map(rowOf); return l.length === 1 && same(l[0].row, { id: o.id, version: o.version, message_type: o.type, created_source: minute(o.created), start_validity: minute(o.from), end_validity: minute(o.until), train_number: orNull(o.train), train_departure_date: orNull(o.date), journey_ref: orNull(o.ref) }); },
    stations: (o, r) => { const l = statement(r, "rami_message_station"); return l.length === 1 && same(columns(l[0][0]).names, ["rami_message_id", "rami_message_version", "station_short_code"]) && same(l[0][1], [o.stations.map((s: any) => [o.id, o.version, s])]); },
  },
});
export const storedAudio = spec({
  target: ["processRosmMessage", "insertMessage"],
  inputs: { ...parsed, audio: obj({ textFi: opt(str()), textSv: opt(str()), startDateTime: opt(when()), endDateTime: opt(when()), startTime: opt(str()), eventType: opt(str()), deliveryAt: opt(when()), repetitions: opt(int(0)) }), textEn: str(), deliveryType: str(), endTime: str(), repeatEvery: int(0) },
  call: (i) => processRosmMessage(understood(i, { audio: { ...i.audio, textEn: i.textEn, deliveryType: i.deliveryType, endTime: i.endTime, repeatEvery: i.repeatEvery, daysOfWeek: ["SUNDAY", "TUESDAY"] } })),
  ensures: { audio: (o, r) => { const l = statement(r, "rami_message_audio").map(rowOf), a = o.audio; return r.ok && l.length === 1 && same({ ...l[0].row, delivery_at: null }, { rami_message_id: o.id, rami_message_version: o.version, text_fi: orNull(a.textFi), text_sv: orNull(a.textSv), text_en: o.textEn, delivery_type: o.deliveryType, start_date_time: minute(a.startDateTime), end_date_time: minute(a.endDateTime), start_time: orNull(a.startTime), end_time: o.endTime, days_of_week: "0100001", event_type: orNull(a.eventType), delivery_at: null, repetitions: orNull(a.repetitions), repeat_every: o.repeatEvery }) && (same(l[0].row.delivery_at, orNull(a.deliveryAt)) || l[0].row.delivery_at === minute(a.deliveryAt)); } },
});
export const storedVideo = spec({
  target: ["processRosmMessage", "insertMessage"],
  inputs: { ...parsed, video: obj({ textFi: opt(str()), textSv: opt(str()), textEn: opt(str()), deliveryType: opt(str()), startDateTime: opt(when()), endDateTime: opt(when()), startTime: opt(str()), endTime: opt(str()) }) },
  call: (i) => processRosmMessage(understood(i, { video: i.video })),
  ensures: {
    video: (o, r) => { const l = statement(r, "rami_message_video").map(rowOf), a = o.video; return r.ok && l.length === 1 && same(l[0].row, { rami_message_id: o.id, rami_message_version: o.version, text_fi: orNull(a.textFi), text_sv: orNull(a.textSv), text_en: orNull(a.textEn), delivery_type: orNull(a.deliveryType), start_date_time: minute(a.startDateTime), end_date_time: minute(a.endDateTime), start_time: orNull(a.startTime), end_time: orNull(a.endTime), days_of_week: "0000000" }); },
    silent: (o, r) => { const l = statement(r, "rami_message_audio").map(rowOf); return l.length === 1 && Object.keys(l[0].row).every((k) => l[0].row[k] === (k === "rami_message_id" ? o.id : k === "rami_message_version" ? o.version : k === "days_of_week" ? "0000000" : null)); },
  },
});
export const storedDays = spec({
  target: ["processRosmMessage", "mapDaysToBits"],
  inputs: { ...parsed, operation: lit("INSERT"), days: weekDays(), seen: bool() },
  call: (i) => processRosmMessage(understood(i, i.seen ? { video: { daysOfWeek: i.days }, audio: { daysOfWeek: ["MONDAY"] } } : { audio: { daysOfWeek: i.days }, video: { daysOfWeek: ["MONDAY"] } })),
  ensures: { days: (o, r) => { const a = statement(r, "rami_message_audio").map(rowOf)[0].row.days_of_week, v = statement(r, "rami_message_video").map(rowOf)[0].row.days_of_week; return r.ok && a === (o.seen ? "1000000" : bits(o.days)) && v === (o.seen ? bits(o.days) : "1000000"); } },
});
export const withdrawn = spec({
  target: ["processRosmMessage", "setMessageDeleted"],
  inputs: parsed,
  call: (i) => processRosmMessage(understood({ ...i, operation: "DELETE" }, {})),
  ensures: { withdrawn: (o, r) => r.ok && same(steps(r), ["db.begin", "db.query", "db.commit", "db.release"]) && /^UPDATE rami_message SET deleted = NOW\(\) WHERE id = \?$/.test(recorded(r, "db.query")[0][0]) && same(recorded(r, "db.query")[0][1], [o.id]) },
});
// the queue: every record on its own; what cannot be stored leaves nothing behind, is kept aside and is tried again
const body = (i: any, id: any) => message({ ...i, id, operation: i.operation ?? "INSERT" }, "SCHEDULED_MESSAGE", { scheduledMessage: { deliveryChannels: null, onGroundRecipient: { messageContentType: "AUDIO", deliveryPoints: [{ id: "HKI" }] } } });
const touched = (sql: any, values: any, id: any) => same(values, [id]) || values?.id === id || same(values?.[0]?.[0]?.[0], id);
const queueSpec = (more: any) => ({
  target: ["handlerFn", "processRosmMessage", "inTransaction"],
  inputs: { ...inserted, id: lit("first"), operation: or(lit("INSERT"), lit("DELETE")), broken: or(lit("none"), lit("connect"), lit("begin"), lit("query"), lit("commit")), nth: or(lit(1), lit(2), lit(4)) },
  ...more,
});
export const storing = spec({
  ...queueSpec({}),
  call: async (i) => {
    let n = 0;
    db.fails = (op: any) => op === i.broken && (op !== "query" || ++n === (i.operation === "DELETE" ? 1 : i.nth));
    return await rosmQueue()({ Records: [{ body: JSON.stringify(body(i, "first")) }] } as any);
  },
  ensures: {
    answer: (o, r) => r.ok && r.value.length === 1 && r.value[0].status === (o.broken === "none" ? "fulfilled" : "rejected"),
    whole: (o, r) => { const l = steps(r); return o.broken === "none" ? l.filter((x: any) => x === "db.commit").length === 1 && l.indexOf("db.commit") > l.lastIndexOf("db.query") && !l.includes("db.rollback") : (o.broken === "commit" || !l.includes("db.commit")) && (!l.includes("db.query") || l.includes("db.rollback")); },
    returned: (o, r) => steps(r).filter((x: any) => x === "db.release").length === (o.broken === "connect" ? 0 : 1),
    aside: (o, r) => { const l = recorded(r, "sqs"); return o.broken === "none" ? l.length === 0 : l.length === 1 && l[0][0].QueueUrl === "dlq" && JSON.parse(l[0][0].MessageBody).messageType === "ROSM" && same(JSON.parse(JSON.parse(l[0][0].MessageBody).message), JSON.parse(JSON.stringify(body(o, "first")))); },
  },
});
export const batch = spec({
  target: ["handlerFn"],
  inputs: { ...inserted, id: lit("first"), first: or(lit("fine"), lit("not json"), lit("not a message"), lit("refused")), second: or(lit("fine"), lit("refused")) },
  call: async (i) => {
    db.fails = (_op: any, sql: any, values: any) => values?.id === "refused first" || values?.id === "refused second";
    const text = (k: any, id: any) => (k === "not json" ? "{" : k === "not a message" ? JSON.stringify({ payload: 1 }) : JSON.stringify(body(i, k === "refused" ? `refused ${id}` : id)));
    return await rosmQueue()({ Records: [{ body: text(i.first, "first") }, { body: text(i.second, "second") }] } as any);
  },
  ensures: {
    answer: (o, r) => r.ok && same(r.value.map((x: any) => x.status), [o.first === "not json" || o.first === "refused" ? "rejected" : "fulfilled", o.second === "refused" ? "rejected" : "fulfilled"]),
    stored: (o, r) => same(recorded(r, "db.query").filter((a: any) => a[0].includes("INTO rami_message(")).map((a: any) => a[1].id), [...(o.first === "fine" ? ["first"] : o.first === "refused" ? ["refused first"] : []), o.second === "fine" ? "second" : "refused second"]),
    aside: (o, r) => same(recorded(r, "sqs").map((l: any) => JSON.parse(JSON.parse(l[0].MessageBody).message).payload.messageId), [...(o.first === "refused" ? ["refused first"] : []), ...(o.second === "refused" ? ["refused second"] : [])]),
  },
});
// showing: what the store holds, in the documented form
const text3 = or(lit(null), str({ min: 1 }));
const rules = { start_date: null, end_date: null, start_time: null, end_time: null, days: null, delivery_type: null };
const soundless = { text_fi: null, text_sv: null, text_en: null, delivery_rules: { ...rules, event_type: null, delivery_at: null, repetitions: null, repeat_every: null } };
const pictureless = { text_fi: null, text_sv: null, text_en: null, delivery_rules: rules };
const row = { id: str(), version: int(1), created_source: str(), start_validity: str(), end_validity: str() };
const basic = (o: any) => ({ id: o.id, version: o.version, creationDateTime: o.created_source, startValidity: o.start_validity, endValidity: o.end_validity });
const held = (i: any, more: any) => ({ id: i.id, version: i.version, created_source: i.created_source, start_validity: i.start_validity, end_validity: i.end_validity, train_number: null, train_departure_date: null, stations: "HKI", audio: soundless, video: pictureless, ...more });
const present = (x: any) => Object.fromEntries(Object.entries(x).filter(([, v]) => v !== undefined && v !== null));
const ask = async (rows: any[]) => { db.rows = () => rows; return await getActiveMessages(); };
export const shown = spec({
  target: ["getActiveMessages", "findActiveMessages"],
  inputs: { ...row, train_number: nullable(int(1)), train_departure_date: nullable(str({ min: 1 })), stations: or(lit(null), lit("HKI"), lit("HKI,TPE")), others: bool() },
  call: (i) => ask([...(i.others ? [held({ ...i, id: "other" }, {})] : []), held(i, { train_number: i.train_number, train_departure_date: i.train_departure_date, stations: i.stations })]),
  ensures: {
    shown: (o, r) => r.ok && r.value.length === (o.others ? 2 : 1) && same(present(r.value.at(-1)), present({ ...basic(o), trainNumber: o.train_number, trainDepartureDate: o.train_departure_date, stations: o.stations?.split(",") })),
    rest: (o, r) => !o.others || same(present(r.value[0]), { ...basic(o), id: "other", stations: ["HKI"] }),
  },
});
export const shownAudio = spec({
  target: ["getActiveMessages"],
  inputs: { ...row, text_fi: text3, text_sv: text3, text_en: text3, start: nullable(str({ min: 1 })), event: nullable(str({ min: 1 })), at: nullable(str({ min: 1 })), repetitions: nullable(int(1)) },
  call: (i) => ask([held(i, { audio: { text_fi: i.text_fi, text_sv: i.text_sv, text_en: i.text_en, delivery_rules: { ...soundless.delivery_rules, delivery_type: "REPEAT_EVERY", start_date: i.start, end_date: "2024-01-01T00:00:00Z", start_time: "6:00", end_time: "22:00", days: "1000001", event_type: i.event, delivery_at: i.at, repetitions: i.repetitions, repeat_every: 60 } } })]),
  ensures: {
    texts: (o, r) => r.ok && (o.text_fi === null && o.text_sv === null && o.text_en === null ? r.value[0].audio === undefined : same(present(r.value[0].audio.text), present({ fi: o.text_fi, sv: o.text_sv, en: o.text_en }))),
    rules: (o, r) => r.value[0].audio === undefined || same(present(r.value[0].audio.deliveryRules), present({ startDateTime: o.start, endDateTime: "2024-01-01T00:00:00Z", startTime: "6:00", endTime: "22:00", weekDays: ["MONDAY", "SUNDAY"], deliveryType: "REPEAT_EVERY", deliveryAt: o.at, repetitions: o.repetitions, repeatEvery: 60, eventType: o.event })),
    picture: (o, r) => r.value[0].video === undefined,
  },
});
export const shownVideo = spec({
  target: ["getActiveMessages"],
  inputs: { ...row, text_fi: text3, text_sv: text3, text_en: text3, start: nullable(str({ min: 1 })), end: nullable(str({ min: 1 })), startTime: nullable(str({ min: 1 })), type: nullable(str({ min: 1 })) },
  call: (i) => ask([held(i, { video: { text_fi: i.text_fi, text_sv: i.text_sv, text_en: i.text_en, delivery_rules: { ...rules, delivery_type: i.type, start_date: i.start, end_date: i.end, start_time: i.startTime, end_time: "22:00", days: "0100010" } } })]),
  ensures: {
    texts: (o, r) => r.ok && (o.text_fi === null && o.text_sv === null && o.text_en === null ? r.value[0].video === undefined : same(present(r.value[0].video.text), present({ fi: o.text_fi, sv: o.text_sv, en: o.text_en }))),
    rules: (o, r) => r.value[0].video === undefined || same(present(r.value[0].video.deliveryRules), present({ startDateTime: o.start, endDateTime: o.end, startTime: o.startTime, endTime: "22:00", weekDays: ["TUESDAY", "SATURDAY"], deliveryType: o.type })),
    sound: (o, r) => r.value[0].audio === undefined,
  },
});
const bit = oneOf("0", "1");
export const shownDays = spec({
  target: ["mapBitsToDays", "mapDaysToBits"],
  inputs: { b: tuple(bool(), bool(), bool(), bool(), bool(), bool(), bool()) },
  call: (i) => { const text = i.b.map((x: any) => (x ? "1" : "0")).join("") as any; const days = mapBitsToDays(text); return { text, days, back: mapDaysToBits(days) }; },
  ensures: { days: (o, r) => r.ok && same(r.value.days, DAYS.filter((_, n) => o.b[n])), back: (o, r) => r.value.back === r.value.text },
});
// asking: the conditions reach the store; what cannot be understood is refused
const flag = () => or(lit(undefined), lit(""), lit("true"), lit("false"), lit("yes"));
const meaning = (f: any) => (f === "true" ? true : f === "false" ? false : undefined);
export const askedActive = spec({
  target: ["handler"],
  inputs: { train: or(lit(undefined), lit(""), lit("53"), lit("x"), lit("0")), date: or(lit(undefined), lit(""), lit("2024-01-31"), lit("31.1.2024"), lit("2024-01-31 ")), station: or(lit(undefined), lit(""), lit("HKI"), lit("H")), general: flag() },
  call: async (i) => { db.rows = () => []; return await active({ train_number: i.train, train_departure_date: i.date, station: i.station, only_general: i.general } as any); },
  ensures: {
    refused: (o, r) => r.ok && (r.value.status === 400) === (o.train === "x" || o.train === "0" || o.date === "31.1.2024" || o.date === "2024-01-31 " || o.station === "H" || o.general === "yes") && (r.value.status === 400 ? recorded(r, "db.query").length === 0 : r.value.status === 200),
    asked: (o, r) => r.value.status === 400 || (recorded(r, "db.query").length === 1 && same(recorded(r, "db.query")[0][1], { trainNumber: o.train === "53" ? 53 : null, trainDepartureDate: o.date || null, station: o.station || null, onlyGeneral: orNull(meaning(o.general)) })),
  },
});
export const askedUpdated = spec({
  target: ["handler"],
  inputs: { after: when(), good: bool(), train: or(lit(""), lit("53")), general: or(lit(""), lit("true")), active: flag() },
  call: async (i) => { db.rows = () => []; return await updated({ date: i.good ? i.after.toISOString() : "yesterday", train_number: i.train, train_departure_date: "", station: "", only_general: i.general, only_active: i.active } as any); },
  ensures: {
    refused: (o, r) => r.ok && (r.value.status === 400) === (!o.good || o.active === "yes"),
    asked: (o, r) => r.value.status === 400 ? recorded(r, "db.query").length === 0 : recorded(r, "db.query").length === 1 && same(recorded(r, "db.query")[0][1], { updatedAfter: o.after, trainNumber: o.train === "53" ? 53 : null, trainDepartureDate: null, station: null, onlyGeneral: orNull(meaning(o.general)), onlyActive: meaning(o.active) ?? true }),
  },
});
export const kept = spec({
  target: ["inDatabase", "handler"],
  inputs: { fails: bool(), updated: bool() },
  call: async (i) => { db.rows = () => []; db.fails = (op: any) => i.fails && op === "query"; return await (i.updated ? updated({ date: "2024-01-31" } as any) : active({})); },
  ensures: { returned: (o, r) => r.ok !== o.fails && recorded(r, "db.connect").length === 1 && recorded(r, "db.release").length === 1 },
});
// receiving: what is valid is passed on as it came, what is not is kept aside with the reason
export const received = spec({
  target: ["handler", "validateIncomingRosmMessage", "sendRosmMessage"],
  inputs: { valid: bool(), m: obj({ id: str(), n: int() }), empty: bool(), refused: bool() },
  call: async (i) => { validator.valid = i.valid; queue.answer = () => { if (i.refused) throw new Error("refused"); return {}; }; return await upload(i.empty ? undefined : i.m); },
  ensures: {
    answer: (o, r) => (o.empty ? r.ok && r.value.status === 400 : (r.ok ? !o.refused && r.value.status === 200 : o.refused)),
    passed: (o, r) => { const l = recorded(r, "sqs"); return o.empty ? l.length === 0 : l.length === 1 && l[0][0].QueueUrl === (o.valid ? "rosm" : "dlq") && same(JSON.parse(l[0][0].MessageBody), o.valid ? o.m : { messageType: "ROSM", errors: "what is wrong", message: o.m }); },
  },
});
export const archived = spec({
  target: ["handler", "uploadToS3"],
  inputs: { kind: or(lit("ROSM"), lit("SM")), errors: str(), m: obj({ id: str() }), broken: bool(), fails: or(lit(0), lit(1), lit(2)) },
  call: async (i) => {
    let n = 0;
    aws.answer = () => { if (++n <= i.fails) throw new Error("refused"); return {}; };
    await archive({ Records: [...(i.broken ? [{ body: "{" }] : []), { body: JSON.stringify({ messageType: i.kind, errors: i.errors, message: i.m }) }] });
  },
  ensures: {
    tried: (o, r) => r.ok && recorded(r, "aws.PutObject").length === (o.fails === 0 ? 1 : 2),
    whole: (o, r) => recorded(r, "aws.PutObject").every((a: any) => a[0].Bucket === "bucket" && a[0].Key.startsWith(o.kind + "/" + new Date(now()).toISOString().slice(0, 10) + "/") && same(JSON.parse(a[0].Body), [{ errors: o.errors }, o.m])),
  },
});

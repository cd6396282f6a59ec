// Port call estimates taken from the forecasters, the traffic service and the pilots.
import { spec, str, num, int, bool, opt, or, lit, date, tuple, arr, obj, oneOf, nullable, same, implies, record, now, advance } from "vf";
import { recorded } from "./infra.ts";
import { control as dbs } from "./mocks/pg-promise.ts";
import { AwakeAiATXService } from "repo:marine/portactivity/src/service/awake-ai-atx.ts";
import { AwakeAiATXApi } from "repo:marine/portactivity/src/api/awake-ai-atx.ts";
import { OAuthTokenApi } from "repo:marine/portactivity/src/api/oauth-token-api.ts";
import { handler as portTimes } from "repo:marine/portactivity/src/lambda/update-awake-ai-eta-port-timestamps/update-awake-ai-eta-port-timestamps.ts";
import { control as queue } from "./mocks/sqs.ts";
import { control as secrets } from "./mocks/secrets-manager.ts";
import { SchedulesService } from "repo:marine/portactivity/src/service/schedules.ts";
import { getMessagesFromPilotweb } from "repo:marine/portactivity/src/service/pilotweb.ts";
import { control as store } from "./mocks/ssm.ts";
import { control as remote, HTTPError } from "./mocks/ky.ts";
import { AwakeAiETAShipApi } from "repo:marine/portactivity/src/api/awake-ai-ship.ts";
import { AwakeAiPortApi } from "repo:marine/portactivity/src/api/awake-ai-port.ts";
import { control as web } from "./mocks/https.ts";
import { AwakeAiETAPortService } from "repo:marine/portactivity/src/service/awake-ai-eta-port.ts";
import { AwakeAiETAShipService } from "repo:marine/portactivity/src/service/awake-ai-eta-ship.ts";
import { AwakeAiETDPortService } from "repo:marine/portactivity/src/service/awake-ai-etd-port.ts";
export const baseEnv = { SECRET_ID: "secret", AWS_REGION: "region", SQS_QUEUE_URL: "queue", ENABLE_ETB: "false" };
export const mocks = { "pg-promise": "./mocks/pg-promise.ts", "node:https": "./mocks/https.ts", ky: "./mocks/ky.ts", xml2js: "./mocks/xml2js.ts", "node:url": "./mocks/url.ts", "@aws-sdk/client-secrets-manager": "./mocks/secrets-manager.ts", "@aws-sdk/client-sqs": "./mocks/sqs.ts", "@aws-sdk/client-ssm": "./mocks/ssm.ts" };
const database = { SECRET_ID: lit("secret"), DB_USER: lit("u"), DB_PASS: lit("p"), DB_URI: lit("writer"), AWS_REGION: lit("region"), SQS_QUEUE_URL: lit("queue"), ENABLE_ETB: lit("false") };
const HOUR = 3600000;
const when = () => date({ min: 1600000000000, max: 1900000000000 });
const tokens = { getOAuthToken: async () => ({ access_token: "token" }) } as any;
// forecasts for a port
const prediction = obj({ type: oneOf("eta", "etd", "travel-time"), zone: oneOf("vts", "pbp", "portarea", "berth", "anchorage"), at: when(), recorded: opt(when()), locode: or(lit("FIHEL"), lit("fihel"), lit("SESTO")), source: or(lit(undefined), lit("urn:awake:model"), lit("urn:awake:digitraffic-portcall:5")), low: num(), high: num() });
const raw = (p: any, field: string) => ({ predictionType: p.type, zoneType: p.zone, [field]: p.at.toISOString(), recordTime: p.recorded?.toISOString(), locode: p.locode, metadata: p.source === undefined ? undefined : { source: p.source, errorQuantiles: { q10: p.low, q90: p.high } } });
const schedule = obj({ status: oneOf("underway", "stopped", "not-started"), mmsi: int(1), imo: int(1), p: prediction, call: or(lit(undefined), lit(7)) });
const given = (i: any, field: string) => (i.schedules === undefined ? { type: "SERVER_ERROR" } : { type: "OK", schedule: i.schedules.map((s: any) => ({ ship: { mmsi: s.mmsi, imo: s.imo }, voyage: { voyageStatus: s.status, predictions: [raw(s.p, field), ...(s.call === undefined ? [] : [{ predictionType: "arrival-port-call", portCallUrn: `urn:awake:digitraffic-portcall:${s.call}` }])] } })) });
const used = (s: any, type: string, from: number) => s.status !== "stopped" && s.p.type === type && s.p.zone === "berth" && s.p.source !== "urn:awake:digitraffic-portcall:5" && s.p.locode !== "SESTO" && s.p.at.getTime() >= from;
const made = (s: any, locode: string, kind: string, call: any) => ({ ship: { mmsi: s.mmsi, imo: s.imo }, location: { port: locode, portArea: undefined }, source: "Awake.AI Pred", eventTime: s.p.at.toISOString(), recordTime: s.p.recorded?.toISOString(), portcallId: call, eventType: kind, eventTimeConfidenceLowerDiff: s.p.source === undefined ? undefined : s.p.low, eventTimeConfidenceUpperDiff: s.p.source === undefined ? undefined : s.p.high });
export const arrivals = spec({
  target: ["AwakeAiETAPortService.getAwakeAiTimestamps"],
  inputs: { schedules: or(tuple(schedule), tuple()), locode: str() },
  call: (i) => new AwakeAiETAPortService({ getETAs: async (token: any, locode: any) => { record("asked", token, locode); return given(i, "arrivalTime"); } } as any, tokens).getAwakeAiTimestamps(i.locode),
  ensures: {
    taken: (o, r) => r.ok && same(r.value.map((x: any) => ({ ...x, recordTime: undefined })), o.schedules.filter((s: any) => used(s, "eta", now() + 24 * HOUR)).map((s: any) => ({ ...made(s, o.locode, "ETA", s.call), recordTime: undefined }))),
    recorded: (o, r) => r.value.every((x: any) => o.schedules[0].p.recorded === undefined ? Date.parse(x.recordTime) <= now() : x.recordTime === o.schedules[0].p.recorded.toISOString()),
    asked: (o, r) => same(recorded(r, "asked"), [["token", o.locode]]),
  },
});
export const departures = spec({
  target: ["AwakeAiETDPortService.getAwakeAiTimestamps"],
  inputs: { schedules: or(lit(undefined), tuple(schedule), tuple()), locode: str() },
  call: (i) => new AwakeAiETDPortService({ getETDs: async (token: any, locode: any) => { record("asked", token, locode); return given(i, "departureTime"); } } as any, tokens).getAwakeAiTimestamps(i.locode),
  ensures: {
    taken: (o, r) => r.ok && same(r.value.map((x: any) => ({ ...x, recordTime: undefined })), (o.schedules ?? []).filter((s: any) => used(s, "etd", now())).map((s: any) => ({ ...made(s, o.locode, "ETD", undefined), recordTime: undefined }))),
    recorded: (o, r) => r.value.every((x: any) => o.schedules[0].p.recorded === undefined ? Date.parse(x.recordTime) <= now() : x.recordTime === o.schedules[0].p.recorded.toISOString()),
    asked: (o, r) => same(recorded(r, "asked"), [["token", o.locode]]),
  },
});
// forecasts for a ship
const ship = obj({ imo: int(1), locode: or(lit("FIHEL"), lit("FIRAU"), lit("FIOUL")), port_area_code: opt(str()), portcall_id: int(1), eta: when() });
const forecast = obj({ type: or(lit("eta"), lit("etd")), zone: or(lit("pbp"), lit("berth")), at: when(), locode: or(lit("FIHEL"), lit("FIRAU"), lit("FIOUL"), lit("SESTO")), source: or(lit(undefined), lit("urn:awake:digitraffic-portcall:5")) });
const trip = obj({ predictable: bool(), mmsi: int(1), voyages: or(tuple(), tuple(obj({ status: oneOf("underway", "stopped", "not-started"), predictions: tuple(forecast) }))) });
const ETP = ["FIRAU", "FIKOK", "FIKAS", "FIPOR", "FIUKI", "FIHKO", "FIRAA", "FIKEM", "FIPRS"];
const answer = (t: any) => (t === undefined ? { type: "SHIP_NOT_FOUND" } : { type: "OK", schedule: { ship: { mmsi: t.mmsi, imo: 1 }, predictability: t.predictable ? "predictable" : "not-predictable", predictedVoyages: t.voyages.map((v: any) => ({ voyageStatus: v.status, predictions: v.predictions.map((p: any) => raw({ ...p, recorded: p.at, low: 1, high: 2 }, "arrivalTime")) })) } });
const estimates = (s: any, t: any, all: boolean) => {
  if (t === undefined || !t.predictable || t.voyages.length === 0 || t.voyages[0].status !== "underway") return [];
  const p = t.voyages[0].predictions[0];
  const soon = s.eta.getTime() - now() < 24 * HOUR;
  if (p.type !== "eta" || p.source !== undefined || p.locode === "SESTO") return [];
  if (p.locode !== s.locode && !soon) return [];
  const port = p.locode !== s.locode && s.locode === "FIHEL" ? s.locode : p.locode;
  if (p.zone === "pbp" && !ETP.includes(port)) return [];
  const e = { ship: { mmsi: t.mmsi, imo: s.imo }, location: { port: s.locode, portArea: s.port_area_code }, source: "Awake.AI", eventTime: p.at.toISOString(), recordTime: p.at.toISOString(), portcallId: s.portcall_id, eventType: p.zone === "pbp" ? "ETP" : "ETA" };
  return e.eventType === "ETA" && (all || s.locode === "FIRAU") ? [e, { ...e, eventType: "ETB" }] : [e];
};
export const forShip = spec({
  target: ["AwakeAiETAShipService.getAwakeAiTimestamps"],
  inputs: { s: ship, t: or(lit(undefined), trip), all: bool() },
  call: (i) => new AwakeAiETAShipService({ getETA: async (token: any, imo: any, locode: any) => { record("asked", token, imo, locode); return answer(i.t); } } as any, tokens, i.all).getAwakeAiTimestamps([i.s]),
  ensures: {
    estimates: (o, r) => r.ok && same(r.value.map((x: any) => ({ ship: x.ship, location: x.location, source: x.source, eventTime: x.eventTime, recordTime: x.recordTime, portcallId: x.portcallId, eventType: x.eventType })), estimates(o.s, o.t, o.all)),
    asked: (o, r) => same(recorded(r, "asked"), [["token", o.s.imo, o.s.eta.getTime() - now() < 24 * HOUR ? o.s.locode : undefined]]),
  },
});
const steady = (mmsi: number, at: any) => ({ type: "OK", schedule: { ship: { mmsi, imo: 1 }, predictability: "predictable", predictedVoyages: [{ voyageStatus: "underway", predictions: [{ predictionType: "eta", zoneType: "berth", arrivalTime: at.toISOString(), recordTime: at.toISOString(), locode: "FIOUL" }] }] } });
export const eachShip = spec({
  target: ["AwakeAiETAShipService.getAwakeAiTimestamps"],
  inputs: { at: when(), first: int(0, 3), second: int(0, 3), calls: tuple(int(1), int(1)) },
  call: (i) => {
    const left = [i.first, i.second];
    const ships = [0, 1].map((n) => ({ imo: n, locode: "FIOUL", port_area_code: undefined, portcall_id: i.calls[n], eta: new Date(now()) }));
    return new AwakeAiETAShipService({ getETA: async (token: any, imo: any) => { if (left[imo] > 0) { left[imo] -= 1; throw new Error("unreachable"); } return steady(imo + 10, i.at); } } as any, tokens).getAwakeAiTimestamps(ships as any);
  },
  ensures: {
    others: (o, r) => r.ok && same(r.value.map((x: any) => [x.ship, x.portcallId]), [o.first, o.second].flatMap((f: any, n: number) => (f <= 1 ? [[{ mmsi: n + 10, imo: n }, o.calls[n]]] : []))),
  },
});
// what a forecaster has seen to happen at the berths
const sighting = obj({ zone: or(lit("berth"), lit("anchorage")), kind: or(lit("arrival"), lit("departure")), at: when(), mmsi: int(1), imo: int(1), ports: or(tuple(str()), tuple(str(), str())), call: or(lit(undefined), int(1)) });
const seen = (s: any) => ({ msgType: "event", eventType: "zone-event", eventTimestamp: s.at.toISOString(), mmsi: s.mmsi, imo: s.imo, zoneType: s.zone, zoneEventType: s.kind, locodes: s.ports });
export const sightings = spec({
  target: ["AwakeAiATXService.getATXs"], bounded: "at most two sightings", env: database,
  inputs: { sightings: or(tuple(), tuple(sighting), tuple(sighting, sighting)), wait: int() },
  requires: (i) => i.sightings.length < 2 || i.sightings[0].imo !== i.sightings[1].imo,
  call: (i) => {
    dbs.conns = []; dbs.fails = [];
    dbs.rows = (sql: any) => { if (sql.name !== "find-portcall-id") return null; const s: any = i.sightings.find((x: any) => x.imo === sql.values[1]); return s.call === undefined ? null : { port_call_id: s.call }; };
    return new AwakeAiATXService({ getATXs: async (token: any, wait: any) => { record("asked", token, wait); return i.sightings.map(seen); } } as any, tokens).getATXs(i.wait);
  },
  ensures: {
    known: (o, r) => r.ok && same(r.value, o.sightings.filter((s: any) => s.zone === "berth" && s.call !== undefined).map((s: any) => ({ eventType: s.kind === "arrival" ? "ATA" : "ATD", eventTime: s.at.toISOString(), recordTime: s.at.toISOString(), source: "Awake.AI", ship: { imo: s.imo, mmsi: s.mmsi }, location: { port: s.ports[0] }, portcallId: s.call }))),
    looked: (o, r) => same(recorded(r, "db.oneOrNone").map((x: any) => x[0].values.slice(0, 4)), o.sightings.filter((s: any) => s.zone === "berth").map((s: any) => [s.mmsi, s.imo, s.ports[0], s.kind === "arrival" ? "ATA" : "ATD"])),
    asked: (o, r) => same(recorded(r, "asked"), [["token", o.wait]]),
  },
});
// the traffic service
const PORTS = ["FIOUL", "FIPOR", "FISKV", "FIHKO", "FIRAU", "FIUKI", "FIKOK", "FIMUS", "FIHEL", "FIKJO", "FIEJO", "FITOR", "FILPP", "FIVRK", "FIJOE", "FIVAA", "FIRAA", "FIPRS", "FIKAS", "FINLI", "FIKTK", "FITRY", "FIKUO", "FITKU", "FIKEM", "FIMHQ", "FILAN", "FIINK", "FILOV"];
const times = obj({ at: when(), made: str() });
const plan = obj({ to: or(lit("FIRAU"), lit("FILOV"), lit("SESTO"), lit(undefined)), mmsi: int(1), imo: int(1), eta: opt(times), etd: opt(times) });
const written = (t: any) => (t === undefined ? undefined : [{ $: { time: t.at.toISOString(), uts: t.made } }]);
const planned = (list: any) => ({ schedules: { schedule: list.map((p: any) => ({ $: { UUID: "id" }, timetable: p.to === undefined ? [{}] : [{ destination: [{ $: { locode: p.to } }], eta: written(p.eta), etd: written(p.etd) }], vessel: [{ $: { vesselName: "ship", callsign: "call", mmsi: `${p.mmsi}`, imo: `${p.imo}` } }] })) } });
const given2 = (p: any, calculated: boolean, all: boolean) => {
  if (p.to === undefined || !PORTS.includes(p.to)) return [];
  const one = (t: any, kind: string) => ({ location: { port: p.to }, eventType: kind, eventTime: t.at.toISOString(), recordTime: t.made, source: calculated ? "SCHEDULES_CALCULATED" : "SCHEDULES_VTS_CONTROLLED", ship: { mmsi: p.mmsi, imo: p.imo } });
  return [...(p.eta === undefined ? [] : [one(p.eta, "ETA")]), ...(p.eta !== undefined && calculated && (all || p.to === "FIRAU") ? [one(p.eta, "ETB")] : []), ...(p.etd !== undefined && p.etd.at.getTime() >= now() - 300000 ? [one(p.etd, "ETD")] : [])];
};
export const traffic = spec({
  target: ["SchedulesService.getTimestampsUnderVtsControl", "SchedulesService.getCalculatedTimestamps"],
  inputs: { east: tuple(plan), west: or(tuple(), lit("same")), calculated: bool(), all: bool() },
  call: (i) => {
    const service = new SchedulesService({ getSchedulesTimestamps: async (way: any, calculated: any) => { record("asked", way, calculated); return planned(way === "east" || i.west === "same" ? i.east : i.west); } } as any, i.all);
    return i.calculated ? service.getCalculatedTimestamps() : service.getTimestampsUnderVtsControl();
  },
  ensures: {
    given: (o, r) => r.ok && same(r.value, [...o.east, ...(o.west === "same" ? o.east : o.west)].flatMap((p: any) => given2(p, o.calculated, o.all))),
    asked: (o, r) => same(recorded(r, "asked"), [["east", o.calculated], ["west", o.calculated]]),
  },
});
// what the forecaster sends while it is listened to
const word = or(obj({ msgType: lit("event"), mmsi: int(1) }), obj({ msgType: lit("subscription-status"), status: or(lit("active"), lit("failed")), subscriptionId: or(lit(undefined), str({ min: 1 })) }), obj({ msgType: lit("other") }));
export const listening = spec({
  target: ["AwakeAiATXApi.getATXs"], bounded: "at most two messages",
  inputs: { stored: or(lit(undefined), lit("NONE"), str({ min: 1, max: 3 })), words: or(tuple(), tuple(word), tuple(word, word)), wait: int(1, 60000), broken: bool(), deaf: or(lit("get"), lit("put"), lit("none")) },
  call: (i) => {
    store.stored = i.stored; store.fails = [i.deaf];
    class Socket {
      on: any; handlers: any = {};
      constructor(url: any, options: any) { record("socket", url, options); this.on = (name: any, f: any) => { this.handlers[name] = f; if (name === "error") { this.handlers.open(); for (const w of i.words) this.handlers.message(JSON.stringify(w)); if (i.broken) f(new Error("broken")); } }; }
      send(x: any) { record("said", JSON.parse(x)); }
      close() { record("closed"); }
    }
    return new AwakeAiATXApi("wss://server", Socket as any).getATXs("token", i.wait);
  },
  ensures: {
    events: (o, r) => (o.broken ? !r.ok : r.ok && same(r.value, o.words.filter((w: any) => w.msgType === "event"))),
    closed: (o, r) => recorded(r, "closed").length >= 1 || o.broken,
    opened: (o, r) => same(recorded(r, "socket"), [["wss://server", { headers: { Authorization: "Bearer token" } }]]),
    resumed: (o, r) => same(recorded(r, "said"), [[o.deaf === "get" || o.stored === undefined || o.stored === "NONE" ? { msgType: "subscribe", parameters: [{ eventType: "zone-event", countries: ["FI"] }] } : { msgType: "subscribe", resume: o.stored }]]),
    remembered: (o, r) => { const held = o.deaf === "get" || o.stored === "NONE" ? undefined : o.stored; return same(recorded(r, "ssm.put").map((x: any) => x[0].Value), o.words.filter((w: any) => w.msgType === "subscription-status" && (w.status === "failed" || (w.subscriptionId !== undefined && w.subscriptionId !== held))).map((w: any) => (w.status === "failed" ? "NONE" : w.subscriptionId))); },
    sameParameter: (_o, r) => [...recorded(r, "ssm.put"), ...recorded(r, "ssm.get")].every((x: any) => x[0].Name === recorded(r, "ssm.get")[0][0].Name),
  },
});
// an answer of the forecaster over HTTP
const reply = or(lit("answer"), obj({ status: or(lit(404), lit(422), lit(500), lit(503), lit(undefined)) }), lit("unreachable"));
const answered = (i: any) => (url: any) => ({ json: async () => { if (i.reply === "unreachable") throw new Error("unreachable"); if (i.reply === "answer") return "answer"; throw new HTTPError(i.reply.status === undefined ? undefined : { status: i.reply.status }); } });
const outcome = (o: any, r: any) => (o.reply === "unreachable" ? !r.ok : o.reply === "answer" ? r.ok && same(r.value, { type: "OK", schedule: "answer" }) : r.ok && r.value.schedule === undefined && r.value.type !== "OK");
const headers = { headers: { Authorization: "Bearer token", Accept: "application/json" }, retry: 0 };
export const askedShip = spec({
  target: ["AwakeAiETAShipApi.getETA"], inputs: { reply, imo: int(1), locode: opt(str({ min: 1 })) },
  call: (i) => { remote.answer = answered(i); return new AwakeAiETAShipApi("https://server").getETA("token", i.imo, i.locode); },
  ensures: { outcome: (o, r) => outcome(o, r), asked: (o, r) => same(recorded(r, "http.get"), [[`https://server/ship/${o.imo}?predictionMetadata=true` + (o.locode === undefined ? "" : `&destination=${o.locode}`), headers]]) },
});
export const askedPort = spec({
  target: ["AwakeAiPortApi.getETAs", "AwakeAiPortApi.getETDs"], inputs: { reply, locode: str({ min: 1 }), leaving: bool() },
  call: (i) => { remote.answer = answered(i); const api = new AwakeAiPortApi("https://server"); return i.leaving ? api.getETDs("token", i.locode) : api.getETAs("token", i.locode); },
  ensures: { outcome: (o, r) => outcome(o, r), asked: (o, r) => { const [url, options] = recorded(r, "http.get")[0] as any; return recorded(r, "http.get").length === 1 && same(options, headers) && url.startsWith(`https://server/port/${o.locode}/${o.leaving ? "departures" : "arrivals"}?`) && url.includes(`predictionType=${o.leaving ? "etd" : "eta"}`); } },
});
// the pilots
const STATES: any = { ESTIMATE: "RPS", NOTICE: "RPS", ORDER: "PPS", ACTIVE: "APS", FINISHED: "APC" };
const code = or(lit("FIHEL"), lit("FILPP"));
const portnet: any = { FIHEL: "FIHEL", FIKOY: "FIKOK", FILPP: "FINUI" };
const pilotage = obj({ id: int(1), state: or(lit("ESTIMATE"), lit("NOTICE"), lit("ORDER"), lit("ACTIVE"), lit("FINISHED"), lit("CANCELLED")), eta: when(), boarding: opt(when()), end: when(), updated: when(), from: code, to: code, call: or(lit(undefined), int(1)), here: or(lit(undefined), int(1)), there: or(lit(undefined), int(1)) });
const sent = (p: any) => ({ id: p.id, state: p.state, vessel: { name: "ship", mmsi: 5, imo: p.id }, route: { start: { code: p.from }, end: { code: p.to, berth: { code: "A" } } }, vesselEta: p.eta.toISOString(), pilotBoardingTime: p.boarding?.toISOString(), endTime: p.end.toISOString(), scheduleSource: "pilot", scheduleUpdated: p.updated.toISOString(), portnetPortCallId: p.call });
const later = (p: any) => (p.boarding !== undefined && p.boarding.getTime() > p.eta.getTime() ? p.boarding : p.eta);
const moment = (p: any) => (STATES[p.state] === "APS" ? p.eta : STATES[p.state] === "APC" ? p.end : later(p)).toISOString();
const callOf2 = (p: any) => p.call ?? (portnet[p.from] === portnet[p.to] ? p.here ?? p.there : p.here !== undefined && p.there !== undefined ? p.there : p.here ?? p.there);
const same2 = (p: any) => portnet[p.from] === portnet[p.to];
const estimate = (p: any) => (STATES[p.state] === undefined || callOf2(p) === undefined ? [] : [{ eventType: STATES[p.state], eventTime: moment(p), recordTime: p.updated.toISOString(), source: "Pilotweb", sourceId: `${p.id}`, ship: { mmsi: 5, imo: p.id }, location: { port: portnet[p.to], from: portnet[p.from], berth: "A" }, portcallId: callOf2(p) }]);
const piloting = (over: any): any => ({
  target: ["getMessagesFromPilotweb"], env: database,
  inputs: { pilotages: tuple(pilotage), known: or(tuple(), tuple(obj({ id: int(1), at: when() })), tuple(obj({ id: int(1), at: when() }), obj({ id: int(1), at: when() }))), ...over },
  requires: (i) => i.pilotages.every((p: any) => !same2(p) || p.here === p.there) && i.known.every((a: any, n: number) => i.known.every((b: any, m: number) => n === m || a.id !== b.id)),
  call: (i) => {
    web.pieces = () => [JSON.stringify(i.pilotages.map(sent))];
    dbs.conns = []; dbs.fails = [];
    dbs.rows = (sql: any, values: any) => {
      if (sql.name === "get-active-pilotage-timestamps") return i.known.map((k: any) => ({ id: k.id, schedule_updated: k.at }));
      if (typeof sql === "string" && sql.includes("SELECT pc.port_call_id")) { const p: any = i.pilotages[0]; const call = values[2] === portnet[p.to] ? p.here : p.there; return call === undefined ? null : { port_call_id: call }; }
      return [];
    };
    return getMessagesFromPilotweb("host", "auth");
  },
  ensures: {
    times: (o, r) => r.ok && same(r.value, fresh(o).flatMap(estimate)),
    saved: (o, r) => same(recorded(r, "db.none").filter((x: any) => x[0].includes("insert into pilotage")).map((x: any) => [x[1].id, x[1].state, x[1].scheduleUpdated]), fresh(o).map((p: any) => [p.id, p.state, p.updated.toISOString()])),
    gone: (o, r) => { const gone = o.known.filter((k: any) => o.pilotages.every((p: any) => p.id !== k.id)).map((k: any) => k.id); const told = recorded(r, "db.manyOrNone").filter((x: any) => typeof x[0] === "string" && x[0].includes("delete from pilotage")); return gone.length === 0 ? told.length === 0 : told.length === 1 && same(told[0][1], [gone]); },
    withdrawn: (o, r) => { const gone = o.known.filter((k: any) => o.pilotages.every((p: any) => p.id !== k.id)).map((k: any) => `${k.id}`); return same(recorded(r, "db.manyOrNone").filter((x: any) => Array.isArray(x[1]) && x[1][0] === "Pilotweb").map((x: any) => x[1]), gone.length === 0 ? [] : [["Pilotweb", gone]]); },
    asked: (_o, r) => same(recorded(r, "https").map((x: any) => [x[0].host, x[0].path, x[0].headers.Authorization]), [["host", "/digitraffic/pilotages/active", "Basic auth"]]),
  },
});
const fresh = (o: any) => o.pilotages.filter((p: any) => { const k = o.known.find((x: any) => x.id === p.id); return k === undefined ? p.state !== "FINISHED" : k.at.getTime() !== p.updated.getTime(); });
export const pilots = spec({ ...piloting({}) });
// the token of the forecaster: asked again only when the one at hand is about to expire
const token = obj({ access_token: or(lit(undefined), str({ min: 1 })), expires_in: int(1, 100000), token_type: lit("bearer") });
export const tokenKept = spec({
  target: ["OAuthTokenApi.getOAuthToken", "OAuthTokenResponse.isActive", "OAuthTokenResponse.createFromAuthResponse"],
  inputs: { first: token, second: token, gap: int(0, 200000000), reached: bool() },
  call: async (i) => {
    let n = 0;
    remote.answer = () => { n += 1; if (n === 2 && !i.reached) throw new Error("unreachable"); const t = n === 1 ? i.first : i.second; return { json: async () => t, then: (f: any) => Promise.resolve({ json: async () => t }).then(f) }; };
    const api = new OAuthTokenApi({ oAuthTokenEndpoint: "https://token", oAuthClientId: "id", oAuthClientSecret: "secret" } as any);
    const a = (await api.getOAuthToken()).access_token;
    advance(i.gap);
    return [a, (await api.getOAuthToken()).access_token];
  },
  ensures: {
    kept: (o, r) => { const live = o.gap < Math.max(0, o.first.expires_in * 1000 - 180000); return o.first.access_token === undefined ? !r.ok && recorded(r, "http.post").length === 1 : live ? r.ok && same(r.value, [o.first.access_token, o.first.access_token]) && recorded(r, "http.post").length === 1 : recorded(r, "http.post").length === 2 && (o.reached && o.second.access_token !== undefined ? r.ok && same(r.value, [o.first.access_token, o.second.access_token]) : !r.ok); },
    asked: (_o, r) => recorded(r, "http.post").every((x: any) => same(x, ["https://token", { headers: { "Content-Type": "application/x-www-form-urlencoded" }, body: "client_id=id&client_secret=secret&grant_type=client_credentials" }])),
  },
});
// from the notice to the queue
export const handedOver = spec({
  target: ["handler", "sendMessage"], history: true, bounded: "at most two ships", env: database,
  inputs: { ships: or(tuple(), tuple(obj({ mmsi: int(1), lost: bool() })), tuple(obj({ mmsi: int(1), lost: bool() }), obj({ mmsi: int(1), lost: bool() }))), locode: str({ min: 1 }) },
  call: (i) => {
    secrets.calls = 0; secrets.answer = () => ({ SecretString: JSON.stringify({ username: "user", password: "password", host: "writer", ro_host: "reader", awake: 1, "awake.voyagesurl": "https://server", "awake.oAuthTokenEndpoint": "https://token", "awake.oAuthClientId": "id", "awake.oAuthClientSecret": "secret" }) });
    const at = new Date(now() + 30 * HOUR).toISOString();
    const list = i.ships.map((s: any) => ({ ship: { mmsi: s.mmsi, imo: 1 }, voyage: { voyageStatus: "underway", predictions: [{ predictionType: "eta", zoneType: "berth", arrivalTime: at, recordTime: at, locode: "FIHEL" }] } }));
    remote.answer = (url: any) => { const t = url === "https://token" ? { access_token: "token", expires_in: 1000, token_type: "bearer" } : list; return url === "https://token" ? { json: async () => t, then: (f: any) => Promise.resolve({ json: async () => t }).then(f) } : { json: async () => t }; };
    let n = 0;
    queue.answer = () => { const s: any = i.ships[n]; n += 1; if (s.lost) throw new Error("queue is full"); };
    return portTimes({ Records: [{ Sns: { Message: i.locode } }] } as any);
  },
  ensures: {
    all: (o, r) => r.ok && same(recorded(r, "sqs").map((x: any) => [x[0].QueueUrl, JSON.parse(x[0].MessageBody).ship.mmsi, JSON.parse(x[0].MessageBody).location.port]), o.ships.map((s: any) => ["queue", s.mmsi, o.locode])),
  },
});
// moments written in other time zones
const written2 = or(lit("2030-01-01T12:30:00+02:00"), lit("2030-01-01T10:45:00Z"), lit("2030-01-01T11:30:00.000Z"), lit("2030-01-01T08:40:00-02:00"));
export const zones = spec({
  target: ["getMessagesFromPilotweb"], env: database, bounded: "four moments of one day",
  inputs: { eta: written2, boarding: or(lit(undefined), written2), state: or(lit("NOTICE"), lit("ORDER")) },
  call: (i) => {
    web.pieces = () => [JSON.stringify([{ ...sent({ id: 1, state: i.state, eta: new Date(0), end: new Date(0), updated: new Date(0), from: "FIHEL", to: "FIHEL", call: 7 }), vesselEta: i.eta, pilotBoardingTime: i.boarding }])];
    dbs.conns = []; dbs.fails = []; dbs.rows = () => [];
    return getMessagesFromPilotweb("host", "auth");
  },
  ensures: { later: (o, r) => r.ok && r.value.length === 1 && Date.parse(r.value[0]!.eventTime) === Math.max(Date.parse(o.eta), o.boarding === undefined ? 0 : Date.parse(o.boarding)) },
});

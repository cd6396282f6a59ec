# bugs in the applications for distributions and port calls
B = """import { createRequire } from 'node:module';
const need = createRequire(process.cwd() + '/lib/digitraffic-common/package.json');
const { buildSync } = createRequire('/opt/veriftools/node/package.json')('esbuild');
import { join } from 'node:path';
const load = (contents, stubs = {}) => {
  const lib = join(process.cwd(), 'lib/digitraffic-common');
  const r = buildSync({ stdin: { contents, resolveDir: process.cwd(), loader: 'ts' }, bundle: true, write: false, platform: 'node', format: 'cjs', logLevel: 'silent', alias: { '@digitraffic/common/dist': lib + '/dist' }, nodePaths: [lib + '/node_modules'], external: ['aws-cdk-lib', 'aws-cdk-lib/*', 'constructs', 'pg-native', ...Object.keys(stubs)] });
  const m = { exports: {} };
  new Function('require', 'module', 'exports', '__filename', '__dirname', r.outputFiles[0].text)((n) => stubs[n] ?? need(n), m, m.exports, 'x', '.');
  return m.exports;
};
process.env.AWS_REGION = 'r'; process.env.SECRET_ID = 's'; process.env.LOG_LEVEL = 'error';
const P = './marine/portactivity/src/', C = './other/cloudfront/src/';
const quiet = () => { process.stdout.write = () => true; console.log = console.info = console.warn = console.error = () => {}; }; quiet();
"""
PA = "marine/portactivity/src/"
CF = "other/cloudfront/src/"
PILOT = """const { EventEmitter } = need('node:events');
let sent = []; const https = { request: (o, f) => ({ end: () => { const e = new EventEmitter(); f(e); e.emit('data', JSON.stringify(sent)); e.emit('end'); } }) };
const asked = []; let known = [];
const db = { manyOrNone: async (q, v) => { asked.push([q.name ?? q, v]); return q.name === 'get-active-pilotage-timestamps' ? known : []; }, none: async (q, v) => { asked.push([q, v]); }, oneOrNone: async () => null, tx: async (f) => f(db), $pool: { end() {} } };
"""
bugs = [
 dict(id="d27-cache-joined", property="P27",
  edits=[(CF+"util/cachepolicy-factory.ts", "`${ttl}_${JSON.stringify(headers)}_${JSON.stringify(keys)}`", "`${ttl}_${headers.join()}_${keys.join()}`")],
  demo=B+"""const { CachePolicyFactory } = load(`export * from '${C}util/cachepolicy-factory.ts'`); const { App, Stack } = need('aws-cdk-lib');
const f = new CachePolicyFactory(new Stack(new App(), 'S'));
process.exit(f.getCachePolicy(60, [], ['a', 'b']) !== f.getCachePolicy(60, [], ['a,b']) && f.getCachePolicy(60, ['x'], []) === f.getCachePolicy(60, ['x'], []) ? 0 : 1);
""", needs="a query key whose name has a comma, and two keys that are its halves", breaks="two different cache settings share a policy"),
 dict(id="d27-response-twice", property="P27",
  edits=[(CF+"distribution/behavior.ts", "        this.lambdaConfig.functions.has(FunctionEventType.VIEWER_RESPONSE))", "        this.lambdaConfig.functions.has(FunctionEventType.VIEWER_REQUEST))")],
  demo=B+"""const { Behavior } = load(`export * from '${C}distribution/behavior.ts'`);
let refused = false; try { Behavior.nginxPlain('a', 'h').withHttpHeadersFunction().withHttpHeadersLambda(); } catch { refused = true; }
let both = true; try { Behavior.nginxPlain('a', 'h').withIndexHtmlFunction().withHttpHeadersLambda(); } catch { both = false; }
process.exit(refused && both ? 0 : 1);
""", needs="a function and then a lambda at the response of one path", breaks="two programs run at the same event"),
 dict(id="d27-query-limit", property="P27",
  edits=[(CF+"acl/waf-rules.ts", "(perIpAndQueryWithoutHeader ?? minimumLimit) < minimumLimit ||", "(perIpAndQueryWithoutHeader || minimumLimit) < minimumLimit ||")],
  demo=B+"""const { WafRules } = load(`export * from '${C}acl/waf-rules.ts'`);
let refused = 0; for (const f of [() => WafRules.per5min(100, 100, 100, 0), () => WafRules.per5min(100, 100, 100, 49)]) try { f(); } catch { refused++; }
process.exit(refused === 2 && WafRules.per5min(50, 50, 50, 50) ? 0 : 1);
""", needs="the limit 0 for one address and query", breaks="a limit below the minimum is taken"),
 dict(id="d28-running-mean", property="P28",
  edits=[(PA+"event-sourceutil.ts", "    dates.reduce((acc, curr) => acc + curr.valueOf(), 0) / dates.length;", "    dates.map((date) => date.valueOf()).reduce((acc, curr) => (acc + curr) / 2);")],
  demo=B+"""const { mergeTimestamps } = load(`export * from '${P}event-sourceutil.ts'`);
const now = Date.now(), t = (source, min) => ({ source, eventType: 'ETA', eventTime: new Date(now + min * 60000).toISOString(), recordTime: new Date(now).toISOString(), ship: { imo: 1 }, location: { port: 'FIHEL' }, portcallId: 1 });
const r = mergeTimestamps([t('Awake.AI', 0), t('Awake.AI', 30), t('SCHEDULES_CALCULATED', 30)]);
process.exit(r.length === 1 && Date.parse(r[0].eventTime) === now + 20 * 60000 ? 0 : 1);
""", needs="three estimates of one port call from the traffic service and the forecaster", breaks="the combined time is not their mean"),
 dict(id="d28-either-way", property="P28",
  edits=[(PA+"event-sourceutil.ts", "  return diffMinutes >= maxDiffMinutes;", "  return Math.abs(diffMinutes) >= maxDiffMinutes;")],
  demo=B+"""const { mergeTimestamps } = load(`export * from '${P}event-sourceutil.ts'`);
const now = Date.now(), t = (source, min) => ({ source, eventType: 'ETA', eventTime: new Date(now + min * 60000).toISOString(), recordTime: new Date(now).toISOString(), ship: { imo: 1 }, location: { port: 'FIHEL' }, portcallId: 1 });
const r = mergeTimestamps([t('Awake.AI', 90), t('SCHEDULES_CALCULATED', 10)]);
process.exit(r.length === 1 && Date.parse(r[0].eventTime) === now + 50 * 60000 ? 0 : 1);
""", needs="a calculated time more than an hour earlier than the forecaster's", breaks="the calculated time no longer counts"),
 dict(id="d28-same-type", property="P28",
  edits=[(PA+"event-sourceutil.ts", "    potentialDuplicate.eventType === timestamp.eventType &&\n", "")],
  demo=B+"""const { mergeTimestamps } = load(`export * from '${P}event-sourceutil.ts'`);
const t = (eventType, portcallId) => ({ source: 'Awake.AI Pred', eventType, eventTime: '2030-01-01T00:00:00.000Z', recordTime: '2029-12-31T00:00:00.000Z', ship: { imo: 1 }, location: { port: 'FIHEL' }, portcallId });
process.exit(mergeTimestamps([t('ETA', undefined), t('ETD', 1)]).length === 2 && mergeTimestamps([t('ETA', undefined), t('ETA', 1)]).length === 1 ? 0 : 1);
""", needs="two predictions of different kinds at the very same time, one without a port call", breaks="the one without port call is hidden"),
 dict(id="d29-first-moved", property="P29",
  edits=[(PA+"service/timestamps.ts", "      for (const e of timestampsAnotherLocode) {", "      for (const e of timestampsAnotherLocode.slice(0, 1)) {")],
  demo=B+"""const { saveTimestamp } = load(`export * from '${P}service/timestamps.ts'`); const gone = [];
const db = { oneOrNone: async () => ({ ship_imo: 1 }), manyOrNone: async () => [{ id: 1, locode: 'FIA' }, { id: 2, locode: 'FIB' }], none: async (q, v) => { gone.push(...(v ?? q.values)); }, tx: (f) => f(db) };
await saveTimestamp({ source: 'Portnet', portcallId: 5, eventType: 'ETA', eventTime: '2030-01-01T00:00:00Z', recordTime: '2030-01-01T00:00:00Z', ship: { imo: 1, mmsi: 2 }, location: { port: 'FIHEL' } }, db);
process.exit(JSON.stringify(gone) === '[1,2]' ? 0 : 1);
""", needs="a port call moved for the second time, with times left in two ports", breaks="times of the port call stay in another port"),
 dict(id="d29-known-imo", property="P29",
  edits=[(PA+"service/timestamps.ts", "      timestamp.ship.imo ??\n      (await TimestampsDB.findImoByMmsi(db, timestamp.ship.mmsi));", "      (await TimestampsDB.findImoByMmsi(db, timestamp.ship.mmsi)) ??\n      timestamp.ship.imo;")],
  demo=B+"""const { saveTimestamp } = load(`export * from '${P}service/timestamps.ts'`); let v;
const db = { oneOrNone: async (q, x) => { if (q.name) { v = x ?? q.values; return { ship_imo: 1 }; } return { imo: 77, mmsi: 88 }; }, manyOrNone: async () => [], none: async () => {}, tx: (f) => f(db) };
await saveTimestamp({ source: 'Portnet', portcallId: 5, eventType: 'ETA', eventTime: '2030-01-01T00:00:00Z', recordTime: '2030-01-01T00:00:00Z', ship: { imo: 11, mmsi: 22 }, location: { port: 'FIHEL' } }, db);
process.exit(v.includes(11) && v.includes(22) ? 0 : 1);
""", needs="a message whose ship number differs from the one last seen with its radio number", breaks="the time is stored for another ship"),
 dict(id="d30-ceil-hours", property="P30",
  edits=[(PA+"service/awake-ai-eta-ship.ts", 'roundingMethod: "floor"', 'roundingMethod: "ceil"')],
  demo=B+"""const { AwakeAiETAShipService: S } = load(`export * from '${P}service/awake-ai-eta-ship.ts'`, { ky: { default: {}, HTTPError: class extends Error {} } }); const asked = [];
await new S({ getETA: async (t, i, l) => { asked.push(l); return { type: 'x' }; } }, { getOAuthToken: async () => ({}) }).getAwakeAiTimestamps([23.5, 24.5].map((h) => ({ imo: 1, locode: 'FIHEL', portcall_id: 1, eta: new Date(Date.now() + h * 3600000) })));
process.exit(asked[0] === 'FIHEL' && asked[1] === undefined ? 0 : 1);
""", needs="a ship between 23 and 24 hours away", breaks="its port is not named and its forecast is dropped"),
 dict(id="d30-text-order", property="P30",
  edits=[(PA+"service/pilotweb.ts", "    if (date2.getTime() > date1.getTime()) {", "    if (date2string > date1string) {")],
  demo=B+PILOT+"""const { getMessagesFromPilotweb } = load(`export * from '${P}service/pilotweb.ts'`.replace("from", "from"), { 'node:https': https, 'pg-promise': Object.assign(() => { const f = () => db; f.pg = { types: { builtins: {}, setTypeParser() {} } }; return f; }, { PreparedStatement: class { constructor(o) { Object.assign(this, o); } } }) });
process.env.DB_USER = process.env.DB_PASS = process.env.DB_URI = 'x';
sent = [{ id: 1, state: 'ORDER', vessel: { name: 'v', mmsi: 1, imo: 2 }, route: { start: { code: 'FIHEL' }, end: { code: 'FIHEL' } }, vesselEta: '2030-01-01T12:30:00+02:00', pilotBoardingTime: '2030-01-01T11:00:00Z', endTime: '2030-01-01T13:00:00Z', scheduleUpdated: '2029-12-31T00:00:00Z', portnetPortCallId: 5 }];
const r = await getMessagesFromPilotweb('h', 'a');
process.exit(r.length === 1 && r[0].eventTime === '2030-01-01T11:00:00.000Z' ? 0 : 1);
""", needs="an arrival and a boarding time written in different time zones", breaks="the earlier of the two is taken"),
 dict(id="d30-finished-gone", property="P30",
  edits=[(PA+"service/pilotweb.ts", "new Set<number>(pilotages.map((p) => p.id));", 'new Set<number>(\n    pilotages.filter((p) => p.state !== "FINISHED").map((p) => p.id),\n  );')],
  demo=B+PILOT+"""const { getMessagesFromPilotweb } = load(`export * from '${P}service/pilotweb.ts'`, { 'node:https': https, 'pg-promise': Object.assign(() => { const f = () => db; f.pg = { types: { builtins: {}, setTypeParser() {} } }; return f; }, { PreparedStatement: class { constructor(o) { Object.assign(this, o); } } }) });
process.env.DB_USER = process.env.DB_PASS = process.env.DB_URI = 'x';
known = [{ id: 1, schedule_updated: new Date('2029-12-31T00:00:00Z') }];
sent = [{ id: 1, state: 'FINISHED', vessel: { name: 'v', mmsi: 1, imo: 2 }, route: { start: { code: 'FIHEL' }, end: { code: 'FIHEL' } }, vesselEta: '2030-01-01T12:30:00Z', endTime: '2030-01-01T13:00:00Z', scheduleUpdated: '2030-01-01T00:00:00Z', portnetPortCallId: 5 }];
const r = await getMessagesFromPilotweb('h', 'a');
process.exit(r.length === 1 && r[0].eventType === 'APC' && !asked.some((x) => String(x[0]).includes('delete')) ? 0 : 1);
""", needs="a known pilotage that is reported as finished", breaks="the pilotage and its times are removed"),
 dict(id="d30-short-token", property="P30",
  edits=[(PA+"api/oauth-token-api.ts", "    const expiresInMs = Math.max(\n      0,\n", "    const expiresInMs = Math.max(\n      O_AUTH_EXPIRATION_SAFETY_DELTA_IN_MS,\n")],
  demo=B+"""const { OAuthTokenResponse: T } = load(`export * from '${P}api/oauth-token-api.ts'`, { ky: { default: {}, HTTPError: class extends Error {} } });
const t = new T('bearer', 60, 'x'), l = new T('bearer', 3600, 'x'); const real = Date.now; Date.now = () => real() + 100000;
process.exit(!t.isActive() && l.isActive() ? 0 : 1);
""", needs="a token that lives for less than six minutes", breaks="the token is used after it has expired"),
 dict(id="d30-other-subscription", property="P30",
  edits=[(PA+"api/awake-ai-atx.ts", "            receivedSubscriptionId &&\n            receivedSubscriptionId !== subscriptionId\n", "            receivedSubscriptionId &&\n            subscriptionId === undefined\n")],
  demo=B+"""const put = []; const ssm = { GetParameterCommand: class { constructor(x) { this.g = x; } }, PutParameterCommand: class { constructor(x) { this.p = x; } }, SSMClient: class { async send(c) { if (c.p) put.push(c.p.Value); return { Parameter: { Value: 'old' } }; } } };
const { AwakeAiATXApi } = load(`export * from '${P}api/awake-ai-atx.ts'`, { '@aws-sdk/client-ssm': ssm });
class WS { on(n, f) { this[n] = f; if (n === 'error') { this.open(); this.message(JSON.stringify({ msgType: 'subscription-status', status: 'active', subscriptionId: 'new' })); } } send() {} close() {} }
await new AwakeAiATXApi('u', WS).getATXs('t', 5);
process.exit(JSON.stringify(put) === '["new"]' ? 0 : 1);
""", needs="a resumed subscription that comes back under another name", breaks="the new name is not remembered"),
]

# bugs in the rail application
B = """import { createRequire } from 'node:module';
const need = createRequire(process.cwd() + '/lib/digitraffic-common/package.json');
const { build } = createRequire('/opt/veriftools/node/package.json')('esbuild');
import { join } from 'node:path';
const log = [], state = { rows: () => [], fails: () => false };
const conn = { run: async (op, sql, v) => { log.push([op, sql, v]); if (state.fails(op, sql, v)) throw new Error('failed'); return [state.rows(sql, v), []]; }, query: (s, v) => conn.run('query', s, v), execute: (s, v) => conn.run('execute', s, v) };
globalThis.__db = { inTransaction: async (f) => { try { await f(conn); log.push(['commit']); } catch (e) { log.push(['rollback']); throw e; } }, inDatabase: async (f) => f(conn) };
const sent = [];
const stubs = { '@aws-sdk/client-sqs': { SQSClient: class { async send(c) { sent.push(c.i); } }, SendMessageCommand: class { constructor(i) { this.i = i; } } }, '@middy/core': (f) => ({ use: () => f }), '@middy/sqs-partial-batch-failure': () => ({}) };
const load = async (contents) => {
  const lib = join(process.cwd(), 'lib/digitraffic-common');
  const plugin = { name: 'p', setup(b) { b.onResolve({ filter: /util\\/database\\.js$/ }, () => ({ path: 'db', namespace: 'db' })); b.onLoad({ filter: /.*/, namespace: 'db' }, () => ({ contents: 'module.exports = globalThis.__db;', loader: 'js' })); } };
  const r = await build({ stdin: { contents, resolveDir: process.cwd(), loader: 'ts' }, bundle: true, write: false, platform: 'node', format: 'cjs', logLevel: 'silent', plugins: [plugin], alias: { '@digitraffic/common/dist': lib + '/dist' }, nodePaths: [lib + '/node_modules'], external: ['@aws-sdk/*', '@middy/*', '@smithy/*', 'aws-cdk-lib', 'aws-cdk-lib/*', 'pg-native', 'ajv', 'ajv-formats', 'mysql2', 'mysql2/*'] });
  const m = { exports: {} };
  new Function('require', 'module', 'exports', '__filename', '__dirname', r.outputFiles[0].text)((n) => stubs[n] ?? need(n), m, m.exports, 'x', '.');
  return m.exports;
};
Object.assign(process.env, { AWS_REGION: 'r', SECRET_ID: 's', LOG_LEVEL: 'error', DLQ_URL: 'dlq', UDOT_SQS_URL: 'udot', SM_SQS_URL: 'sm', ROSM_SQS_URL: 'rosm' });
const R = './rail/rami/src/';
const quiet = () => { process.stdout.write = () => true; console.log = console.info = console.warn = console.error = () => {}; }; quiet();
const t = '2024-01-31T12:34:00Z';
const rosm = (more, ops = {}) => ({ headers: { e2eId: 'e', source: 's', recordedAtTime: 't', eventType: null }, payload: { messageId: 'm', messageVersion: 1, title: 't', messageType: 'MONITORED_JOURNEY_SCHEDULED_MESSAGE', operation: 'INSERT', creationDateTime: t, startValidity: t, endValidity: t, monitoredJourneyScheduledMessage: { vehicleJourney: null, messageContentType: 'AUDIO', deliveryPoints: [{ id: 'HKI' }], ...more }, ...ops } });
const stop = (o = {}) => ({ arrivalStopAssignment: { expectedQuayName: '1' }, departureStopAssignment: { expectedQuayName: '1' }, aimedArrivalTime: t, aimedDepartureTime: t, expectedArrivalTime: t, expectedDepartureTime: t, departureBoardingActivity: 'boarding', stopPointRef: 'HKI', ...o });
const sm = (first, rest = []) => ({ headers: { e2eId: 'e2e', source: 's', recordedAtTime: 't', eventType: null }, payload: { monitoredStopVisits: [{ monitoredVehicleJourney: { monitoredCall: first, onwardCalls: rest, vehicleJourneyName: '20240807108122' } }] } });
"""
RA = "rail/rami/src/"
bugs = [
 dict(id="e31-last-text", property="P31",
  edits=[(RA+"service/process-rosm-message.ts", "texts.find((text) => text.language === languageCode)", "texts.findLast((text) => text.language === languageCode)")],
  demo=B+"""const { parseRosmMessage } = await load(`export * from '${R}service/process-rosm-message.ts'`);
const m = parseRosmMessage(rosm({ videoTexts: [{ language: 'fi_FI', videoText: ' yksi ' }, { language: 'en_GB', videoText: 'one' }, { language: 'fi_FI', videoText: 'kaksi' }] }));
process.exit(m?.video?.textFi === 'yksi' && m.video.textEn === 'one' ? 0 : 1);
""", needs="two texts in one language", breaks="the last text of a language is kept instead of the first"),
 dict(id="e31-video-left-behind", property="P31",
  edits=[(RA+"dao/message.ts", """    await conn.query(
      INSERT_RAMI_MESSAGE_VIDEO,""", """    void conn.query(
      INSERT_RAMI_MESSAGE_VIDEO,""")],
  demo=B+"""process.on('unhandledRejection', () => {});
const { insertMessage } = await load(`export * from '${R}dao/message.ts'`);
state.fails = (op, sql) => sql.includes('rami_message_video');
let failed = false; try { await insertMessage({ id: 'm', version: 1, messageType: 'x', operation: 'INSERT', created: new Date(t), startValidity: new Date(t), endValidity: new Date(t), stations: ['HKI'] }); } catch { failed = true; }
process.exit(failed && !log.some((l) => l[0] === 'commit') ? 0 : 1);
""", needs="the last statement of the transaction fails", breaks="a message is stored in part and reported as stored"),
 dict(id="e31-no-repetitions", property="P31",
  edits=[(RA+"dao/message.ts", "    repetitions: message.audio?.repetitions ?? null,", "    repetitions: message.audio?.repetitions || null,")],
  demo=B+"""const { insertMessage } = await load(`export * from '${R}dao/message.ts'`);
await insertMessage({ id: 'm', version: 1, messageType: 'x', operation: 'INSERT', created: new Date(t), startValidity: new Date(t), endValidity: new Date(t), stations: ['HKI'], audio: { textFi: 'x', repetitions: 0, repeatEvery: 5 } });
const a = log.find((l) => l[1]?.includes('rami_message_audio'));
process.exit(a[2].repetitions === 0 && a[2].repeatEvery === 5 ? 0 : 1);
""", needs="an announcement repeated zero times", breaks="zero repetitions are stored as unknown"),
 dict(id="e31-swapped-columns", property="P31",
  edits=[(RA+"dao/message.ts", "text_fi, text_sv, text_en, delivery_type, start_date_time, end_date_time, start_time, end_time, days_of_week, event_type", "text_fi, text_en, text_sv, delivery_type, start_date_time, end_date_time, start_time, end_time, days_of_week, event_type")],
  demo=B+"""const { insertMessage } = await load(`export * from '${R}dao/message.ts'`);
await insertMessage({ id: 'm', version: 1, messageType: 'x', operation: 'INSERT', created: new Date(t), startValidity: new Date(t), endValidity: new Date(t), stations: ['HKI'], audio: { textFi: 'fi', textSv: 'sv', textEn: 'en' } });
const [, sql, v] = log.find((l) => l[1]?.includes('rami_message_audio'));
const [names, vals] = [...sql.matchAll(/\\(([^)]*)\\)/g)].map((m) => m[1].split(',').map((x) => x.trim()));
process.exit(['fi', 'sv', 'en'].every((l) => v[vals[names.indexOf('text_' + l)].replace(/^b?:/, '')] === l) ? 0 : 1);
""", needs="an audio message with Swedish and English texts", breaks="the Swedish and the English audio text change places in the store"),
 dict(id="e31-only-active", property="P31",
  edits=[(RA+"model/zod-schema/lambda-event.ts", "  .or(z.literal(\"false\").transform(() => false))", "  .or(z.literal(\"false\").transform(() => undefined))")],
  demo=B+"""const { handler } = await load(`export * from '${R}lambda/get-messages-updated-after/get-messages-updated-after.ts'`);
await handler({ date: '2024-01-31', train_number: '', train_departure_date: '', station: '', only_general: '', only_active: 'false' });
await handler({ date: '2024-01-31', only_active: 'true' }); await handler({ date: '2024-01-31' });
process.exit(JSON.stringify(log.map((l) => l[2].onlyActive)) === '[false,true,true]' ? 0 : 1);
""", needs="a request for messages that are not active as well", breaks="past messages are never returned"),
 dict(id="e31-same-failure", property="P31",
  edits=[(RA+"lambda/process-rosm-queue/process-rosm-queue.ts", "              message: recordBody,", "              message: event.Records[0]?.body,")],
  demo=B+"""const { handlerFn } = await load(`export * from '${R}lambda/process-rosm-queue/process-rosm-queue.ts'`);
state.fails = (op, sql, v) => v?.id === 'b';
const text = (id) => JSON.stringify(rosm({}, { messageId: id }));
const r = await handlerFn()({ Records: [{ body: text('a') }, { body: text('b') }] });
const kept = sent.map((s) => JSON.parse(JSON.parse(s.MessageBody).message).payload.messageId);
process.exit(r[0].status === 'fulfilled' && r[1].status === 'rejected' && kept.join() === 'b' ? 0 : 1);
""", needs="a message that cannot be stored after another one in its batch", breaks="another message is kept aside instead of the failed one"),
 dict(id="e32-ten-minutes", property="P32",
  edits=[(RA+"service/process-udot-message.ts", "jsonTime1.substring(0, 17) === jsonTime2.substring(0, 17)", "jsonTime1.substring(0, 16) === jsonTime2.substring(0, 16)")],
  demo=B+"""const { processUdotMessage } = await load(`export * from '${R}service/process-udot-message.ts'`);
state.rows = (sql) => sql.includes('select attap_id') ? [{ attap_id: 1, station_short_code: 'HKI', scheduled_time: new Date('2024-01-31T12:31:00Z'), type: 0 }, { attap_id: 2, station_short_code: 'HKI', scheduled_time: new Date('2024-01-31T12:34:30Z'), type: 0 }] : { affectedRows: 1 };
await processUdotMessage({ messageId: 'm', trainNumber: 1, departureDate: 'd', data: [{ stationShortCode: 'HKI', scheduledTime: t, type: 0, unknownDelay: true, unknownTrack: true }] });
process.exit(log.filter((l) => l[0] === 'execute').every((l) => l[2].attapId === 2) ? 0 : 1);
""", needs="a train at one station twice within ten minutes", breaks="the delay is stored at another visit"),
 dict(id="e32-half-known", property="P32",
  edits=[(RA+"dao/udot.ts", "      values.ud === false && values.ut === false\n        ? SQL_UPDATE_FALSE_VALUES", "      values.ud === false || values.ut === false\n        ? SQL_UPDATE_FALSE_VALUES")],
  demo=B+"""const { insertOrUpdate } = await load(`export * from '${R}dao/udot.ts'`);
state.rows = () => ({ affectedRows: 0 });
for (const [ud, ut] of [[true, false], [false, true], [true, true], [false, false]]) await insertOrUpdate(conn, { trainNumber: 1, trainDepartureDate: 'd', attapId: 1, messageId: 'm', ud, ut });
process.exit(log.map((l) => (/INSERT/.test(l[1]) ? 'i' : 'u')).join('') === 'iiiu' ? 0 : 1);
""", needs="a stop with only the track, or only the time, unknown", breaks="what is unknown is stored as known"),
 dict(id="e32-updated-history", property="P32",
  edits=[(RA+"dao/udot.ts", "    if (result.affectedRows > 0) {", "    if (result.affectedRows === 1) {")],
  demo=B+"""const { insertOrUpdate } = await load(`export * from '${R}dao/udot.ts'`);
state.rows = () => ({ affectedRows: 2 });
await insertOrUpdate(conn, { trainNumber: 1, trainDepartureDate: 'd', attapId: 1, messageId: 'm', ud: true, ut: true });
process.exit(log.some((l) => l[1].includes('rami_udot_history')) ? 0 : 1);
""", needs="a row that was there already (the database counts it twice)", breaks="changes of stored stops are missing from the history"),
 dict(id="e32-passing", property="P32",
  edits=[(RA+"service/process-sm-message.ts", 'mc.departureBoardingActivity === "boarding"', 'mc.departureBoardingActivity !== "noBoarding"')],
  demo=B+"""const { parseUDOTMessage } = await load(`export * from '${R}service/process-sm-message.ts'`);
const m = parseUDOTMessage(sm(stop(), [stop({ departureBoardingActivity: 'passthru', stopPointRef: 'TPE' }), stop({ departureBoardingActivity: 'noBoarding' })]));
process.exit(m?.data.length === 2 && m.data.every((d) => d.stationShortCode === 'HKI') ? 0 : 1);
""", needs="a stop the train passes through", breaks="stops where nobody boards are sent on"),
 dict(id="e32-arrival-track", property="P32",
  edits=[(RA+"service/process-sm-message.ts", "unknownTrack: !mc.departureStopAssignment.expectedQuayName", "unknownTrack: !(mc.departureStopAssignment.expectedQuayName ?? mc.arrivalStopAssignment.expectedQuayName)")],
  demo=B+"""const { parseUDOTMessage } = await load(`export * from '${R}service/process-sm-message.ts'`);
const m = parseUDOTMessage(sm(stop({ departureStopAssignment: {} })));
process.exit(m?.data[1].unknownTrack === true && m.data[0].unknownTrack === false ? 0 : 1);
""", needs="a stop whose arrival track is known and departure track is not", breaks="an unknown departure track is said to be known"),
 dict(id="e32-third-time", property="P32",
  edits=[(RA+"dao/udot.ts", "      if (i < retries - 1) {\n        // Wait", "      if (i + 2 < retries) {\n        // Wait")],
  demo=B+"""const { insertOrUpdate } = await load(`export * from '${R}dao/udot.ts'`);
let n = 0; state.fails = () => ++n < 3; state.rows = () => ({ affectedRows: 0 });
let ok = true; try { await insertOrUpdate(conn, { trainNumber: 1, trainDepartureDate: 'd', attapId: 1, messageId: 'm', ud: true, ut: true }); } catch { ok = false; }
process.exit(ok && n === 3 ? 0 : 1);
""", needs="a statement that fails twice in a row", breaks="the third try is not made"),
]

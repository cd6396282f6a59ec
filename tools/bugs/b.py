U = "const d = process.cwd() + '/lib/digitraffic-common/dist/';\nimport { createRequire } from 'node:module';\nconst need = createRequire(process.cwd() + '/lib/digitraffic-common/package.json');\n"
CDK = U + "const { App, Stack } = need('aws-cdk-lib'); const { Template, Match } = need('aws-cdk-lib/assertions');\n"
bugs = [
 dict(id="b07-format-dst-gap", property="P06",
  edits=[("utils/date-utils.ts", "  return format(new TZDate(date, UTC), formatString);", "  const utc = new TZDate(date, UTC);\n  return format(\n    new Date(\n      utc.getFullYear(),\n      utc.getMonth(),\n      utc.getDate(),\n      utc.getHours(),\n      utc.getMinutes(),\n      utc.getSeconds(),\n      utc.getMilliseconds(),\n    ),\n    formatString,\n  );")],
  demo=U+"""process.env.TZ = 'Europe/Helsinki';
const { dateToUTCString } = await import(d + 'utils/date-utils.js');
process.exit(dateToUTCString(new Date('2024-03-31T03:30:00Z'), 'yyyy-MM-dd HH:mm') === '2024-03-31 03:30' ? 0 : 1);
""", needs="a machine in a zone with summer time and an instant whose UTC clock time falls into the hour skipped there", breaks="the formatted time is one hour off"),
 dict(id="b08-locode-multiline", property="P06",
  edits=[("marine/id_utils.ts", "/^FI[A-Z]{3}$/i", "/^FI[A-Z]{3}$/im")],
  demo=U+"""const { isValidLOCODE } = await import(d + 'marine/id_utils.js');
process.exit(isValidLOCODE('FIHEL') && !isValidLOCODE('FIHEL\\nx') ? 0 : 1);
""", needs="a text with a line break that has a valid code on one of its lines", breaks="a text that is not a code is accepted"),
 dict(id="b09-stopwatch-log-running", property="P07",
  edits=[("utils/stop-watch.ts", "        tookMs: this.getDuration(task.taskName),", "        tookMs: task.totalDuration || this.getDuration(task.taskName),")],
  demo=U+"""const { StopWatch } = await import(d + 'utils/stop-watch.js');
const { logger } = await import(d + 'aws/runtime/dt-logger-default.js');
let now = 1000; Date.now = () => now;
const took = []; logger.info = (m) => took.push(m.tookMs);
const sw = new StopWatch(); sw.start('a'); now += 10; sw.stop('a'); sw.start('a'); now += 30; sw.logTasks('x.y');
process.exit(took[0] === 40 ? 0 : 1);
""", needs="a task that was stopped, started again and is still running when the tasks are logged", breaks="the running period is missing from the logged time"),
 dict(id="b10-leadtime-extra", property="P07",
  edits=[("utils/lead-time-logging.ts", "      ...(extraFields ?? {}),\n      method,\n      customLeadTime: true,\n      customName: name,\n      customTarget: target,\n      tookMs,", "      method,\n      customLeadTime: true,\n      customName: name,\n      customTarget: target,\n      tookMs,\n      ...(extraFields ?? {}),")],
  demo=U+"""const { logLeadTime } = await import(d + 'utils/lead-time-logging.js');
const { logger } = await import(d + 'aws/runtime/dt-logger-default.js');
const got = []; logger.info = (m) => got.push(m);
logLeadTime('lead-time', 'target', 5, { customTarget: 'other' });
process.exit(got.length === 1 && got[0].customTarget === 'target' && got[0].tookMs === 5 ? 0 : 1);
""", needs="an extra field with the name of one of the entry's own fields", breaks="the extra field replaces the entry's own target"),
 dict(id="b11-number-comma", property="P08",
  edits=[("utils/zod-utils.ts", "const num = Number(val);", "const num = Number(val.replace(\",\", \".\"));")],
  demo=U+"""const { zStringToNumber } = await import(d + 'utils/zod-utils.js');
process.exit(!zStringToNumber().safeParse('1,5').success && zStringToNumber().parse('1.5') === 1.5 ? 0 : 1);
""", needs="a text with a comma between digits", breaks="a text that is not a number is accepted as one"),
 dict(id="b12-date-numeric", property="P08",
  edits=[("utils/zod-utils.ts", "const date = new Date(val);", "const date = new Date(/^\\d{5,}$/.test(val) ? Number(val) : val);")],
  demo=U+"""const { zStringToDate } = await import(d + 'utils/zod-utils.js');
const r = zStringToDate().safeParse('12345'), t = new Date('12345').getTime();
process.exit(Number.isNaN(t) ? (r.success ? 1 : 0) : r.success && r.data.getTime() === t ? 0 : 1);
""", needs="a text of five or more digits only", breaks="the text is read as milliseconds instead of as a date text"),
 dict(id="b13-secret-failed-refresh", property="P09",
  edits=[("aws/runtime/secrets/secret-holder.ts", "    const secretValue = await getSecret<Secret>(this.secretId);\n", "    const expirationTime = new Date(Date.now() + this.ttl * 1000);\n    if (this.cachedSecret) {\n      this.expirationTime = expirationTime;\n    }\n    const secretValue = await getSecret<Secret>(this.secretId);\n")],
  demo=U+"""process.env.AWS_REGION = 'eu-west-1';
const { SecretHolder } = await import(d + 'aws/runtime/secrets/secret-holder.js');
const { logger } = await import(d + 'aws/runtime/dt-logger-default.js'); logger.info = () => {};
const { SecretsManager } = await import(need.resolve('@aws-sdk/client-secrets-manager'));
let now = 1e12; Date.now = () => now; let fail = false, calls = 0;
const answer = async () => { calls++; if (fail) throw new Error('no'); return { SecretString: '{"a":"1"}' }; };
SecretsManager.prototype.getSecretValue = answer; need('@aws-sdk/client-secrets-manager').SecretsManager.prototype.getSecretValue = answer;
const h = new SecretHolder('id'); await h.get();
now += 301000; fail = true; let refused = 0; await h.get().catch(() => refused++);
now += 1000; await h.get().catch(() => refused++);
process.exit(calls === 3 && refused === 2 ? 0 : 1);
""", needs="a refresh that fails after the secret has been cached once, and another read within five minutes", breaks="after a failed refresh the outdated secret is served for five more minutes"),
 dict(id="b14-prefix-boundary", property="P09",
  edits=[("aws/runtime/secrets/secret-holder.ts", "      if (key.startsWith(prefix)) {\n        const withoutPrefix: string = key.substring(skip);", "      if (key.startsWith(this.prefix) && key.length > skip) {\n        const withoutPrefix: string = key.substring(skip);")],
  demo=U+"""process.env.AWS_REGION = 'eu-west-1';
const { SecretHolder } = await import(d + 'aws/runtime/secrets/secret-holder.js');
const { logger } = await import(d + 'aws/runtime/dt-logger-default.js'); logger.info = () => {};
const answer = async () => ({ SecretString: JSON.stringify({ 'db.user': 'u', 'db2.pass': 'p' }) });
const { SecretsManager } = await import(need.resolve('@aws-sdk/client-secrets-manager'));
SecretsManager.prototype.getSecretValue = answer; need('@aws-sdk/client-secrets-manager').SecretsManager.prototype.getSecretValue = answer;
process.exit(JSON.stringify(await new SecretHolder('id', 'db').get()) === '{"user":"u"}' ? 0 : 1);
""", needs="a secret whose keys of another group begin with the same letters as the prefix", breaks="values of the other group are handed out under mangled names"),
 dict(id="b15-custom-inside", property="P10",
  edits=[("aws/runtime/dt-logger.ts", "    key.startsWith(prefix) ? lowerFirst(key.replace(prefix, \"\")) : key,", "    key.includes(prefix) ? lowerFirst(key.replace(prefix, \"\")) : key,")],
  demo=U+"""const { DtLogger } = await import(d + 'aws/runtime/dt-logger.js');
const lines = []; new DtLogger({ writeStream: { write: (s) => lines.push(s) } }).info({ method: 'a.b', message: 'm', customNoncustomers: 3, x: 1, ['noncustomers']: 4 });
const e = JSON.parse(lines[0]);
process.exit(lines.length === 1 && e.noncustomers !== undefined && e.noners === undefined ? 0 : 1);
""", needs="a field with the word of the prefix in the middle of its name", breaks="the field appears under a mangled name"),
 dict(id="b16-logger-marks-object", property="P10",
  edits=[("aws/runtime/dt-logger.ts", "  warn(message: LoggableType): void {\n    this.log({ ...message, level: \"WARN\" });", "  warn(message: LoggableType): void {\n    this.log(Object.assign(message, { level: \"WARN\" as const }));")],
  demo=U+"""const { DtLogger } = await import(d + 'aws/runtime/dt-logger.js');
const entry = { method: 'a.b', message: 'm' }; const l = new DtLogger({ writeStream: { write: () => {} } });
l.warn(entry);
process.exit(JSON.stringify(entry) === '{"method":"a.b","message":"m"}' ? 0 : 1);
""", needs="an entry object that is used again after a warning", breaks="logging a warning changes the caller's object (its message and level)"),
 dict(id="b17-payload-chars", property="P11",
  edits=[("aws/types/lambda-proxy-types.ts", "const responseSize = Buffer.byteLength(responseJsonString);", "const responseSize = responseJsonString.length;")],
  demo=U+"""const { LambdaProxyResponseBuilder } = await import(d + 'aws/types/lambda-proxy-types.js');
process.exit(LambdaProxyResponseBuilder.create('ä'.repeat(4 * 1024 * 1024)).build().statusCode === 400 && LambdaProxyResponseBuilder.create('a'.repeat(4 * 1024 * 1024)).build().statusCode === 200 ? 0 : 1);
""", needs="a body of between three and six million characters that are longer than one byte", breaks="a response over the payload limit is passed on"),
 dict(id="b18-redirect-308", property="P11",
  edits=[("aws/types/lambda-proxy-types.ts", "const bodyNotRequired = [204, ...REDIRECTION_HTTP_STATUS_CODES].includes(\n      this.status,\n    );", "const bodyNotRequired =\n      this.status === 204 ||\n      (this.status > 300 && this.status < 308 && this.status !== 304);")],
  demo=U+"""const { LambdaProxyResponseBuilder } = await import(d + 'aws/types/lambda-proxy-types.js');
let ok = false; try { ok = LambdaProxyResponseBuilder.redirect('/x', 308).statusCode === 308; } catch {}
let refused = false; try { LambdaProxyResponseBuilder.create().withStatus(305).build(); } catch { refused = true; }
process.exit(ok && refused ? 0 : 1);
""", needs="a permanent redirect with status 308 (or an unusual 3xx status without a body)", breaks="the redirect is refused for lacking a body"),
 dict(id="b19-unclean-session-leak", property="P12",
  edits=[("database/database.ts", "  try {\n    // deallocate all prepared statements to allow for connection pooling\n    // DISCARD instead of DEALLOCATE as it didn't always clean all prepared statements\n    await db.none(\"DISCARD ALL\");\n    return await fn(db);", "  // deallocate all prepared statements to allow for connection pooling\n  // DISCARD instead of DEALLOCATE as it didn't always clean all prepared statements\n  await db.none(\"DISCARD ALL\");\n  try {\n    return await fn(db);")],
  demo=U+"""import Module from 'node:module';
let ended = 0;
const load = Module._load;
const fake = () => { const pgp = () => ({ none: async () => { throw new Error('cannot discard'); }, $pool: { end: async () => { ended++; } } }); pgp.pg = { types: { builtins: {}, setTypeParser() {} } }; return pgp; };
const { registerHooks } = Module;
registerHooks({ resolve(s, c, n) { return s === 'pg-promise' ? { url: 'data:text/javascript,export default globalThis.fakePg', shortCircuit: true, format: 'module' } : n(s, c); } });
globalThis.fakePg = fake;
Object.assign(process.env, { DB_USER: 'u', DB_PASS: 'p', DB_URI: 'x', DB_RO_URI: 'y' });
const { inDatabase } = await import(d + 'database/database.js');
let failed = false; await inDatabase(async () => 1).catch(() => { failed = true; });
process.exit(failed && ended === 1 ? 0 : 1);
""", needs="a failure while the session state is discarded", breaks="the connection pool is never ended and the failure is not logged"),
 dict(id="b20-subtype-ignored", property="P12",
  edits=[("database/last-updated.ts", " on conflict (data_type, subtype)\n do update set updated = $(updated)`,\n    { updated, subtype, datatype },", " on conflict (data_type, subtype)\n do update set updated = $(updated)`,\n    { updated, subtype: subtype || UNSET_SUBTYPE, datatype },")],
  demo=U+"""const { updateLastUpdatedWithSubtype, DataType } = await import(d + 'database/last-updated.js');
let got; await updateLastUpdatedWithSubtype({ none: async (s, v) => { got = v; return null; } }, DataType.PERMIT_DATA, '', new Date(0));
process.exit(got.subtype === '' ? 0 : 1);
""", needs="an empty subtype", breaks="the update time of the type without a subtype is overwritten"),
 dict(id="b21-slack-other-throw", property="P13",
  edits=[("utils/slack.ts", "      logException(logger, error);", "      if (!(error instanceof Error) && typeof error !== \"string\") {\n        throw error;\n      }\n      logException(logger, error);")],
  demo=U+"""globalThis.fetch = async () => { throw { code: 1 }; };
const { logger } = await import(d + 'aws/runtime/dt-logger-default.js'); logger.info = () => {}; let errors = 0; logger.error = () => { errors++; };
const { SlackApi } = await import(d + 'utils/slack.js');
let failed = false; await new SlackApi('http://localhost:9/x').notify('t').catch(() => { failed = true; });
process.exit(!failed && errors === 1 ? 0 : 1);
""", needs="a remote failure that is neither an error object nor a text", breaks="the caller of the notification fails"),
 dict(id="b22-s3-key-slash", property="P13",
  edits=[("aws/runtime/s3.ts", "    Key: objectName,", "    Key: objectName.replace(/^\\/+/, \"\"),")],
  demo=U+"""const { uploadToS3 } = await import(d + 'aws/runtime/s3.js');
let key; await uploadToS3({ send: async (c) => { key = c.input.Key; } }, 'b', 'x', '/a/b.json');
process.exit(key === '/a/b.json' ? 0 : 1);
""", needs="an object name that begins with a slash", breaks="the object is stored under another key than the given one"),
 dict(id="b23-acl-count-duplicates", property="P14",
  edits=[("aws/infra/acl-builder.ts", "    const uniqueRuleNames = new Set(rules.map((rule) => rule.name));\n\n    if (uniqueRuleNames.size !== rules.length) {", "    const uniqueRuleNames = new Set(this._blockRules.map((rule) => rule.name));\n\n    if (uniqueRuleNames.size !== this._blockRules.length) {")],
  demo=CDK+"""const { AclBuilder } = await import(d + 'aws/infra/acl-builder.js');
let refused = false; try { new AclBuilder(new Stack(new App(), 'S')).withCountAnonymousUserIp(200).withCountAnonymousUserIp(200).build(); } catch { refused = true; }
process.exit(refused ? 0 : 1);
""", needs="two counting rules with the same name", breaks="an access list with duplicate names is built"),
 dict(id="b24-acl-path-header", property="P14",
  edits=[("aws/infra/acl-builder.ts", "statements: [scopeDownStatement, pathMatchStatement],", "statements: [matchStatement, pathMatchStatement],")],
  demo=CDK+"""const { AclBuilder } = await import(d + 'aws/infra/acl-builder.js');
const s = new Stack(new App(), 'S'); new AclBuilder(s).withThrottleAnonymousUserIpByPath?.(100, /x/);
const b = new AclBuilder(s, 'W'); b.withThrottleRule('n', 100, false, false, 'k', /x/).withCustomResponseBody('k', { content: 'c', contentType: 'TEXT_PLAIN' }).build();
const t = JSON.stringify(Template.fromStack(s).toJSON());
process.exit(t.includes('NotStatement') ? 0 : 1);
""", needs="a limit for anonymous requests on one path", breaks="the limit counts exactly the identified requests instead of the anonymous ones"),
]

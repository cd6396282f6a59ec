U = "const d = process.cwd() + '/lib/digitraffic-common/dist/';\nimport { createRequire } from 'node:module';\nconst need = createRequire(process.cwd() + '/lib/digitraffic-common/package.json');\n"
CDK = U + "const { App, Stack } = need('aws-cdk-lib'); const { Template, Match } = need('aws-cdk-lib/assertions');\n"
# a stack with everything a function may need
STACK = CDK + """process.env.AWS_REGION = 'eu-west-1';
const { DigitrafficStack } = await import(d + 'aws/infra/stack/stack.js');
const conf = (x) => ({ shortName: 'TST', production: false, trafficType: 'Road', alarmTopicArn: 'arn:aws:sns:eu-west-1:123456789012:a', warningTopicArn: 'arn:aws:sns:eu-west-1:123456789012:w', secretId: 'sid', vpcId: 'vpc-1', lambdaDbSgId: 'sg-1', privateSubnetIds: ['subnet-a', 'subnet-b'], availabilityZones: ['eu-west-1a', 'eu-west-1b'], stackProps: {}, ...x });
const stack = (x = {}, name = 'Some-Stack') => new DigitrafficStack(new App(), name, conf(x));
"""
EDGE = """import { createRequire } from 'node:module';
import { readFileSync } from 'node:fs';
import { join } from 'node:path';
const { buildSync } = createRequire('/opt/veriftools/node/package.json')('esbuild');
const load = async (file, swaps = {}) => {
  const dir = join(process.cwd(), 'other/cloudfront/src/lambda');
  let text = readFileSync(join(dir, file), 'utf8');
  for (const [a, b] of Object.entries(swaps)) text = text.split(a).join(b);
  const r = buildSync({ stdin: { contents: text, resolveDir: dir, loader: 'ts' }, bundle: true, write: false, platform: 'node', format: 'esm', alias: { '@digitraffic/common/dist': join(process.cwd(), 'lib/digitraffic-common/dist') }, nodePaths: [join(process.cwd(), 'lib/digitraffic-common/node_modules')], banner: { js: "import { createRequire as cr } from 'node:module'; const require = cr(process.cwd() + '/');" }, logLevel: 'silent' });
  return import('data:text/javascript;base64,' + Buffer.from(r.outputFiles[0].text).toString('base64'));
};
"""
CANARY = U + """import { registerHooks } from 'node:module';
globalThis.steps = []; globalThis.synthetics = { getConfiguration: () => new Proxy({}, { get: (t, k, me) => () => me }), executeHttpStep: async (name, options, callback) => { globalThis.steps.push({ name, options, callback }); } };
registerHooks({ resolve: (s, c, next) => (s === 'Synthetics' || s === 'vitest' ? { url: 'data:text/javascript,export default globalThis.synthetics; export const expect = undefined;', shortCircuit: true } : next(s, c)) });
const { UrlChecker, ContentTypeChecker } = await import(d + 'aws/infra/canaries/url-checker.js'); const steps = globalThis.steps;
"""
bugs = [
 dict(id="c01-bucket-hash", property="P15",
  edits=[("aws/infra/sqs-queue-internal.ts", "    .update(name)\n", "    .update(sanitized)\n")],
  demo=U+"""const { sanitizeS3BucketName: s } = await import(d + 'aws/infra/sqs-queue-internal.js');
const n = 'x'.repeat(80); process.exit(s(n + '_a') !== s(n + '-a') && s(n + 'A') !== s(n + 'a') ? 0 : 1);
""", needs="two long names that differ only in case or in a special character", breaks="the two names get the same bucket"),
 dict(id="c02-dlq-seconds", property="P15",
  edits=[("aws/infra/sqs-queue-internal.ts", "const millis = Date.now();", "const millis = Math.floor(Date.now() / 1000) * 1000;")],
  demo=U+"""const { getDlqCode } = await import(d + 'aws/infra/sqs-queue-internal.js');
let now = 1700000000100; Date.now = () => now; const keys = [];
const fake = { PutObjectCommand: class { constructor(x) { this.x = x; } }, S3Client: class { async send(c) { keys.push(c.x.Key); } } };
const exports = {}; new Function('require', 'exports', 'process', getDlqCode('bucket').code ?? getDlqCode('bucket').bind().inlineCode)(() => fake, exports, process);
await exports.handler({ Records: [{ body: 'a' }] }); now += 200; await exports.handler({ Records: [{ body: 'b' }] });
process.exit(new Set(keys).size === 2 ? 0 : 1);
""", needs="two deliveries within the same second", breaks="the second message is stored over the first"),
 dict(id="c04-shared-groups", property="P16",
  edits=[("aws/infra/stack/dt-function.ts", "export class FunctionBuilder {\n", "const NO_GROUPS: ISecurityGroup[] = [];\n\nexport class FunctionBuilder {\n"), ("aws/infra/stack/dt-function.ts", "  private readonly securityGroups: ISecurityGroup[] = [];", "  private readonly securityGroups: ISecurityGroup[] = NO_GROUPS;")],
  demo=STACK+"""const { FunctionBuilder } = await import(d + 'aws/infra/stack/dt-function.js');
const { InlineCode } = need('aws-cdk-lib/aws-lambda'); const { SecurityGroup } = need('aws-cdk-lib/aws-ec2');
const st = stack(); const code = new InlineCode('x');
FunctionBuilder.plain(st, 'one').withCode(code).withSecurityGroup(SecurityGroup.fromSecurityGroupId(st, 'sg', 'sg-other')).build();
FunctionBuilder.create(st, 'two').withCode(code).build();
const f = Object.values(Template.fromStack(st).findResources('AWS::Lambda::Function')).find((x) => x.Properties.FunctionName === 'TST-Two');
process.exit(JSON.stringify(f.Properties.VpcConfig.SecurityGroupIds) === '["sg-1"]' ? 0 : 1);
""", needs="two functions, the first with a security group of its own", breaks="the second function gets the security group of the first"),
 dict(id="c05-threshold-zero", property="P17",
  edits=[("aws/infra/stack/dt-function.ts", "threshold: alarmProps.threshold ?? threshold,", "threshold: alarmProps.threshold || threshold,")],
  demo=STACK+"""const { FunctionBuilder } = await import(d + 'aws/infra/stack/dt-function.js'); const { DtFunctionAlarms } = await import(d + 'aws/infra/stack/dt-function-alarms.js');
const { InlineCode } = need('aws-cdk-lib/aws-lambda'); const { ComparisonOperator } = need('aws-cdk-lib/aws-cloudwatch');
const st = stack();
FunctionBuilder.create(st, 'one').withCode(new InlineCode('x')).withAlarms(new DtFunctionAlarms().withErrorAlarm({ threshold: 0, evaluationPeriods: 1, datapointsToAlarm: 1, comparisonOperator: ComparisonOperator.GREATER_THAN_THRESHOLD })).build();
const a = Object.values(Template.fromStack(st).findResources('AWS::CloudWatch::Alarm')).find((x) => x.Properties.MetricName === 'Errors');
process.exit(a.Properties.Threshold === 0 ? 0 : 1);
""", needs="an alarm with the limit 0", breaks="the default limit replaces the given one"),
 dict(id="c06-datapoints", property="P17",
  edits=[("aws/infra/stack/monitoredfunction.ts", "datapointsToAlarm: alarmProps?.datapointsToAlarm ?? datapointsToAlarm,", "datapointsToAlarm: Math.min(\n          alarmProps?.datapointsToAlarm ?? datapointsToAlarm,\n          evaluationPeriods,\n        ),")],
  demo=STACK+"""const { MonitoredFunction } = await import(d + 'aws/infra/stack/monitoredfunction.js');
const { InlineCode, Runtime } = need('aws-cdk-lib/aws-lambda'); const { Duration } = need('aws-cdk-lib');
const st = stack();
MonitoredFunction.create(st, 'f', { functionName: 'TST-F', timeout: Duration.seconds(5), runtime: Runtime.NODEJS_LATEST, handler: 'index.handler', code: new InlineCode('x') }, { errorAlarmProps: { create: true, evaluationPeriods: 5, datapointsToAlarm: 3 } });
const a = Object.values(Template.fromStack(st).findResources('AWS::CloudWatch::Alarm')).find((x) => x.Properties.MetricName === 'Errors');
process.exit(a.Properties.DatapointsToAlarm === 3 && a.Properties.EvaluationPeriods === 5 ? 0 : 1);
""", needs="an alarm that is to go off only after several data points", breaks="the alarm goes off at the first one"),
 dict(id="c07-underscore", property="P18",
  edits=[("aws/infra/api/integration.ts", "if (name.startsWith(\"_\")) {", "if (/^_[a-z]/.test(name)) {")],
  demo=STACK+"""const { DigitrafficIntegration } = await import(d + 'aws/infra/api/integration.js');
const i = new DigitrafficIntegration({}); let no = 0; for (const n of ['_a', '_1', '_', '_A']) { try { i.addParameter('querystring', n); } catch { no++; } }
process.exit(no === 4 ? 0 : 1);
""", needs="a name of an underscore and a digit or a capital", breaks="a name that clashes with the mark of lists is accepted"),
 dict(id="c08-handler-start", property="P18",
  edits=[("aws/infra/api/handler-factory.ts", "    this.loggingHandler = async (method: () => Promise<LambdaResponse>) => {\n      const start = Date.now();\n\n      try {\n        return await method();\n      } finally {\n        logger.info({\n          method: `${functionName}.handler`,\n          tookMs: Date.now() - start,\n        });\n      }", "    let start = Date.now();\n\n    this.loggingHandler = async (method: () => Promise<LambdaResponse>) => {\n      start = Date.now();\n\n      try {\n        return await method();\n      } finally {\n        logger.info({\n          method: `${functionName}.handler`,\n          tookMs: Date.now() - start,\n        });\n      }")],
  demo=U+"""const { HandlerFactory } = await import(d + 'aws/infra/api/handler-factory.js');
const { logger } = await import(d + 'aws/runtime/dt-logger-default.js');
let now = 1000; Date.now = () => now; const took = []; logger.info = (m) => took.push(m.tookMs);
let done; const wait = new Promise((r) => { done = r; });
const h = new HandlerFactory().createEventHandler(async (e) => { if (e === 'slow') await wait; return 1; }, logger);
const a = h('slow'); now += 100; await h('fast'); now += 50; done(); await a;
process.exit(took.length === 2 && took[0] === 0 && took[1] === 150 ? 0 : 1);
""", needs="two requests handled at the same time", breaks="the logged time of the first is measured from the start of the second"),
 dict(id="c09-empty-allowlist", property="P19",
  edits=[("aws/infra/stack/rest-api.ts", "      allowFromIpAddresses === null || allowFromIpAddresses === undefined\n        ? createDefaultPolicyDocument()\n        : createIpRestrictionPolicyDocument(allowFromIpAddresses);\n\n    // override", "      !allowFromIpAddresses || allowFromIpAddresses.length === 0\n        ? createDefaultPolicyDocument()\n        : createIpRestrictionPolicyDocument(allowFromIpAddresses);\n\n    // override")],
  demo=STACK+"""const { DigitrafficRestApi } = await import(d + 'aws/infra/stack/rest-api.js');
const st = stack(); const api = new DigitrafficRestApi(st, 'a', 'n', []);  api.root.addMethod('GET');
const p = Object.values(Template.fromStack(st).findResources('AWS::ApiGateway::RestApi'))[0].Properties.Policy;
process.exit(p.Statement[0].Condition ? 0 : 1);
""", needs="an empty list of addresses", breaks="an API that nobody may call is open to everyone"),
 dict(id="c10-path-parameter-doc", property="P19",
  edits=[("aws/infra/stack/rest-api.ts", "name: type !== \"METHOD\" ? parameterName : undefined,", "name: type === \"QUERY_PARAMETER\" ? parameterName : undefined,")],
  demo=STACK+"""const { DigitrafficRestApi } = await import(d + 'aws/infra/stack/rest-api.js'); const { DocumentationPart } = await import(d + 'aws/infra/documentation.js');
const st = stack(); const api = new DigitrafficRestApi(st, 'a', 'n'); const r = api.root.addResource('x'); r.addMethod('GET');
api.documentResource(r, DocumentationPart.pathParameter('id', 'd'), DocumentationPart.queryParameter('q', 'd'));
const ps = Object.values(Template.fromStack(st).findResources('AWS::ApiGateway::DocumentationPart')).map((x) => x.Properties.Location.Name);
process.exit(ps.includes('id') && ps.includes('q') ? 0 : 1);
""", needs="a documented path parameter", breaks="the documentation is not attached to the parameter"),
 dict(id="c11-deny-becomes-allow", property="P20",
  edits=[("aws/infra/bucket-policy.ts", "      effect: config.effect ?? Effect.ALLOW,\n      principals: [new CanonicalUserPrincipal", "      effect: config.actions ? (config.effect ?? Effect.ALLOW) : Effect.ALLOW,\n      principals: [new CanonicalUserPrincipal")],
  demo=STACK+"""const { grantOAIRights } = await import(d + 'aws/infra/bucket-policy.js'); const { Bucket } = need('aws-cdk-lib/aws-s3'); const { Effect } = need('aws-cdk-lib/aws-iam');
const st = stack(); const bucket = new Bucket(st, 'b');
grantOAIRights({ bucket, canonicalUserId: 'u', effect: Effect.DENY });
const p = Object.values(Template.fromStack(st).findResources('AWS::S3::BucketPolicy'))[0].Properties.PolicyDocument;
process.exit(p.Statement[0].Effect === 'Deny' ? 0 : 1);
""", needs="a denial with the default actions", breaks="reading is allowed to whom it was denied"),
 dict(id="c12-network-without-subnets", property="P20",
  edits=[("aws/infra/stack/stack.ts", "if (configuration.vpcId) {", "if (configuration.vpcId && configuration.privateSubnetIds?.length) {")],
  demo=STACK+"""const st = stack({ privateSubnetIds: undefined }); process.exit(st.vpc?.vpcId === 'vpc-1' ? 0 : 1);
""", needs="a configuration with a network and no private subnets", breaks="the stack has no network although its configuration names one"),
 dict(id="c13-whitelist-case", property="P21",
  edits=[("aws/infra/stack/stack-checking-aspect.ts", "return new RegExp(wl).test(key);", "return new RegExp(wl, \"i\").test(key);")],
  demo=STACK+"""const { Queue } = need('aws-cdk-lib/aws-sqs'); const { Annotations, Match: M } = need('aws-cdk-lib/assertions');
const st = stack({ whitelistedResources: ['queue-a'] }); new Queue(st, 'QUEUE-A');
const e = Annotations.fromStack(st).findError('*', M.stringLikeRegexp('encryption'));
process.exit(e.length === 1 ? 0 : 1);
""", needs="a resource whose path differs from a whitelisted pattern in case only", breaks="the mistake of a resource that is not whitelisted is reported as a warning"),
 dict(id="c14-concurrency-limit", property="P21",
  edits=[("aws/infra/stack/stack-checking-aspect.ts", "node.reservedConcurrentExecutions > MAX_CONCURRENCY_LIMIT", "node.reservedConcurrentExecutions >= MAX_CONCURRENCY_LIMIT")],
  demo=STACK+"""const { Function: F, InlineCode, Runtime } = need('aws-cdk-lib/aws-lambda'); const { Duration } = need('aws-cdk-lib'); const { Annotations, Match: M } = need('aws-cdk-lib/assertions');
const st = stack(); new F(st, 'f', { functionName: 'TST-F', timeout: Duration.seconds(5), memorySize: 128, runtime: Runtime.NODEJS_24_X, handler: 'index.handler', code: new InlineCode('x'), reservedConcurrentExecutions: 100 });
process.exit(Annotations.fromStack(st).findError('*', M.stringLikeRegexp('oncurrent')).length === 0 ? 0 : 1);
""", needs="a function with a concurrency limit of exactly 100", breaks="an allowed limit is reported as an error"),
 dict(id="c15-restored-unprotected", property="P22",
  edits=[("aws/infra/stacks/db-stack.ts", "      deletionProtection: true,", "      deletionProtection: !clusterConfiguration.snapshotIdentifier,")],
  demo=CDK+"""const { DbStack } = await import(d + 'aws/infra/stacks/db-stack.js'); const rds = need('aws-cdk-lib/aws-rds'); const ec2 = need('aws-cdk-lib/aws-ec2');
const app = new App(); const t = ec2.InstanceType.of(ec2.InstanceClass.T3, ec2.InstanceSize.MEDIUM);
const st = new DbStack(app, 'db', { env: { account: '1', region: 'eu-west-1' }, environmentName: 'e' }, { secretArn: 'arn:aws:secretsmanager:eu-west-1:123456789012:secret:x-abcdef', customParameterGroups: [rds.AuroraPostgresEngineVersion.VER_16_3], cluster: { securityGroupId: 'sg-1', snapshotIdentifier: 'snap', dbVersion: rds.AuroraPostgresEngineVersion.VER_16_3, writer: { instanceType: t, isFromLegacyInstanceProps: true }, readers: [] } });
const c = Object.values(Template.fromStack(st).findResources('AWS::RDS::DBCluster'))[0].Properties;
process.exit(c.DeletionProtection === true ? 0 : 1);
""", needs="a cluster restored from a snapshot", breaks="the cluster can be deleted by mistake"),
 dict(id="c16-last-parameters", property="P22",
  edits=[("aws/infra/stacks/db-stack.ts", "      securityGroup,\n      parameterGroups[0],\n", "      securityGroup,\n      parameterGroups.at(-1) ?? parameterGroups[0],\n")],
  demo=CDK+"""const { DbStack } = await import(d + 'aws/infra/stacks/db-stack.js'); const rds = need('aws-cdk-lib/aws-rds'); const ec2 = need('aws-cdk-lib/aws-ec2');
const app = new App(); const t = ec2.InstanceType.of(ec2.InstanceClass.T3, ec2.InstanceSize.MEDIUM);
const st = new DbStack(app, 'db', { env: { account: '1', region: 'eu-west-1' }, environmentName: 'e' }, { secretArn: 'arn:aws:secretsmanager:eu-west-1:123456789012:secret:x-abcdef', customParameterGroups: [rds.AuroraPostgresEngineVersion.VER_16_3, rds.AuroraPostgresEngineVersion.VER_15_2], cluster: { securityGroupId: 'sg-1', dbVersion: rds.AuroraPostgresEngineVersion.VER_16_3, writer: { instanceType: t, isFromLegacyInstanceProps: true }, readers: [] } });
const c = Object.values(Template.fromStack(st).findResources('AWS::RDS::DBCluster'))[0].Properties;
process.exit(/group16/.test(c.DBClusterParameterGroupName.Ref) ? 0 : 1);
""", needs="parameters for two versions", breaks="the cluster gets the parameters of the last given version"),
 dict(id="c17-second-check", property="P23",
  edits=[("aws/infra/canaries/url-checker.ts", "await Promise.all(callbacks.map((c) => c(json, body, res)));", "await Promise.race(callbacks.map((c) => c(json, body, res)));")],
  demo=CANARY+"""steps.length = 0; const c = new UrlChecker('host', 'key');
let second = 0; await c.expect200('/x', async () => {}, async () => { await null; await null; second = 1; throw new Error('bad'); });
const r = await steps[0].callback({}, '', {}).then(() => 'passed', () => 'failed');
process.exit(r === 'failed' && second === 1 ? 0 : 1);
""", needs="two checks of one request of which the slower one fails", breaks="the step passes although one of its checks fails"),
 dict(id="c18-content-type-prefix", property="P23",
  edits=[("aws/infra/canaries/url-checker.ts", "      if (res.headers[\"content-type\"] !== contentType) {\n        throw new Error(\n          `Wrong content-type ${res.headers[\"content-type\"] ?? undefined}`,\n        );\n      }\n\n      return Promise", "      if (!res.headers[\"content-type\"]?.startsWith(contentType)) {\n        throw new Error(\n          `Wrong content-type ${res.headers[\"content-type\"] ?? undefined}`,\n        );\n      }\n\n      return Promise")],
  demo=CANARY+"""const at = async (t) => { try { await ContentTypeChecker.checkContentType('application/json')({ statusCode: 200, headers: { 'access-control-allow-origin': '*', 'content-type': t } }); return true; } catch { return false; } };
process.exit(await at('application/json') && !(await at('application/jsonp')) && !(await at(undefined)) ? 0 : 1);
""", needs="a content type that begins with the expected one", breaks="an answer of the wrong content type is accepted"),
 dict(id="c19-canary-threshold-zero", property="P24",
  edits=[("aws/infra/canaries/canary-alarm.ts", "threshold: params.alarm?.threshold ?? 100,", "threshold: params.alarm?.threshold || 100,")],
  demo=STACK+"""const { CanaryAlarm } = await import(d + 'aws/infra/canaries/canary-alarm.js'); const { Metric } = need('aws-cdk-lib/aws-cloudwatch');
const st = stack(); new CanaryAlarm(st, { metricSuccessPercent: () => new Metric({ namespace: 'n', metricName: 'm' }) }, { name: 'c', handler: 'h', alarm: { threshold: 0 } });
process.exit(Object.values(Template.fromStack(st).findResources('AWS::CloudWatch::Alarm'))[0].Properties.Threshold === 0 ? 0 : 1);
""", needs="an alarm with the limit 0", breaks="the alarm goes off unless every run succeeds"),
 dict(id="c20-canary-environment", property="P24",
  edits=[("aws/infra/canaries/canary.ts", "        ...environmentVariables,\n        ...params.canaryEnv,\n", "        ...params.canaryEnv,\n        ...environmentVariables,\n")],
  demo=STACK+"""const { Template: T } = need('aws-cdk-lib/assertions'); import { mkdtempSync, mkdirSync, rmSync } from 'node:fs'; import { tmpdir } from 'node:os'; import { join } from 'node:path';
const dir = mkdtempSync(join(tmpdir(), 'canary-')); mkdirSync(join(dir, 'dist/nodejs/node_modules'), { recursive: true }); mkdirSync(join(dir, 'dist/nodejs/node_modules/x'), { recursive: true });
const { writeFileSync } = await import('node:fs'); writeFileSync(join(dir, 'dist/nodejs/node_modules/x.js'), '//'); writeFileSync(join(dir, 'dist/x.js'), '//');
process.chdir(dir); let ok = false;
try {
  const { DigitrafficCanary } = await import(d + 'aws/infra/canaries/canary.js'); const { DigitrafficCanaryRole } = await import(d + 'aws/infra/canaries/canary-role.js');
  const st = stack(); new DigitrafficCanary(st, 'c', new DigitrafficCanaryRole(st, 'c'), { name: 'c', handler: 'x.handler', canaryEnv: { A: 'given' } }, { A: 'own', B: 'own' });
  const c = Object.values(T.fromStack(st).findResources('AWS::Synthetics::Canary'))[0].Properties;
  ok = c.RunConfig.EnvironmentVariables.A === 'given';
} finally { process.chdir('/'); rmSync(dir, { recursive: true, force: true }); }
process.exit(ok ? 0 : 1);
""", needs="a given setting with the name of one of the canary's own settings", breaks="the given setting is ignored"),
 dict(id="c21-short-line", property="P25",
  edits=[("types/geojson.ts", "  type: z.literal(\"MultiLineString\"),\n  coordinates: z.array(z.array(CoordinatesSchema).min(2)),", "  type: z.literal(\"MultiLineString\"),\n  coordinates: z.array(z.array(CoordinatesSchema).min(1)),")],
  demo=U+"""const { GeometrySchema } = await import(d + 'types/geojson.js');
const p = (c) => GeometrySchema.safeParse({ type: 'MultiLineString', coordinates: c }).success;
process.exit(p([[[1, 2], [3, 4]]]) && !p([[[1, 2], [3, 4]], [[1, 2]]]) ? 0 : 1);
""", needs="a group of lines with a line of one position", breaks="a line of one position is accepted"),
 dict(id="c22-unknown-in-licence", property="P25",
  edits=[("types/openapi-schema.ts", "          .object({ name: z.string(), url: z.string().optional() })\n          .strict()\n", "          .object({ name: z.string(), url: z.string().optional() })\n")],
  demo=U+"""const { openapiSchema } = await import(d + 'types/openapi-schema.js');
const p = (x) => openapiSchema.safeParse({ openapi: '3.0.1', info: { title: 't', version: '1', license: { name: 'n', ...x } }, paths: {} }).success;
process.exit(p({}) && !p({ other: 1 }) ? 0 : 1);
""", needs="an unknown field in the licence", breaks="the document is accepted, without the field"),
 dict(id="c23-address-prefix", property="P26",
  edits=[("other/cloudfront/src/lambda/lambda-ip-restriction.ts", "if (ALLOWED_IPS.indexOf(request.clientIp) === -1) {", "if (!ALLOWED_IPS.some((ip) => request.clientIp.startsWith(ip))) {")],
  demo=EDGE+"""const { handler } = await load('lambda-ip-restriction.ts', { EXT_IP: '10.0.0.1,10.0.0.2' });
const at = (clientIp) => handler({ Records: [{ cf: { request: { clientIp } } }] });
process.exit((await at('10.0.0.1')).clientIp === '10.0.0.1' && (await at('10.0.0.12')).status === '403' && (await at('10.0.0.3')).status === '403' ? 0 : 1);
""", needs="an address that begins with an allowed address", breaks="the address is let in"),
]
bugs = [b for b in bugs if not b.get("skip")]

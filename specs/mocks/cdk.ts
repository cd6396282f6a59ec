// AWS CDK: constructs keep what they are given; every construct made and every grant, policy, alarm action and method added is recorded.
import { record } from "vf";
export class Node {
  children: any[] = []; deps: any[] = []; defaultChild: any = undefined; path: string;
  constructor(public id: string, parent: any) { this.path = parent?.node !== undefined && parent.node.path !== "" ? `${parent.node.path}/${id}` : id; }
  addDependency(x: any) { this.deps.push(x); record("dependency", this.id, x); }
}
export class Construct {
  node: any; kind: string; scope: any; props: any;
  constructor(kind: string, scope: any, id: string, props: any) {
    if (scope === undefined && kind !== "Stack" && kind !== "App") throw new Error(`${id} is not part of a stack`);
    this.kind = kind; this.scope = scope; this.props = props; this.node = new Node(id, scope);
    record("new", kind, id, props, this);
  }
  applyRemovalPolicy(p: any) { record("removalPolicy", this.node.id, p); }
  attr(name: string) { return `${name}(${this.node.id})`; }
}
const value = (kind: string, of: any) => ({ kind, ...of });
// values
export class Duration {
  constructor(public ms: number) {}
  static millis(n: number) { return new Duration(n); }
  static seconds(n: number) { return new Duration(n * 1000); }
  static minutes(n: number) { return new Duration(n * 60000); }
  static hours(n: number) { return new Duration(n * 3600000); }
  static days(n: number) { return new Duration(n * 86400000); }
  toMilliseconds() { return this.ms; }
  toSeconds() { return this.ms / 1000; }
  toMinutes() { return this.ms / 60000; }
}
export const RemovalPolicy = { DESTROY: "destroy", RETAIN: "retain", SNAPSHOT: "snapshot" };
export const Aws = { ACCOUNT_ID: "${Token[AWS.AccountId]}", REGION: "${Token[AWS.Region]}" };
export const Fn = { importValue: (name: string) => `import(${name})` };
export class CfnOutput extends Construct { constructor(s: any, id: string, p: any) { super("CfnOutput", s, id, p); } }
export const Aspects = { of: (scope: any) => ({ add: (aspect: any) => { record("aspect", scope, aspect); } }) };
export const Tags = { of: (c: any) => ({ add: (key: string, value: any) => { record("tag", c, key, value); } }) };
export const Annotations = { of: (node: any) => ({ addError: (m: string) => { record("error", node, m); }, addWarning: (m: string) => { record("warning", node, m); }, addInfo: (m: string) => { record("info", node, m); } }) };
export class Stack extends Construct {
  stackName: any; region = "eu-west-1"; account = "123456789012"; tags: any; availabilityZones: any[] = ["zone-c", "zone-a", "zone-b"];
  constructor(scope?: any, id?: any, props?: any) {
    super("Stack", scope, id ?? "Default", props);
    this.stackName = props?.stackName ?? id;
    const tags = props?.tags ?? {};
    this.tags = { tagValues: () => tags };
  }
  static of(c: any) { let x = c; while (!(x instanceof Stack)) x = x.scope; return x; }
}
// alarms
export const ComparisonOperator = { GREATER_THAN_OR_EQUAL_TO_THRESHOLD: "GreaterThanOrEqualToThreshold", GREATER_THAN_THRESHOLD: "GreaterThanThreshold", LESS_THAN_THRESHOLD: "LessThanThreshold", LESS_THAN_OR_EQUAL_TO_THRESHOLD: "LessThanOrEqualToThreshold" };
export const TreatMissingData = { BREACHING: "breaching", NOT_BREACHING: "notBreaching", IGNORE: "ignore", MISSING: "missing" };
export class Metric {
  constructor(public metricName: string, public owner: any, public props: any) {}
  with(p: any) { return new Metric(this.metricName, this.owner, { ...this.props, ...p }); }
  createAlarm(scope: any, id: string, props: any) { return new Alarm(scope, id, { ...props, metric: this }); }
}
export class Alarm extends Construct {
  alarmArn: string;
  constructor(s: any, id: string, p: any) { super("Alarm", s, id, p); this.alarmArn = this.attr("alarmArn"); }
  addAlarmAction(...actions: any[]) { for (const a of actions) record("alarmAction", this.node.id, a.topic); }
}
export class SnsAction { constructor(public topic: any) {} }
// identity and access
export const Effect = { ALLOW: "Allow", DENY: "Deny" };
export class ServicePrincipal { kind = "service"; constructor(public name: string) {} }
export class CanonicalUserPrincipal { kind = "canonical"; constructor(public name: string) {} }
export class CompositePrincipal { kind = "composite"; principals: any[]; constructor(...p: any[]) { this.principals = p; } }
export class AnyPrincipal { kind = "any"; name = "*"; }
export class PolicyStatement {
  effect: any; actions: any[]; resources: any[]; principals: any[]; conditions: any;
  constructor(p: any = {}) { this.effect = p.effect ?? "Allow"; this.actions = [...(p.actions ?? [])]; this.resources = [...(p.resources ?? [])]; this.principals = [...(p.principals ?? [])]; this.conditions = p.conditions; }
  addActions(...a: any[]) { this.actions.push(...a); }
  addResources(...r: any[]) { this.resources.push(...r); }
  addAllResources() { this.resources.push("*"); }
  addPrincipals(...r: any[]) { this.principals.push(...r); }
}
export class PolicyDocument { statements: any[]; constructor(p: any = {}) { this.statements = p.statements ?? []; } addStatements(...s: any[]) { this.statements.push(...s); } }
export const ManagedPolicy = { fromAwsManagedPolicyName: (name: string) => ({ kind: "managed", name }) };
export class Role extends Construct {
  roleArn: string;
  constructor(s: any, id: string, p: any) { super("Role", s, id, p); this.roleArn = this.attr("roleArn"); }
  addToPolicy(st: any) { record("rolePolicy", this.node.id, st); return true; }
  addManagedPolicy(p: any) { record("managedPolicy", this.node.id, p.name); }
}
export class Key extends Construct { keyArn: string; constructor(s: any, id: string, p: any) { super("Key", s, id, p); this.keyArn = this.attr("keyArn"); } }
// secrets, topics, parameters
const imported = (kind: string, id: string, props: any): any => ({ kind, imported: true, node: { id }, ...props });
export const secretOf = (id: string, name: any): any => ({ kind: "Secret", node: { id }, secretName: name, secretArn: name, grantRead: (to: any) => { record("grantSecret", id, to); }, secretValueFromJson: (k: string) => ({ field: k, unsafeUnwrap: () => `unsafe(${k})` }) });
export const Secret = { fromSecretNameV2: (s: any, id: string, name: any) => { record("import", "Secret", id, name); return secretOf(id, name); }, fromSecretAttributes: (s: any, id: string, a: any) => { record("import", "Secret", id, a); return secretOf(id, a.secretCompleteArn); }, fromSecretCompleteArn: (s: any, id: string, a: any) => { record("import", "Secret", id, a); return secretOf(id, a); } };
export const Topic = { fromTopicArn: (s: any, id: string, arn: any) => imported("Topic", id, { topicArn: arn }) };
export class StringParameter extends Construct {
  parameterName: any; stringValue: any;
  constructor(s: any, id: string, p: any) { super("StringParameter", s, id, p); this.parameterName = p.parameterName; this.stringValue = p.stringValue; }
  static fromStringParameterName(s: any, id: string, name: string) { return imported("StringParameter", id, { stringValue: `ssm(${name})` }); }
  static valueForStringParameter(s: any, name: string) { return `ssm(${name})`; }
}
// network
export const SubnetType = { PUBLIC: "Public", PRIVATE_WITH_EGRESS: "Private", PRIVATE_ISOLATED: "Isolated" };
export const IpAddresses = { cidr: (c: string) => value("cidr", { cidr: c }) };
const subnets = (id: string, n: number) => ["A", "B"].slice(0, n).map((x) => ({ subnetId: `${id}${x}`, node: { id: `${id}${x}` }, routeTable: { routeTableId: `table(${id}${x})` } }));
export const networkControl: any = { publicSubnets: 2, privateSubnets: 2 };
export class Vpc extends Construct {
  vpcId: string; publicSubnets: any[]; privateSubnets: any[];
  constructor(s: any, id: string, p: any) { super("Vpc", s, id, p); this.vpcId = this.attr("vpcId"); this.publicSubnets = subnets("public", networkControl.publicSubnets); this.privateSubnets = subnets("private", networkControl.privateSubnets); }
  selectSubnets() { return { subnets: this.privateSubnets }; }
  static fromVpcAttributes(s: any, id: string, a: any) { record("import", "Vpc", id, a); return imported("Vpc", id, { vpcId: a.vpcId, availabilityZones: a.availabilityZones, privateSubnets: (a.privateSubnetIds ?? []).map((x: any) => ({ subnetId: x })) }); }
}
export class CfnRoute extends Construct { constructor(s: any, id: string, p: any) { super("CfnRoute", s, id, p); } }
export const SecurityGroup = { fromSecurityGroupId: (s: any, id: string, g: any) => imported("SecurityGroup", id, { securityGroupId: g }) };
export class PrivateHostedZone extends Construct { constructor(s: any, id: string, p: any) { super("PrivateHostedZone", s, id, p); } }
export class RecordSet extends Construct { constructor(s: any, id: string, p: any) { super("RecordSet", s, id, p); } }
export const RecordTarget = { fromValues: (...v: any[]) => v };
export const RecordType = { A: "A", CNAME: "CNAME" };
// databases
export const DatabaseClusterEngine = { AURORA_POSTGRESQL: "aurora-postgresql", auroraPostgres: (p: any) => value("auroraPostgres", p) };
export const ClusterInstance = { provisioned: (id: string, p: any) => value("instance", { id, props: p }) };
export const Credentials = { fromPassword: (user: any, password: any) => ({ user, password }) };
export const InstanceUpdateBehaviour = { BULK: "BULK", ROLLING: "ROLLING" };
export const ProxyTarget = { fromCluster: (c: any) => ({ cluster: c }) };
export class CfnDBInstance extends Construct { engineVersion: any = "x"; constructor(s: any, id: string, p: any) { super("CfnDBInstance", s, id, p); } }
export class DatabaseCluster extends Construct {
  clusterIdentifier: string; clusterEndpoint: any; clusterReadEndpoint: any;
  constructor(s: any, id: string, p: any, kind: string = "DatabaseCluster") { super(kind, s, id, p); this.clusterIdentifier = this.attr("clusterIdentifier"); this.clusterEndpoint = { hostname: this.attr("writer") }; this.clusterReadEndpoint = { hostname: this.attr("reader") }; this.node.children.push(new CfnDBInstance(this, "Instance", {})); }
  static fromDatabaseClusterAttributes(s: any, id: string, a: any) { return imported("DatabaseCluster", id, { ...a, connections: { allowDefaultPortFrom: () => { record("allowDefaultPort"); } } }); }
}
export class DatabaseClusterFromSnapshot extends DatabaseCluster { constructor(s: any, id: string, p: any) { super(s, id, p, "DatabaseClusterFromSnapshot"); } }
export class DatabaseProxy extends Construct { endpoint: string; dbProxyName: any; constructor(s: any, id: string, p: any) { super("DatabaseProxy", s, id, p); this.endpoint = this.attr("endpoint"); this.dbProxyName = p.dbProxyName; p.proxyTarget.cluster.connections.allowDefaultPortFrom(this); } }
export class CfnDBProxyEndpoint extends Construct { attrEndpoint: string; constructor(s: any, id: string, p: any) { super("CfnDBProxyEndpoint", s, id, p); this.attrEndpoint = this.attr("attrEndpoint"); } }
export class ParameterGroup extends Construct { constructor(s: any, id: string, p: any) { super("ParameterGroup", s, id, p); } bindToCluster(x: any) { record("bind", this.node.id, "cluster"); } bindToInstance(x: any) { record("bind", this.node.id, "instance"); } }
// events
export class Schedule { constructor(public expression: any) {} static rate(d: any) { return new Schedule({ rate: d.ms }); } static expression(e: string) { return new Schedule(e); } static cron(c: any) { return new Schedule(c); } }
export class Rule extends Construct { constructor(s: any, id: string, p: any) { super("Rule", s, id, p); } addTarget(t: any) { record("target", this.node.id, t.kind, t.of); } }
export class LambdaFunction { kind = "lambda"; constructor(public of: any) {} }
export class SnsTopic { kind = "topic"; constructor(public of: any) {} }
// logs
export const RetentionDays = { ONE_DAY: 1, ONE_WEEK: 7, ONE_MONTH: 30, THREE_MONTHS: 90, SIX_MONTHS: 180, ONE_YEAR: 365, TWO_YEARS: 731, TEN_YEARS: 3653, INFINITE: 9999 };
export class LogGroup extends Construct { logGroupName: any; constructor(s: any, id: string, p: any) { super("LogGroup", s, id, p); this.logGroupName = p.logGroupName; } }
export class LogRetention extends Construct { constructor(s: any, id: string, p: any) { super("LogRetention", s, id, p); } }
export class CfnSubscriptionFilter extends Construct { constructor(s: any, id: string, p: any) { super("CfnSubscriptionFilter", s, id, p); } }
// functions
export const ApplicationLogLevel = { INFO: "INFO", DEBUG: "DEBUG", WARN: "WARN", ERROR: "ERROR", TRACE: "TRACE", FATAL: "FATAL" };
export const SystemLogLevel = { INFO: "INFO", DEBUG: "DEBUG", WARN: "WARN" };
export const LoggingFormat = { JSON: "JSON", TEXT: "Text" };
export const Architecture = { ARM_64: { name: "arm64" }, X86_64: { name: "x86_64" } };
export class Runtime { constructor(public name: string) {} static NODEJS_18_X = new Runtime("nodejs18.x"); static NODEJS_20_X = new Runtime("nodejs20.x"); static NODEJS_22_X = new Runtime("nodejs22.x"); static NODEJS_24_X = new Runtime("nodejs24.x"); static PYTHON_3_11 = new Runtime("python3.11"); static PYTHON_3_12 = new Runtime("python3.12"); static PYTHON_3_13 = new Runtime("python3.13"); static SYNTHETICS_NODEJS_PUPPETEER_13_0 = new Runtime("syn-nodejs-puppeteer-13.0"); }
export class AssetCode { kind = "asset"; constructor(public path: string, public options?: any) {} }
export class InlineCode { kind = "inline"; constructor(public code: string) {} }
export const Code = { fromInline: (code: string) => new InlineCode(code), fromAsset: (path: string, options?: any) => new AssetCode(path, options) };
class Fun extends Construct {
  functionName: any; functionArn: string; logGroup: any; role: any;
  constructor(s: any, id: string, p: any) { super("Function", s, id, p); this.functionName = p.functionName ?? this.attr("functionName"); this.functionArn = this.attr("functionArn"); this.logGroup = p.logGroup ?? { logGroupName: `/aws/lambda/${this.functionName}` }; this.role = p.role ?? { ofFunction: id }; }
  metricDuration(p?: any) { return new Metric("Duration", this, p); }
  metricErrors(p?: any) { return new Metric("Errors", this, p); }
  metricThrottles(p?: any) { return new Metric("Throttles", this, p); }
  metricInvocations(p?: any) { return new Metric("Invocations", this, p); }
  addToRolePolicy(st: any) { record("functionPolicy", this.node.id, st); }
  get currentVersion() { return { versionOf: this.node.id }; }
  addEventSource(e: any) { record("eventSource", this.node.id, e.queue, e.props); }
}
export { Fun as Function };
export class SqsEventSource { constructor(public queue: any, public props?: any) {} }
export class CfnFunction extends Construct { reservedConcurrentExecutions: any; timeout: any; memorySize: any; runtime: any; functionName: any; constructor(s: any, id: string, p: any) { super("CfnFunction", s, id, p); this.reservedConcurrentExecutions = p.reservedConcurrentExecutions; this.timeout = p.timeout; this.memorySize = p.memorySize; this.runtime = p.runtime; this.functionName = p.functionName; } }
// storage and queues
export const BlockPublicAccess = { BLOCK_ALL: "BLOCK_ALL", BLOCK_ACLS: "BLOCK_ACLS" };
export class Bucket extends Construct {
  bucketName: any; bucketArn: string;
  constructor(s: any, id: string, p: any) { super("Bucket", s, id, p); this.bucketName = p?.bucketName ?? this.attr("bucketName"); this.bucketArn = this.attr("bucketArn"); }
  addToResourcePolicy(st: any) { record("bucketPolicy", this.node.id, st); return { statementAdded: true }; }
  grantWrite(to: any) { record("grantWrite", this.node.id, to); }
  grantRead(to: any) { record("grantRead", this.node.id, to); }
  static fromBucketAttributes(s: any, id: string, attributes: any) { record("import", "Bucket", id, attributes); return imported("Bucket", id, { attributes }); }
}
export class CfnBucket extends Construct { publicAccessBlockConfiguration: any; constructor(s: any, id: string, p: any) { super("CfnBucket", s, id, p); this.publicAccessBlockConfiguration = p.publicAccessBlockConfiguration; } }
export const QueueEncryption = { UNENCRYPTED: "NONE", KMS_MANAGED: "MANAGED", KMS: "KMS", SQS_MANAGED: "SQS_MANAGED" };
export class Queue extends Construct {
  queueArn: string; queueName: any; queueUrl: string; fifo: any;
  constructor(s: any, id: string, p: any) { super("Queue", s, id, p); this.queueName = p?.queueName ?? this.attr("queueName"); this.queueArn = this.attr("queueArn"); this.queueUrl = this.attr("queueUrl"); this.fifo = p?.fifo ?? false; }
  metricNumberOfMessagesReceived(p?: any) { return new Metric("NumberOfMessagesReceived", this, p); }
  metricApproximateNumberOfMessagesVisible(p?: any) { return new Metric("ApproximateNumberOfMessagesVisible", this, p); }
}
export class CfnQueue extends Construct { kmsMasterKeyId: any; constructor(s: any, id: string, p: any) { super("CfnQueue", s, id, p); this.kmsMasterKeyId = p.kmsMasterKeyId; } }
// web application firewall
export class CfnIPSet extends Construct { attrArn: string; constructor(s: any, id: string, p: any) { super("CfnIPSet", s, id, p); this.attrArn = this.attr("attrArn"); } }
export class CfnWebACL extends Construct { attrArn: string; constructor(s: any, id: string, p: any) { super("CfnWebACL", s, id, p); this.attrArn = this.attr("attrArn"); } }
// API gateway
export const PassthroughBehavior = { WHEN_NO_MATCH: "WHEN_NO_MATCH", NEVER: "NEVER", WHEN_NO_TEMPLATES: "WHEN_NO_TEMPLATES" };
export const EndpointType = { EDGE: "EDGE", REGIONAL: "REGIONAL", PRIVATE: "PRIVATE" };
export const MethodLoggingLevel = { OFF: "OFF", ERROR: "ERROR", INFO: "INFO" };
export const Cors = { ALL_ORIGINS: ["*"], ALL_METHODS: ["OPTIONS", "GET", "PUT", "POST", "DELETE", "PATCH", "HEAD"], DEFAULT_HEADERS: ["Content-Type", "X-Amz-Date", "Authorization", "X-Api-Key"] };
export const ResponseType = { MISSING_AUTHENTICATION_TOKEN: "MISSING_AUTHENTICATION_TOKEN", UNAUTHORIZED: "UNAUTHORIZED", ACCESS_DENIED: "ACCESS_DENIED", DEFAULT_4XX: "DEFAULT_4XX" };
export const JsonSchemaType = { NULL: "null", BOOLEAN: "boolean", OBJECT: "object", ARRAY: "array", NUMBER: "number", INTEGER: "integer", STRING: "string" };
export const JsonSchemaVersion = { DRAFT4: "http://json-schema.org/draft-04/schema#", DRAFT7: "http://json-schema.org/draft-07/schema#" };
export const Model = { EMPTY_MODEL: { modelId: "Empty" }, ERROR_MODEL: { modelId: "Error" } };
export class LambdaIntegration { kind = "lambda"; constructor(public handler: any, public options: any) {} }
export class AwsIntegration { kind = "aws"; constructor(public props: any) {} }
export class MockIntegration { kind = "mock"; constructor(public options: any) {} }
export class GatewayResponse extends Construct { constructor(s: any, id: string, p: any) { super("GatewayResponse", s, id, p); } }
export class CfnDocumentationPart extends Construct { constructor(s: any, id: string, p: any) { super("CfnDocumentationPart", s, id, p); } }
export class CfnResource extends Construct { pathPart: any; constructor(s: any, id: string, p: any) { super("CfnResource", s, id, p); this.pathPart = p.pathPart; } }
export class CfnMethod extends Construct { integration: any; constructor(s: any, id: string, p: any) { super("CfnMethod", s, id, p); this.integration = p.integration; } }
export class Resource {
  constructor(public path: any, public api: any) {}
  addMethod(method: string, integration: any, options: any) { record("method", this.path, method, integration, options); }
  addResource(part: string, options: any) { record("resource", this.path, part, options); return new Resource(`${this.path}/${part}`, this.api); }
  addCorsPreflight(options: any) { record("cors", this.path, options); }
}
export class RestApi extends Construct {
  restApiId: string; restApiName: any; url: string; deploymentStage: any; root: any; stack: any; nextKey: any;
  constructor(s: any, id: string, p: any) { super("RestApi", s, id, p); this.restApiId = this.attr("restApiId"); this.restApiName = p?.restApiName ?? id; this.url = `https://${this.restApiId}/`; this.deploymentStage = { stageOf: id }; this.root = new Resource("/", this); this.stack = s; this.nextKey = 0; }
  addApiKey(id: string, options?: any) { record("apiKey", this.node.id, id, options); return { keyId: `key(${id})` }; }
  addUsagePlan(id: string, props: any) { record("usagePlan", this.node.id, id, props); return { addApiStage: (x: any) => { record("planStage", id, x.stage); }, addApiKey: (k: any) => { record("planKey", id, k.keyId); } }; }
  addModel(id: string, props: any) { record("model", this.node.id, id, props); return { modelId: `model(${id})` }; }
  addRequestValidator(id: string, props: any) { record("validator", this.node.id, id, props); return { requestValidatorId: `validator(${id})` }; }
}
// canaries
export const Test = { custom: (p: any) => value("test", p) };
export class CfnCanary extends Construct { vpcConfig: any; constructor(s: any, id: string, p: any) { super("CfnCanary", s, id, p); } }
export class Canary extends Construct {
  role: any; artifactsBucket: any; canaryName: any;
  constructor(s: any, id: string, p: any) { super("Canary", s, id, p); this.role = p.role; this.canaryName = p.canaryName; this.artifactsBucket = { grantWrite: (to: any) => { record("grantWrite", `artifacts(${id})`, to); } }; this.node.defaultChild = new CfnCanary(this, "Resource", {}); }
  metricSuccessPercent(p?: any) { return new Metric("SuccessPercent", this, p); }
}

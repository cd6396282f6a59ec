// Queues with their dead letter handling.
import { spec, str, int, bool, err, opt, or, lit, tuple, obj, oneOf, arr, fn, record, runCode, opaqueFn, same, advance } from "vf";
import { stackOf, made, recorded, alarms, distinct, WARNING } from "./infra.ts";
import { Aws, Queue, Duration, Resource, secretOf } from "./mocks/cdk.ts";
import { DigitrafficSqsQueue, DigitrafficDLQueue } from "repo:lib/digitraffic-common/src/aws/infra/sqs-queue.ts";
import { sanitizeS3BucketName, getDlqCode } from "repo:lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts";
import { attachQueueToApiGatewayResource } from "repo:lib/digitraffic-common/src/aws/infra/sqs-integration.ts";
export const mocks = { "@aws-sdk/client-s3": "./mocks/aws-client.ts" };
const bucketNameOf = opaqueFn("bucketName");
const contracts = { "lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts#sanitizeS3BucketName": (n: any) => bucketNameOf(n) };
const given = obj({ visibility: opt(int(1, 3600)), own: bool(), encryption: opt(oneOf("NONE", "KMS", "MANAGED")), queueName: opt(str()), retries: int(1) });
const names = { shortName: str({ min: 1 }), name: str({ min: 1 }), production: bool() };
const props = (g: any) => ({ visibilityTimeout: g.visibility === undefined ? undefined : Duration.seconds(g.visibility), encryption: g.encryption, queueName: g.queueName, deadLetterQueue: g.own ? { queue: "mine", maxReceiveCount: g.retries } : undefined });
const queues = (r: any) => made(r, "Queue");
// what happens with messages in a dead letter queue
const handled = (r: any, dlq: any, o: any) => {
  const [bucket] = made(r, "Bucket"), [fn] = made(r, "Function"), [log] = made(r, "LogGroup");
  const policies = recorded(r, "functionPolicy"), sources = recorded(r, "eventSource");
  const alarm = alarms(r).filter((a: any) => a.of === dlq.it);
  return made(r, "Bucket").length === 1 && bucket.props.blockPublicAccess === "BLOCK_ALL" && bucket.props.bucketName === sanitizeS3BucketName(`TheStack-${o.shortName}-${o.name}-DLQ`)
    && made(r, "Function").length === 1 && sources.length === 1 && sources[0][0] === fn.id && sources[0][1] === dlq.it && fn.props.logGroup === log.it && fn.props.handler === "index.handler"
    && policies.length === 1 && policies[0][0] === fn.id && policies[0][1].effect === "Allow" && same([...policies[0][1].actions].sort(), ["s3:PutObject", "s3:PutObjectAcl"]) && same(policies[0][1].resources, [`${bucket.it.bucketArn}/*`])
    && alarm.length === 1 && alarm[0].metric === "NumberOfMessagesReceived" && alarm[0].threshold === 0 && alarm[0].comparisonOperator === "GreaterThanThreshold" && alarm[0].treatMissingData === "notBreaching" && same(alarm[0].to, [WARNING]);
};
export const standard = spec({
  target: "DigitrafficSqsQueue.create",
  inputs: { ...names, given },
  contracts,
  requires: (i) => distinct([`${i.name}-Queue`, `${i.name}-DLQ`]),
  call: (i) => DigitrafficSqsQueue.create(stackOf({ shortName: i.shortName, production: i.production }), i.name, props(i.given) as any),
  ensures: {
    encrypted: (o, r) => r.ok && queues(r).every((q: any) => q.props.encryption === "MANAGED"),
    queue: (o, r) => { const q = queues(r).find((x: any) => x.it === r.value); return q.id === `${o.shortName}-${o.name}-Queue` && q.props.queueName === q.id && (o.given.visibility === undefined ? q.props.visibilityTimeout === undefined : q.props.visibilityTimeout.toSeconds() === o.given.visibility); },
    ownDeadLetters: (o, r) => !o.given.own || (queues(r).length === 1 && same(queues(r)[0].props.deadLetterQueue, { queue: "mine", maxReceiveCount: o.given.retries }) && made(r, "Bucket").length === 0),
    deadLetters: (o, r) => {
      if (o.given.own) return true;
      const dlq = queues(r).find((x: any) => x.it !== r.value), q = queues(r).find((x: any) => x.it === r.value);
      return queues(r).length === 2 && q.props.deadLetterQueue.maxReceiveCount === 2 && q.props.deadLetterQueue.queue === dlq.it && dlq.props.queueName === `${o.shortName}-${o.name}-DLQ` && dlq.props.deadLetterQueue === undefined && handled(r, dlq, o);
    },
  },
});
export const fifo = spec({
  target: "DigitrafficSqsQueue.createFifo",
  inputs: { ...names, given },
  call: (i) => DigitrafficSqsQueue.createFifo(stackOf({ shortName: i.shortName, production: i.production }), i.name, props(i.given) as any),
  ensures: {
    queue: (o, r) => r.ok && queues(r).length === 1 && queues(r)[0].it === r.value && queues(r)[0].props.encryption === "MANAGED" && queues(r)[0].props.queueName === `${o.shortName}-${o.name}-Queue.fifo`,
    noDeadLetters: (o, r) => made(r, "Bucket").length === 0 && made(r, "Function").length === 0 && same(queues(r)[0].props.deadLetterQueue, props(o.given).deadLetterQueue),
  },
});
export const deadLetter = spec({
  target: "DigitrafficDLQueue.create",
  inputs: names,
  contracts,
  call: (i) => DigitrafficDLQueue.create(stackOf({ shortName: i.shortName, production: i.production }), i.name),
  ensures: { handled: (o, r) => r.ok && queues(r).length === 1 && queues(r)[0].it === r.value && queues(r)[0].props.encryption === "MANAGED" && handled(r, queues(r)[0], o) },
});
// names of buckets: letters, digits and single hyphens inside, at most 63 long, cut ones told apart
const part = or(lit(""), lit("a"), lit("Z9"), lit("-"), lit("--_"), lit("ä"), lit("x".repeat(30)), lit("y".repeat(54)));
const tidy = (s: string) => s.toLowerCase().replace(/[^a-z0-9]+/g, "-").replace(/^-|-$/g, "");
export const bucketName = spec({
  target: "sanitizeS3BucketName",
  bounded: "names made of three of eight pieces",
  inputs: { parts: tuple(part, part, part) },
  call: (i) => sanitizeS3BucketName(i.parts.join("")),
  ensures: {
    valid: (o, r) => r.ok && /^([a-z0-9](-?[a-z0-9])*)?$/.test(r.value) && r.value.length <= 63,
    kept: (o, r) => { const clean = tidy(o.parts.join("")); return clean.length <= 63 ? r.value === clean : clean.startsWith(r.value.slice(0, -9)) && r.value.length >= 62 && r.value.length <= 63; },
    toldApart: (o, r) => { const other = sanitizeS3BucketName(o.parts.join("") + "!?"), clean = tidy(o.parts.join("")); return clean.length <= 63 || other !== r.value; },
  },
});
// the program that empties the dead letter queue, run as it is written into the template
class Put { constructor(public input: any) {} }
export const program = spec({
  target: "getDlqCode",
  inputs: { bodies: arr(str()), fails: fn(bool(), { throws: err({ message: str() }) }), a: int(0), b: int(0) },
  call: async (i) => {
    class Client { async send(c: any) { record("put", c.input); return i.fails(c.input.Body); } }
    const code = getDlqCode("the-bucket") as any;
    const lambda = runCode(code.code, { require: (m: string) => (m === "@aws-sdk/client-s3" ? { PutObjectCommand: Put, S3Client: Client } : undefined), process: { env: { AWS_LAMBDA_FUNCTION_NAME: "dlq" }, stdout: { write: (x: string) => { record("log", x); } } } });
    await lambda.handler({ Records: i.bodies.map((body: string) => ({ body })) });
  },
  ensures: {
    kept: (o, r) => r.ok && recorded(r, "put").length === o.bodies.length && recorded(r, "put").every(([p]: any, n: number) => p.Bucket === "the-bucket" && p.Body === o.bodies[n]),
    apart: (o, r) => { const puts = recorded(r, "put"); return o.a >= o.b || o.b >= puts.length || puts[o.a][0].Key !== puts[o.b][0].Key; },
    told: (o, r) => recorded(r, "log").every(([x]: any) => { const m = JSON.parse(x); return m.level === "ERROR" && m.lambdaName === "dlq" && m.message.includes("the-bucket"); }),
  },
});
const lambdaOf = (send: (c: any) => any) => runCode((getDlqCode("the-bucket") as any).code, { require: (m: string) => (m === "@aws-sdk/client-s3" ? { PutObjectCommand: Put, S3Client: class { async send(c: any) { record("put", c.input); return send(c); } } } : undefined), process: { env: { AWS_LAMBDA_FUNCTION_NAME: "dlq" }, stdout: { write: (x: string) => { record("log", x); } } } });
export const failures = spec({
  target: "getDlqCode", bounded: "at most three messages in a batch",
  inputs: { batch: or(tuple(), tuple(bool()), tuple(bool(), bool()), tuple(bool(), bool(), bool())) },
  call: async (i) => { const lambda = lambdaOf((c: any) => { if (c.input.Body === "bad") throw new Error("no"); }); await lambda.handler({ Records: i.batch.map((bad: boolean) => ({ body: bad ? "bad" : "good" })) }); },
  ensures: { eachTold: (o, r) => r.ok && recorded(r, "put").length === o.batch.length && recorded(r, "log").length === o.batch.filter((bad: boolean) => bad).length },
});
export const batches = spec({
  target: "getDlqCode", bounded: "two batches of two messages",
  inputs: { later: int(1) },
  call: async (i) => { const lambda = lambdaOf(() => undefined); const batch = { Records: [{ body: "a" }, { body: "b" }] }; await lambda.handler(batch); advance(i.later); await lambda.handler(batch); },
  ensures: { nothingOverwritten: (o, r) => r.ok && recorded(r, "put").length === 4 && distinct(recorded(r, "put").map(([p]: any) => p.Key)) },
});
export const integration = spec({
  target: "attachQueueToApiGatewayResource",
  inputs: { fifo: bool(), resource: str(), keyRequired: bool(), models: bool() },
  call: (i) => { const stack = stackOf({}); const queue = new Queue(stack, "Q", { fifo: i.fifo, queueName: "the-queue" }); attachQueueToApiGatewayResource(stack, queue as any, new Resource("/in", undefined) as any, "validator" as any, i.resource, i.keyRequired, i.models ? ({ "application/json": "model" } as any) : undefined); return queue; },
  ensures: {
    method: (o, r) => {
      const ms = recorded(r, "method");
      if (!r.ok || ms.length !== 1) return false;
      const [path, method, integration, options] = ms[0];
      return path === "/in" && method === "POST" && options.requestValidator === "validator" && options.apiKeyRequired === o.keyRequired && same(options.requestModels, o.models ? { "application/json": "model" } : {}) && same(options.methodResponses.map((x: any) => x.statusCode).sort(), ["200", "500"]);
    },
    integration: (o, r) => {
      const p = recorded(r, "method")[0][2].props, t = p.options.requestTemplates["application/json"];
      return p.service === "sqs" && p.integrationHttpMethod === "POST" && p.path === `${Aws.ACCOUNT_ID}/${r.value.queueName}` && p.options.passthroughBehavior === "NEVER" && same(Object.keys(p.options.requestTemplates), ["application/json"])
        && t.startsWith("Action=SendMessage&") && t.includes("MessageBody=$util.urlEncode($input.body)") && t.includes("MessageGroupId=") === o.fifo
        && p.options.requestParameters["integration.request.header.Content-Type"] === "'application/x-www-form-urlencoded'"
        && p.options.integrationResponses.some((x: any) => x.statusCode === "200" && x.selectionPattern === undefined) && p.options.integrationResponses.some((x: any) => x.statusCode === "500" && x.selectionPattern === "500");
    },
    rights: (o, r) => {
      const [role] = made(r, "Role"), policies = recorded(r, "rolePolicy");
      return made(r, "Role").length === 1 && role.props.assumedBy.name === "apigateway.amazonaws.com" && recorded(r, "method")[0][2].props.options.credentialsRole === role.it && policies.every((p: any) => p[0] === role.id && p[1].effect === "Allow")
        && policies.filter((p: any) => p[1].actions.some((a: string) => a.startsWith("sqs:") || a === "*")).every((p: any) => same(p[1].actions, ["sqs:SendMessage"]) && same(p[1].resources, [r.value.queueArn]))
        && policies.some((p: any) => same(p[1].actions, ["sqs:SendMessage"])) && policies.every((p: any) => p[1].actions.every((a: string) => a.startsWith("sqs:") || a.startsWith("logs:")));
    },
  },
});

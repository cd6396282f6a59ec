// Uploads, notifications and API keys.
import { spec, str, num, int, bool, opt, or, lit, tuple, obj, err, oneOf, same } from "vf";
import { control as http } from "./mocks/ky.ts";
import { control as aws, S3Client } from "./mocks/aws-client.ts";
import { uploadToS3 } from "repo:lib/digitraffic-common/src/aws/runtime/s3.ts";
import { getApiKeyFromAPIGateway } from "repo:lib/digitraffic-common/src/aws/runtime/apikey.ts";
import { SlackApi } from "repo:lib/digitraffic-common/src/utils/slack.ts";
export const mocks = { ky: "./mocks/ky.ts", "@aws-sdk/client-s3": "./mocks/aws-client.ts", "@aws-sdk/client-api-gateway": "./mocks/aws-client.ts", "@smithy/fetch-http-handler": "./mocks/aws-client.ts" };
const thrown = or(err(), str(), lit(null), lit(undefined), obj({ code: num() }));
const outcome = or(obj({ value: or(lit(undefined), obj({ id: str(), value: opt(str()) })) }), obj({ error: thrown }));
const serve = (x: any, o: any) => { x.answer = () => { if ("error" in o) throw o.error; return o.value; }; };
const calls = (r: any) => r.trace.filter((e: any) => !e.name.startsWith("log."));
const errors = (r: any) => r.trace.filter((e: any) => e.name === "log.error");
export const upload = spec({
  target: "uploadToS3",
  inputs: { bucket: str(), key: str(), body: or(str(), lit(undefined)), acl: opt(oneOf("private", "public-read")), type: opt(str()), outcome },
  call: (i) => { serve(aws, i.outcome); return uploadToS3(new S3Client() as any, i.bucket, i.body as any, i.key, i.acl as any, i.type); },
  ensures: {
    neverThrows: (o, r) => r.ok && r.value === undefined,
    once: (o, r) => calls(r).length === 1 && calls(r)[0].name === "aws.PutObject" && same(calls(r)[0].args[0], { Bucket: o.bucket, Key: o.key, Body: o.body, ACL: o.acl, ContentType: o.type }),
    reported: (o, r) => ("error" in o.outcome ? errors(r).length === 1 && errors(r)[0].args[0].message.includes(o.bucket) : r.trace.length === 1),
  },
});
export const notify = spec({
  target: "SlackApi.notify",
  inputs: { url: str(), texts: or(tuple(str()), tuple(str(), str())), outcome },
  call: async (i) => { serve(http, i.outcome); const s = new SlackApi(i.url); for (const t of i.texts) await s.notify(t); },
  ensures: {
    neverThrows: (o, r) => r.ok && r.value === undefined,
    posts: (o, r) => calls(r).length === o.texts.length && calls(r).every((c: any, n: number) => c.name === "http.post" && c.args[0] === o.url && same(c.args[1].json, { text: o.texts[n] })),
    reported: (o, r) => errors(r).length === ("error" in o.outcome ? o.texts.length : 0),
    withTheReason: (o, r, i) => !("error" in i.outcome) || !((i.outcome as any).error instanceof Error) || errors(r).every((e: any) => e.args[0].message.includes((i.outcome as any).error.message)),
  },
});
export const apiKey = spec({
  target: "getApiKeyFromAPIGateway",
  inputs: { id: str(), outcome },
  call: (i) => { serve(aws, i.outcome); return getApiKeyFromAPIGateway(i.id); },
  ensures: {
    outcome: (o, r, i) => ("error" in i.outcome ? !r.ok && r.error === i.outcome.error : r.ok && same(r.value, (o.outcome as any).value)),
    once: (o, r) => calls(r).length === 1 && calls(r)[0].name === "aws.GetApiKey" && same(calls(r)[0].args[0], { apiKey: o.id, includeValue: true }),
  },
});

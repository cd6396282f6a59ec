// Responses of handlers: body, status, headers, entity tag, compression and the payload limit.
import { spec, str, num, int, bool, opt, or, lit, date, arr, obj, oneOf, json, dict, same, implies, run, byteLength, opaqueFn } from "vf";
import etag from "etag";
import { LambdaResponse, LambdaResponseBuilder } from "repo:lib/digitraffic-common/src/aws/types/lambda-response.ts";
import { LambdaProxyResponseBuilder } from "repo:lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts";
import { compressBuffer, decodeBase64ToUtf8 } from "repo:lib/digitraffic-common/src/utils/base64.ts";
const LIMIT = 6 * 1024 * 1024;
const b64 = (s: string) => Buffer.from(s, "utf8").toString("base64");
const content = or(str({ min: 1 }), obj({ a: str(), n: num() }), arr(str()));
const textOf = (b: any) => (typeof b === "string" ? b : JSON.stringify(b));
const instant = date({ min: 0, max: 4102444800000 });
const when = or(lit(undefined), instant, str());
const utc = (t: any) => (t === undefined ? undefined : typeof t === "string" ? new Date(t).toUTCString() : t.toUTCString());
const plain = (r: any) => JSON.parse(JSON.stringify(r));
const tooLarge = "Response too large. Limit response size with parameters.";

const shortened = opaqueFn("shortened");
const logging = { "lib/digitraffic-common/src/utils/logging.ts#truncateMiddle": (s: string, max: number) => shortened(s, String(max)) };
export const built = spec({
  target: "LambdaResponseBuilder.build",
  inputs: { body: content, file: opt(str()), status: opt(int(100, 599)), t: opt(instant), debug: opt(bool()) },
  contracts: logging,
  call: (i) => {
    const b = LambdaResponseBuilder.create(i.body);
    if (i.file !== undefined) b.withFileName(i.file);
    if (i.status !== undefined) b.withStatus(i.status);
    b.withTimestamp(i.t as any);
    if (i.debug !== undefined) b.withDebug(i.debug);
    return b.build();
  },
  ensures: {
    response: (o, r) => {
      const expected = { status: o.status ?? 200, body: b64(textOf(o.body)), fileName: o.file, timestamp: utc(o.t), etag: etag(textOf(o.body)) };
      const fits = byteLength(JSON.stringify(expected)) <= LIMIT;
      return r.ok && same(plain(r.value), fits ? expected : { status: 400, body: b64(tooLarge), etag: etag(tooLarge) });
    },
    logsOnlyWhenAsked: (o, r) => implies(o.debug !== true, () => r.trace.length === 0),
  },
});
export const timestamps = spec({
  target: ["LambdaResponseBuilder.withTimestamp", "LambdaProxyResponseBuilder.withTimestamp"], contracts: logging,
  inputs: { body: str({ min: 1, max: 1000 }), t: when },
  call: (i) => [LambdaResponseBuilder.create(i.body).withTimestamp(i.t as any).build(), LambdaProxyResponseBuilder.create(i.body).withTimestamp(i.t as any).build()],
  ensures: { httpDate: (o, r) => r.ok && implies(r.value[0].status === 200, () => r.value[0].timestamp === utc(o.t)) && implies(r.value[1].statusCode === 200, () => r.value[1].headers["Last-Modified"] === utc(o.t)) },
});
export const atTheLimit = spec({
  target: "LambdaResponseBuilder.build", runs: 15, contracts: logging,
  inputs: { n: int(4718420, 4718520) },
  call: (i) => LambdaResponseBuilder.create("x".repeat(i.n)).build(),
  ensures: {
    limit: (o, r) => {
      const body = "x".repeat(o.n), expected = { status: 200, body: b64(body), etag: etag(body) };
      return r.ok && same(plain(r.value), byteLength(JSON.stringify(expected)) <= LIMIT ? expected : { status: 400, body: b64(tooLarge), etag: etag(tooLarge) });
    },
  },
});
export const noBody = spec({
  target: ["LambdaResponseBuilder.build", "LambdaProxyResponseBuilder.build"],
  inputs: { status: int(100, 599), empty: bool() },
  requires: (o) => o.status !== 204 && o.status !== 301 && o.status !== 302 && o.status !== 303 && o.status !== 307 && o.status !== 308,
  call: (i) => [run(() => (i.empty ? LambdaResponseBuilder.create("") : LambdaResponseBuilder.create()).withStatus(i.status).build()).ok, run(() => (i.empty ? LambdaProxyResponseBuilder.create("") : LambdaProxyResponseBuilder.create()).withStatus(i.status).build()).ok],
  ensures: { refused: (o, r) => r.ok && same(r.value, [false, false]) },
});
export const noContent = spec({ // and is not needed by answers that have none
  target: "LambdaProxyResponseBuilder.build",
  inputs: { status: or(lit(204), lit(301), lit(302), lit(303), lit(307), lit(308)) },
  call: (i) => LambdaProxyResponseBuilder.create().withStatus(i.status).build(),
  ensures: { empty: (o, r) => r.ok && r.value.statusCode === o.status && r.value.body === "" && r.value.isBase64Encoded === false },
});
const statuses: any = { internalError: [500, "Internal Error"], notImplemented: [501, "Not Implemented"], badRequest: [400, "Bad Request"], notFound: [404, "Not Found"], unauthorized: [401, "Unauthorized"], contentTooLarge: [413, "Content Too Large"] };
export const builderErrors = spec({
  target: "LambdaResponseBuilder.badRequest", contracts: logging,
  inputs: { text: opt(str({ min: 1, max: 1000 })) },
  call: (i) => ["internalError", "notImplemented", "badRequest", "notFound", "unauthorized"].map((k) => [k, (LambdaResponseBuilder as any)[k](i.text)]),
  ensures: { each: (o, r) => r.ok && r.value.every(([k, x]: any) => { const text = o.text ?? statuses[k][1]; const expected = { status: statuses[k][0], body: b64(text), etag: etag(text) }; return same(plain(x), byteLength(JSON.stringify(expected)) <= LIMIT ? expected : { status: 400, body: b64(tooLarge), etag: etag(tooLarge) }); }) },
});
export const response = spec({ // bodies are kept in base64; the entity tag is that of the kept body
  target: ["LambdaResponse.ok", "LambdaResponse.okJson", "LambdaResponse.okBinary", "LambdaResponse.badRequest"],
  inputs: { text: str(), file: opt(str()), j: or(obj({ a: str() }), arr(num()), lit(null)), t: date({ min: 0, max: 4102444800000 }), error: opt(str()) },
  call: (i) => ({
    ok: LambdaResponse.ok(i.text, i.file), json: LambdaResponse.okJson(i.j, i.file), binary: LambdaResponse.okBinary(i.text, i.file), later: LambdaResponse.ok(i.text, i.file).withTimestamp(i.t),
    errors: ["internalError", "notImplemented", "badRequest", "notFound", "unauthorized", "contentTooLarge"].map((k) => [k, (LambdaResponse as any)[k](i.error)]),
  }),
  ensures: {
    ok: (o, r) => r.ok && same(plain(r.value.ok), { status: 200, body: b64(o.text), fileName: o.file, etag: etag(b64(o.text)) }),
    json: (o, r) => same(plain(r.value.json), { status: 200, body: b64(JSON.stringify(o.j)), fileName: o.file, etag: etag(b64(JSON.stringify(o.j))) }),
    binary: (o, r) => same(plain(r.value.binary), { status: 200, body: o.text, fileName: o.file, etag: etag(o.text) }),
    timestamp: (o, r) => same(plain(r.value.later), { status: 200, body: b64(o.text), fileName: o.file, timestamp: o.t.toUTCString(), etag: etag(b64(o.text)) }),
    errors: (o, r) => r.value.errors.every(([k, x]: any) => { const text = o.error ?? statuses[k][1]; return same(plain(x), { status: statuses[k][0], body: b64(text), etag: etag(b64(text)) }); }),
  },
});
// responses of proxy handlers
const media = oneOf("application/json", "text/plain", "application/geo+json;charset=UTF-8");
const tooLargeProxy = { statusCode: 400, headers: { "Content-Type": "text/plain", ETag: etag(tooLarge) }, body: tooLarge, isBase64Encoded: false };
const limited = (x: any) => (byteLength(JSON.stringify(x)) <= LIMIT ? x : tooLargeProxy);
const proxyResponse = (o: any) => limited(plain({ statusCode: o.status ?? 200, headers: { "Content-Type": o.type ?? "application/json", "Content-Disposition": o.file ? `attachment; filename="${o.file}"` : undefined, Location: o.location ? o.location : undefined, "Last-Modified": utc(o.t), ETag: etag(textOf(o.body)) }, body: textOf(o.body), isBase64Encoded: false }));
export const proxied = spec({
  target: "LambdaProxyResponseBuilder.build", contracts: logging,
  inputs: { body: content, t: opt(instant) },
  call: (i) => LambdaProxyResponseBuilder.create(i.body).withTimestamp(i.t as any).build(),
  ensures: { response: (o, r) => r.ok && same(plain(r.value), proxyResponse(o)), quiet: (o, r) => r.trace.length === 0 },
});
export const proxiedStatus = spec({
  target: "LambdaProxyResponseBuilder.build", contracts: logging,
  inputs: { body: or(str({ min: 1 }), obj({ a: str() })), status: int(100, 599), type: opt(media) },
  call: (i) => {
    const b = LambdaProxyResponseBuilder.create(i.body).withStatus(i.status);
    if (i.type !== undefined) b.withContentType(i.type as any);
    return b.build();
  },
  ensures: { response: (o, r) => r.ok && same(plain(r.value), proxyResponse(o)), quiet: (o, r) => r.trace.length === 0 },
});
export const proxiedFile = spec({
  target: "LambdaProxyResponseBuilder.build", contracts: logging,
  inputs: { body: str({ min: 1 }), file: opt(str()), location: opt(str()), debug: bool() },
  call: (i) => {
    const b = LambdaProxyResponseBuilder.create().withBody(i.body).withDebug(i.debug);
    if (i.file !== undefined) b.withFileName(i.file);
    if (i.location !== undefined) b.withLocation(i.location);
    return b.build();
  },
  ensures: { response: (o, r) => r.ok && same(plain(r.value), proxyResponse(o)), logged: (o, r) => (o.debug ? r.trace.length > 0 : r.trace.length === 0) },
});
export const compressed = spec({
  target: "LambdaProxyResponseBuilder.build", contracts: logging,
  inputs: { body: or(content, lit("compressible ".repeat(40))), debug: opt(bool()) },
  call: (i) => { const b = LambdaProxyResponseBuilder.create(i.body).withCompression(); if (i.debug !== undefined) b.withDebug(i.debug); return b.build(); },
  ensures: {
    sameContent: (o, r) => implies(r.value.statusCode === 200, () => r.ok && (r.value.isBase64Encoded ? decodeBase64ToUtf8(r.value.body, true) : r.value.body) === textOf(o.body)),
    declared: (o, r) => r.value.isBase64Encoded === (r.value.headers["Content-Encoding"] === "gzip") && (r.value.headers["Content-Encoding"] === "gzip" || r.value.headers["Content-Encoding"] === undefined),
    tag: (o, r) => r.value.headers.ETag === (r.value.statusCode === 200 ? etag(textOf(o.body)) : etag(tooLarge)),
    whenSmaller: (o, r) => implies(r.value.statusCode === 200, () => r.value.isBase64Encoded === (byteLength(compressBuffer(Buffer.from(textOf(o.body), "utf8")).toString("base64")) < byteLength(b64(textOf(o.body))))),
    neverLarger: (o, r) => implies(r.value.statusCode === 200 && r.value.isBase64Encoded, () => byteLength(r.value.body) < byteLength(b64(textOf(o.body)))),
  },
});
export const encoded = spec({
  target: "LambdaProxyResponseBuilder.withBody", contracts: logging,
  inputs: { text: str({ min: 1 }), later: bool() },
  call: (i) => ({ r: LambdaProxyResponseBuilder.create(b64(i.text), true).withCompression(false).build(), c: run(() => LambdaProxyResponseBuilder.create(b64(i.text), true).withCompression()).ok, o: run(() => LambdaProxyResponseBuilder.create({ a: 1 }, true)).ok }),
  ensures: {
    asGiven: (o, r) => r.ok && same(plain(r.value.r), limited({ statusCode: 200, headers: { "Content-Type": "application/json", ETag: etag(o.text) }, body: b64(o.text), isBase64Encoded: true })),
    refusals: (o, r) => r.value.c === false && r.value.o === false,
  },
});
export const redirect = spec({
  target: "LambdaProxyResponseBuilder.redirect", contracts: logging,
  inputs: { path: str({ min: 1, max: 2000 }), status: opt(oneOf(301, 302, 303, 307, 308)) },
  call: (i) => LambdaProxyResponseBuilder.redirect(i.path, i.status as any),
  ensures: { location: (o, r) => r.ok && same(plain(r.value), limited({ statusCode: o.status ?? 302, headers: { "Content-Type": "application/json", Location: o.path, ETag: etag("") }, body: "", isBase64Encoded: false })) },
});
export const proxyErrors = spec({
  target: "LambdaProxyResponseBuilder.badRequest", contracts: logging,
  inputs: { e: opt(or(str({ min: 1, max: 1000 }), obj({ code: num(), why: str({ max: 1000 }) }))) },
  call: (i) => ["internalError", "notImplemented", "badRequest", "notFound", "unauthorized"].map((k) => [k, (LambdaProxyResponseBuilder as any)[k](i.e)]),
  ensures: { each: (o, r) => r.ok && r.value.every(([k, x]: any) => { const e = o.e ?? statuses[k][1]; return same(plain(x), limited({ statusCode: statuses[k][0], headers: { "Content-Type": typeof e === "string" ? "text/plain" : "application/json", ETag: etag(textOf(e)) }, body: textOf(e), isBase64Encoded: false })); }) },
});

// Texts as parameters and payloads: base64, compression, parameter schemas.
import { spec, str, num, int, bool, opt, or, lit, json, oneOf, nullable, date, same, implies } from "vf";
import { encodeBase64, decodeBase64, encodeAsciiToBase64, decodeBase64ToAscii, encodeUtf8ToBase64, decodeBase64ToUtf8, compressBuffer } from "repo:lib/digitraffic-common/src/utils/base64.ts";
import { zStringToNumber, zStringToDate, zNonEmptyString } from "repo:lib/digitraffic-common/src/utils/zod-utils.ts";

export const utf8 = spec({
  target: ["encodeUtf8ToBase64", "decodeBase64ToUtf8", "encodeBase64", "decodeBase64"],
  inputs: { s: str() },
  call: (i) => ({ text: encodeUtf8ToBase64(i.s), same: encodeBase64(i.s, "utf8"), back: decodeBase64ToUtf8(encodeUtf8ToBase64(i.s)), back2: decodeBase64(encodeBase64(i.s, "utf8"), "utf8") }),
  ensures: {
    encoding: (o, r) => r.ok && r.value.text === Buffer.from(o.s, "utf8").toString("base64") && r.value.same === r.value.text,
    roundTrip: (o, r) => r.value.back === o.s && r.value.back2 === o.s,
  },
});
export const ascii = spec({
  target: ["encodeAsciiToBase64", "decodeBase64ToAscii"],
  inputs: { s: str({ re: /^[ -~]*$/ }) },
  call: (i) => ({ text: encodeAsciiToBase64(i.s), back: decodeBase64ToAscii(encodeAsciiToBase64(i.s)) }),
  ensures: { encoding: (o, r) => r.ok && r.value.text === Buffer.from(o.s, "utf8").toString("base64"), roundTrip: (o, r) => r.value.back === o.s },
});
export const encodings = spec({ // any text, also one the encoding cannot express
  target: ["encodeBase64", "decodeBase64", "encodeAsciiToBase64", "decodeBase64ToAscii"],
  inputs: { s: str() },
  call: (i) => [encodeAsciiToBase64(i.s), encodeBase64(i.s, "ascii"), encodeBase64(i.s, "hex"), encodeBase64(i.s, "base64"), decodeBase64ToAscii(i.s), decodeBase64(i.s, "ascii"), decodeBase64(i.s, "base64")],
  ensures: {
    encoding: (o, r) => r.ok && r.value[0] === Buffer.from(o.s, "ascii").toString("base64") && r.value[1] === r.value[0] && r.value[2] === Buffer.from(o.s, "hex").toString("base64") && r.value[3] === Buffer.from(o.s, "base64").toString("base64"),
    decoding: (o, r) => r.value[4] === Buffer.from(o.s, "base64").toString("ascii") && r.value[5] === r.value[4] && r.value[6] === Buffer.from(o.s, "base64").toString("base64"),
  },
});
export const decode = spec({
  target: ["decodeBase64ToUtf8", "decodeBase64"],
  inputs: { s: str() },
  call: (i) => ({ plain: decodeBase64ToUtf8(i.s), no: decodeBase64ToUtf8(i.s, false), utf8: decodeBase64(i.s, "utf8"), hex: decodeBase64(i.s, "hex") }),
  ensures: { meaning: (o, r) => r.ok && r.value.plain === Buffer.from(o.s, "base64").toString("utf8") && r.value.no === r.value.plain && r.value.utf8 === r.value.plain && r.value.hex === Buffer.from(o.s, "base64").toString("hex") },
});
export const compressed = spec({
  target: ["compressBuffer", "decodeBase64ToUtf8"],
  inputs: { s: str() },
  call: (i) => decodeBase64ToUtf8(compressBuffer(Buffer.from(i.s)).toString("base64"), true),
  ensures: { roundTrip: (o, r) => r.ok && r.value === o.s },
});

const message = opt(str({ min: 1 }));
export const toNumber = spec({
  target: "zStringToNumber",
  inputs: { s: or(str(), str({ re: /^-?\d{1,6}(\.\d{1,3})?$/ })), m: message },
  call: (i) => zStringToNumber(i.m).safeParse(i.s) as any,
  ensures: {
    emptyIsUndefined: (o, r) => implies(o.s === "", () => r.ok && r.value.success === true && r.value.data === undefined),
    number: (o, r) => implies(o.s !== "" && !Number.isNaN(Number(o.s)), () => r.ok && r.value.success === true && same(r.value.data, Number(o.s))),
    refused: (o, r) => implies(o.s !== "" && Number.isNaN(Number(o.s)), () => r.ok && r.value.success === false && r.value.error.issues.length === 1 && (o.m === undefined || r.value.error.issues[0].message === o.m)),
  },
});
export const toDate = spec({
  target: "zStringToDate",
  inputs: { s: or(str(), str({ re: /^20\d\d-0[1-9]-[12]\dT1\d:[0-5]\d:[0-5]\dZ$/ })), m: message },
  call: (i) => zStringToDate(i.m).safeParse(i.s) as any,
  ensures: {
    emptyIsUndefined: (o, r) => implies(o.s === "", () => r.ok && r.value.success === true && r.value.data === undefined),
    date: (o, r) => implies(o.s !== "" && !Number.isNaN(new Date(o.s).getTime()), () => r.ok && r.value.success === true && r.value.data.getTime() === new Date(o.s).getTime()),
    refused: (o, r) => implies(o.s !== "" && Number.isNaN(new Date(o.s).getTime()), () => r.ok && r.value.success === false && r.value.error.issues.length === 1 && (o.m === undefined || r.value.error.issues[0].message === o.m)),
  },
});
export const nonEmpty = spec({
  target: "zNonEmptyString",
  inputs: { s: str(), m: message },
  call: (i) => zNonEmptyString(i.m).safeParse(i.s) as any,
  ensures: {
    kept: (o, r) => implies(o.s !== "", () => r.ok && r.value.success === true && r.value.data === o.s),
    refused: (o, r) => implies(o.s === "", () => r.ok && r.value.success === false && r.value.error.issues.length === 1 && (o.m === undefined || r.value.error.issues[0].message === o.m)),
  },
});
export const notText = spec({
  target: ["zStringToNumber", "zStringToDate", "zNonEmptyString"],
  inputs: { v: or(num(), bool(), lit(null), lit(undefined), date()) },
  call: (i) => [zStringToNumber().safeParse(i.v).success, zStringToDate().safeParse(i.v).success, zNonEmptyString().safeParse(i.v).success, zStringToNumber().optional().safeParse(undefined).success],
  ensures: { refused: (o, r) => r.ok && same(r.value, [false, false, false, true]) },
});

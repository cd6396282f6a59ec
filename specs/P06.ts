// Dates and maritime identifiers.
import { spec, str, num, int, anynum, date, oneOf, or, tuple, lit, same, implies } from "vf";
import { EPOCH, MYSQL_DATETIME_FORMAT, countDiffMs, countDiffInSeconds, dateFromIsoString, dateToUTCString } from "repo:lib/digitraffic-common/src/utils/date-utils.ts";
import { isValidIMO, isValidMMSI, isValidLOCODE } from "repo:lib/digitraffic-common/src/marine/id_utils.ts";
import { validateYear, validateMonth } from "repo:lib/digitraffic-common/src/types/validator.ts";
export const tz = "Asia/Tokyo"; // the zone of the machine must not matter

export const diff = spec({
  target: ["countDiffMs", "countDiffInSeconds"],
  inputs: { a: date(), b: date() },
  call: (i) => [countDiffMs(i.a, i.b), countDiffInSeconds(i.a, i.b)],
  ensures: {
    milliseconds: (o, r) => r.ok && o.a.getTime() + r.value[0] === o.b.getTime(),
    seconds: (o, r) => same(r.value[1] * 1000, r.value[0]),
    untouched: (o, r, i) => same([i.a, i.b], [o.a, o.b]),
  },
});
export const epoch = spec({ target: "EPOCH", inputs: {}, call: () => EPOCH.getTime(), ensures: { zero: (o, r) => r.value === 0 } });
const isoText = /^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{3})?(Z|[+-]\d{2}:\d{2})$/;
export const fromIso = spec({
  target: "dateFromIsoString",
  inputs: { s: or(str(), str({ re: isoText })) },
  call: (i) => dateFromIsoString(i.s),
  ensures: {
    valid: (o, r) => implies(!Number.isNaN(new Date(o.s).getTime()), () => r.ok && r.value.getTime() === new Date(o.s).getTime()),
    invalid: (o, r) => implies(Number.isNaN(new Date(o.s).getTime()), () => !r.ok && r.error instanceof Error && r.error.message.includes(o.s)),
  },
});
export const isoRoundTrip = spec({ target: "dateFromIsoString", inputs: { d: date() }, call: (i) => dateFromIsoString(i.d.toISOString()), ensures: { sameInstant: (o, r) => r.ok && r.value.getTime() === o.d.getTime() } });
const cuts = (d: Date) => { const s = d.toISOString(); return { date: s.slice(0, 10), time: s.slice(11, 19), minutes: s.slice(11, 16), ms: s.slice(20, 23) }; };
export const utcText = spec({
  target: "dateToUTCString",
  inputs: { d: date({ min: 0, max: 4102444800000 }) },
  call: (i) => [dateToUTCString(i.d, MYSQL_DATETIME_FORMAT), dateToUTCString(i.d, "yyyy-MM-dd"), dateToUTCString(i.d, "HH:mm:ss.SSS"), dateToUTCString(i.d, "dd.MM.yyyy 'at' HH:mm"), dateToUTCString(i.d, "yyyy-MM-dd'T'HH:mm:ssXXX")],
  ensures: {
    mysql: (o, r) => r.ok && r.value[0] === cuts(o.d).date + " " + cuts(o.d).minutes,
    day: (o, r) => r.value[1] === cuts(o.d).date,
    time: (o, r) => r.value[2] === cuts(o.d).time + "." + cuts(o.d).ms,
    quoted: (o, r) => r.value[3] === o.d.toISOString().slice(8, 10) + "." + o.d.toISOString().slice(5, 7) + "." + o.d.toISOString().slice(0, 4) + " at " + cuts(o.d).minutes,
    offset: (o, r) => r.value[4] === cuts(o.d).date + "T" + cuts(o.d).time + "Z",
    untouched: (o, r, i) => same(i.d, o.d),
  },
});

// an IMO number: seven digits, the last being the check digit of the others
const d = int(0, 9);
export const imo = spec({
  target: "isValidIMO",
  inputs: { d: tuple(int(1, 9), d, d, d, d, d, d) },
  call: (i) => isValidIMO(i.d[0] * 1000000 + i.d[1] * 100000 + i.d[2] * 10000 + i.d[3] * 1000 + i.d[4] * 100 + i.d[5] * 10 + i.d[6]),
  ensures: { checkDigit: (o, r) => r.ok && r.value === ((7 * o.d[0] + 6 * o.d[1] + 5 * o.d[2] + 4 * o.d[3] + 3 * o.d[4] + 2 * o.d[5] - o.d[6]) % 10 === 0) },
});
export const imoValid = spec({ // every number accepted is one of the above
  target: "isValidIMO",
  inputs: { n: or(int(), anynum(), num(999998, 1000002), num(9999990, 10000002)) },
  requires: (o) => !Number.isInteger(o.n) || o.n < 1000000 || o.n > 9999999,
  call: (i) => isValidIMO(i.n),
  ensures: { refused: (o, r) => r.ok && r.value === false },
});
export const mmsi = spec({
  target: "isValidMMSI",
  inputs: { n: or(int(), anynum(), int(99999990, 100000010), int(999999990, 1000000010), num(100000000, 999999999)) },
  call: (i) => isValidMMSI(i.n),
  ensures: { nineDigits: (o, r) => r.ok && r.value === (Number.isInteger(o.n) && o.n >= 100000000 && o.n <= 999999999) },
});
export const locode = spec({
  target: "isValidLOCODE",
  inputs: { s: or(str(), str({ re: /^[FfSs][IiEe][A-Za-z0-9]{2,4}$/ }), str({ re: /^[\n ]?[Ff][Ii][A-Za-z]{3}[\n ]?[a-z]?$/ })) },
  call: (i) => isValidLOCODE(i.s),
  ensures: { finnish: (o, r) => r.ok && r.value === (o.s.length === 5 && /^[Ff][Ii][A-Za-z][A-Za-z][A-Za-z]$/.test(o.s)) },
});
export const year = spec({ target: "validateYear", inputs: { y: anynum(), lo: num(), hi: num() }, call: (i) => [validateYear(i.y), validateYear(i.y, i.lo, i.hi)], ensures: { default: (o, r) => r.value[0] === (o.y >= 1900 && o.y <= 2100), given: (o, r) => r.value[1] === (o.y >= o.lo && o.y <= o.hi) } });
export const month = spec({ target: "validateMonth", inputs: { m: or(int(-2, 15), int()) }, call: (i) => validateMonth(i.m), ensures: { calendar: (o, r) => r.value === (1 <= o.m && o.m <= 12) } });

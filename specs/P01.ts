// Retrying: bounded attempts, first success wins, predicate and back-off respected.
import { spec, str, int, num, anynum, bool, oneOf, opt, fn, obj, same, implies, record, advance, now, assume } from "vf";
import { retry, retryRecursive, retryRequest, RetryLogError, timeoutFunctions, retryPredicates } from "repo:lib/digitraffic-common/src/utils/retry.ts";
import { HttpError } from "repo:lib/digitraffic-common/src/types/http-error.ts";

// behaviour of the k-th attempt, of the predicate and of the back-off are arbitrary functions
const world = {
  outcome: fn(obj({ ok: bool(), value: str(), kind: oneOf("http", "error", "string"), message: str(), status: int(100, 599), slow: bool() })),
  pred: fn(bool()),
  wait: fn(int(-10, 5000)),
  hyp: fn(obj({ ok: bool(), value: str(), message: str(), attempts: int(1, 200), elapsed: int(0, 100000) }), { arity: 2 }),
};
const LIMIT = 30 * 60 * 1000;
let w: any;
let attempt = 0;
const failure = (o: any) => (o.kind === "http" ? new HttpError(o.status, o.message) : o.kind === "error" ? new Error(o.message) : o.message);
const theFn = async () => {
  const k = attempt++;
  record("attempt", k);
  const o = w.outcome(k);
  if (o.slow) return new Promise<string>((resolve) => setTimeout(() => resolve(o.value), LIMIT + 1));
  if (o.ok) return o.value;
  throw failure(o);
};
const thePred = (e: any) => {
  record("pred", e, attempt - 1);
  return w.pred(attempt - 1);
};
const theWait = (n: number) => w.wait(n);
const messageOf = (o: any) => (o.slow ? "" : o.kind === "string" ? "Something else than an Error object was thrown" : o.message);

// what retrying means: from attempt k on, with n retries left
function oracle(k: number, n: number): any {
  const o = w.outcome(k);
  const spent = o.slow ? LIMIT : 0;
  if (!o.slow && o.ok) return { ok: true, value: o.value, attempts: 1, elapsed: 0 };
  if (n < 1) return { ok: false, message: "No retries left", attempts: 1, elapsed: spent };
  if (!w.pred(k)) return { ok: false, message: "Retry predicate failed", attempts: 1, elapsed: spent };
  const pause = w.wait(k + 1) > 0 ? w.wait(k + 1) : 0;
  const rest = oracle(k + 1, n - 1);
  return { ok: rest.ok, value: rest.value, message: rest.message, attempts: 1 + rest.attempts, elapsed: spent + pause + rest.elapsed };
}
// induction hypothesis for both sides: the remaining attempts behave as some fixed outcome
const restOracle = (k: number, n: number) => {
  const h = w.hyp(k, n);
  return { ok: h.ok, value: h.ok ? h.value : undefined, message: h.ok ? undefined : h.message, attempts: h.attempts, elapsed: h.elapsed };
};
const restReal = async (f: any, n: number, k: number, log: any, wait: any, pred: any) => {
  const h = w.hyp(k, n);
  record("rest", h.attempts, f === theFn && wait === theWait && pred === thePred && attempt === k, log);
  attempt = attempt + h.attempts;
  advance(h.elapsed);
  if (h.ok) return h.value;
  throw new Error(h.message);
};
const named = (r: any, n: string) => r.trace.filter((e: any) => e.name === n);
const attempts = (r: any) => named(r, "rest").reduce((a: number, e: any) => a + e.args[0], named(r, "attempt").length);
const agrees = (o: any, r: any, exp: any) => r.ok === exp.ok && (r.ok ? r.value === exp.value : r.error instanceof Error && r.error.message === exp.message);

export const stepwise = spec({
  target: ["retry", "retryRecursive"],
  inputs: { ...world, retries: num(-3, 100), log: oneOf(RetryLogError.LOG_ALL_AS_ERRORS, RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS, RetryLogError.NO_LOGGING) },
  contracts: { "lib/digitraffic-common/src/utils/retry.ts#retryRecursive": restReal, "spec:P01.ts#oracle": restOracle },
  recursive: true,
  call: (i) => { w = i; attempt = 0; return retry(theFn, i.retries, i.log, theWait, thePred); },
  ensures: {
    outcome: (o, r) => agrees(o, r, oracle(0, o.retries)),
    attempts: (o, r) => attempts(r) === oracle(0, o.retries).attempts,
    firstAttemptAlways: (o, r) => r.trace.length > 0 && r.trace[0].name === "attempt",
    backoff: (o, r) => r.now === o.now + oracle(0, o.retries).elapsed,
    restUnchanged: (o, r) => named(r, "rest").every((e: any) => e.args[1] && e.args[2] === o.log),
    quietWhenAsked: (o, r) => implies(o.log === RetryLogError.NO_LOGGING, () => named(r, "log.error").length === 0),
    successIsSilent: (o, r) => implies(r.ok && attempts(r) === 1, () => r.trace.every((e: any) => e.name === "attempt")),
    // the failure of the first attempt is logged as the mode says, and what happens next is told as a warning
    failureLogged: (o, r) => {
      const x = o.outcome(0), failed = x.slow || !x.ok, last = o.retries < 1;
      const asError = failed && (o.log === RetryLogError.LOG_ALL_AS_ERRORS || (o.log === RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS && last));
      const asWarning = failed && o.log === RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS && !last;
      const next = r.trace.findIndex((e: any, j: number) => j > 0 && (e.name === "attempt" || e.name === "rest"));
      const first = { trace: next < 0 ? r.trace : r.trace.slice(0, next) };
      const errors = named(first, "log.error"), warnings = named(first, "log.warn");
      return errors.length === (asError ? 1 : 0) && warnings.length === (failed ? 1 : 0) + (asWarning ? 1 : 0) && (x.slow || [...errors, ...(asWarning ? [warnings[0]] : [])].every((e: any) => e.args[0].message === messageOf(x)));
    },
  },
});
// without options: three more attempts after any failure, at once
const three = { outcome: fn(obj({ ok: bool(), value: str(), message: str(), status: int(100, 599) })) };
export const defaults = spec({
  target: "retry",
  inputs: three,
  call: (i) => {
    attempt = 0;
    return retry(async () => {
      const o = i.outcome(attempt++);
      record("attempt");
      if (o.ok) return o.value;
      throw new HttpError(o.status, o.message);
    });
  },
  ensures: {
    attemptsAndResult: (o, r) => {
      let k = 0;
      while (k < 3 && !o.outcome(k).ok) k++;
      return named(r, "attempt").length === k + 1 && r.ok === o.outcome(k).ok && (!r.ok || r.value === o.outcome(k).value) && r.now === o.now;
    },
    lastFailureIsError: (o, r) => named(r, "log.error").length === (r.ok ? 0 : 1),
  },
});
export const limits = spec({
  target: "retry",
  inputs: { ...world, retries: anynum() },
  requires: (o) => !(Number.isFinite(o.retries) && o.retries <= 100),
  call: (i) => { w = i; attempt = 0; return retry(theFn, i.retries, RetryLogError.NO_LOGGING, theWait, thePred); },
  ensures: { refused: (o, r) => !r.ok && r.trace.length === 0 && r.error instanceof Error },
});
// retryRequest: at most five more attempts, only after status 403 or 429, waiting 2^k seconds before retry k
const reqWorld = { outcome: fn(obj({ ok: bool(), value: str(), isHttp: bool(), message: str(), status: int(100, 599) })) };
const retryable = (o: any) => o.isHttp && (o.status === 403 || o.status === 429);
export const request = spec({
  target: "retryRequest",
  inputs: { ...reqWorld, a: str(), b: int() },
  call: (i) => {
    attempt = 0;
    return retryRequest(async (...args: unknown[]) => {
      const o = i.outcome(attempt++);
      record("request", args.length, args[0], args[1], now());
      if (o.ok) return o.value;
      throw o.isHttp ? new HttpError(o.status, o.message) : new Error(o.message);
    }, i.a, i.b);
  },
  ensures: {
    argumentsPassed: (o, r) => named(r, "request").every((e: any) => e.args[0] === 2 && e.args[1] === o.a && e.args[2] === o.b),
    attemptsAndResult: (o, r) => {
      let k = 0;
      while (k < 5 && !o.outcome(k).ok && retryable(o.outcome(k))) k++;
      const last = o.outcome(k);
      return named(r, "request").length === k + 1 && r.ok === last.ok && (!r.ok || r.value === last.value);
    },
    exponentialPauses: (o, r) => {
      const es = named(r, "request");
      for (let k = 1; k < es.length; k++) if (es[k].args[3] - es[k - 1].args[3] !== 1000 * 2 ** k) return false;
      return true;
    },
  },
});
export const predicates = spec({
  target: "retryPredicates",
  inputs: { status: int(100, 599), message: str(), isHttp: bool() },
  call: (i) => { const e = i.isHttp ? new HttpError(i.status, i.message) : new Error(i.message); return [retryPredicates.retryBasedOnStatusCode(e), retryPredicates.alwaysRetry(e)]; },
  ensures: { only403And429: (o, r) => r.value[0] === (o.isHttp && (o.status === 403 || o.status === 429)), always: (o, r) => r.value[1] === true },
});
export const pauses = spec({
  target: "timeoutFunctions",
  inputs: { k: int(0, 100) },
  call: (i) => [timeoutFunctions.noTimeout(i.k), timeoutFunctions.exponentialTimeout(i.k)],
  ensures: { none: (o, r) => r.value[0] === 0, doubling: (o, r) => r.value[1] === 2 ** o.k * 1000 },
});

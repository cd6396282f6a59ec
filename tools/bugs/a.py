U = "const d = process.cwd() + '/lib/digitraffic-common/dist/';\n"
bugs = [
 dict(id="b01-retry-count-shared", property="P01",
  edits=[("utils/retry.ts", "      retryCountInj++;\n      retryCount = retryCountInj;\n      const milliseconds = timeoutBetweenRetries(retryCountInj);",
   "      retryCount++;\n      const milliseconds = timeoutBetweenRetries(retryCount);")],
  demo=U+"""const { retry, RetryLogError } = await import(d + 'utils/retry.js');
// Two retried operations run at the same time: each has its own back-off sequence.
const seen = [[], []];
const run = (i) => retry(async () => { await new Promise((r) => setTimeout(r, 5)); throw new Error('x'); }, 3, RetryLogError.NO_LOGGING, (n) => { seen[i].push(n); return 1; }).catch(() => {});
await Promise.all([run(0), run(1)]);
process.exit(JSON.stringify(seen) === '[[1,2,3],[1,2,3]]' ? 0 : 1);
""", needs="two retried operations whose failures interleave (or one started while another is between attempts)", breaks="the back-off is computed from a counter shared by all retried operations, so pauses grow wrongly when two overlap"),
 dict(id="b02-query-empty-multi", property="P02",
  edits=[("utils/lambda-proxy-event.ts", "new Set<string>([...Object.keys(single), ...Object.keys(multi)])", "new Set<string>(Object.keys(event.queryStringParameters ?? multi))")],
  demo=U+"""const { parseQueryParams } = await import(d + 'utils/lambda-proxy-event.js');
const r = parseQueryParams({ queryStringParameters: { a: '1' }, multiValueQueryStringParameters: { a: ['1'], b: ['2', '3'] } });
process.exit(JSON.stringify(r.b) === '["2","3"]' ? 0 : 1);
""", needs="a parameter present only in the multi-value map while the single-value map is not null", breaks="that parameter is silently dropped"),
 dict(id="b03-wkt-altitude", property="P03",
  edits=[("utils/geometry.ts", "previous[0] !== next[0] || previous[1] !== next[1]", "previous.slice(0, 2).join() !== next.slice(0, 2).join() && previous[0] !== next[1]")],
  demo=U+"""const { areDistinctPositions } = await import(d + 'utils/geometry.js');
process.exit(areDistinctPositions([10, 20], [30, 10]) === true && areDistinctPositions([10, 20], [10, 20]) === false ? 0 : 1);
""", needs="a next position whose latitude equals the previous longitude", breaks="distinct positions are reported equal"),
 dict(id="b04-truncate-half", property="P04",
  edits=[("utils/logging.ts", "const half = Math.floor(max / 2);", "const half = Math.round(max / 2);")],
  demo=U+"""const { truncateMiddle } = await import(d + 'utils/logging.js');
const s = 'abcdefghijklmnopqrstuvwxyz'.repeat(4), r = truncateMiddle(s, 21);
const [, a, n, b] = /^(\\w+) \\[TRUNCATED (\\d+) CHARS\\] (\\w+)$/.exec(r);
process.exit(a.length + b.length + Number(n) <= s.length ? 0 : 1);
""", needs="an odd limit", breaks="one character is both kept and counted as dropped"),
 dict(id="b05-env-empty", property="P05",
  edits=[("utils/utils.ts", "  if (value === undefined) {\n    return {\n      result: \"error\"", "  if (!value) {\n    return {\n      result: \"error\"")],
  demo=U+"""const { getEnvVariableOrElse } = await import(d + 'utils/utils.js');
process.env.VF_EMPTY = '';
process.exit(getEnvVariableOrElse('VF_EMPTY', 'other') === '' ? 0 : 1);
""", needs="an environment variable that is set to the empty string", breaks="a defined empty variable counts as undefined"),
 dict(id="b06-retry-403", property="P01",
  edits=[("utils/retry.ts", "    if (retryPredicate(error)) {\n      retryCountInj++;", "    if (retryPredicate(error) || (remainingRetries > 0 && error instanceof AsyncTimeoutError)) {\n      retryCountInj++;")],
  demo=U+"""import { createRequire } from 'node:module';
const { retry, RetryLogError } = await import(d + 'utils/retry.js');
const { AsyncTimeoutError } = await import(d + 'types/async-timeout-error.js');
let n = 0;
await retry(async () => { n++; throw new AsyncTimeoutError(); }, 2, RetryLogError.NO_LOGGING, () => 0, () => false).catch(() => {});
process.exit(n === 1 ? 0 : 1);
""", needs="an attempt that times out while the predicate refuses and more than one retry is left", breaks="the operation is attempted again although the predicate refused"),
]

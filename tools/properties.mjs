// The properties, in the order of their ids. `note` overrides the manifest's level note, `na` marks a property as not applicable.
const L = "lib/digitraffic-common/src/";
const P = (id, title, statement, over, text, why, files, mechanism, extra = {}) => ({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files: files.map((f) => (f.startsWith("@") ? f.slice(1) : L + f)), mechanism: mechanism.map(([name, where]) => ({ name, where })) }, ...extra });
export const properties = [
  P("P01", "Retrying is bounded, stops at the first success and obeys its predicate",
    "A retried operation is attempted at least once and at most one more time than the number of retries asked for, never again after it has succeeded, and its outcome is the first success or an error once retries are used up or the predicate refuses. Between attempts the given back-off is waited for, and the failure of each attempt is logged exactly as the chosen logging mode says. A retry count that is not a finite number of at most 100 is refused before the first attempt; a retried request passes its arguments on and is repeated only for HTTP status 403 or 429, at most five times with doubling pauses.",
    ["fault_sequences", "inputs"], "every sequence of successes, failures and timeouts, every retry count, predicate, back-off and logging mode",
    "The tests try a few fixed counts with always failing or always succeeding functions; the bound must hold for every failure sequence and count.",
    ["utils/retry.ts"], [["retryRecursive", "utils/retry.ts"], ["retryRequest", "utils/retry.ts"]]),
  P("P02", "Query parameters reach handlers complete and with the declared arity",
    "Parsing the query string parameters of a request returns every parameter that was sent and nothing else. A parameter declared as multi-valued, or sent more than once, becomes the list of all its values in order; any other becomes its single value.",
    ["inputs"], "every parameter map (single and multi value, absent included) and every set of declared list parameters",
    "The tests use a handful of fixed maps; the mapping must hold for every set of names and values.",
    ["utils/lambda-proxy-event.ts"], [["parseQueryParams", "utils/lambda-proxy-event.ts"]]),
  P("P03", "Geometries are converted and measured faithfully",
    "Converting a GeoJSON point, line string, polygon or multi-polygon to WKT keeps every part, ring and coordinate pair, in order and longitude first, and keeps parts and rings apart; any other geometry type is reported in the log and gives an empty polygon. Converting a point, line string or polygon to a GML coordinate list keeps every coordinate in order, and refuses other types. The distance between two positions is the great-circle distance on a sphere of 6371 km, in kilometres or metres, and illegal positions are refused; two positions are distinct exactly when longitude or latitude differs.",
    ["inputs"], "every geometry with any number of parts, rings and coordinates, and every pair of positions",
    "The tests convert a few small geometries without holes or several parts and never use coordinate zero.",
    ["utils/geometry.ts"], [["createWktGeometry", "utils/geometry.ts"], ["createGmlLineString", "utils/geometry.ts"], ["distanceBetweenPositionsInKm", "utils/geometry.ts"]]),
  P("P04", "Shortening and reporting of log texts",
    "Shortening a text leaves texts within the limit unchanged, never makes an over-long text longer except by one separating space, and otherwise keeps the beginning (or beginning and end) around a marker telling how many characters were dropped. Logging an exception of any kind writes exactly one error entry carrying its message, adds the stack only on request, and never throws the exception again.",
    ["inputs"], "every text and limit, every thrown value (errors, strings, numbers, objects, null, undefined) and stack option",
    "The tests use a few texts at fixed limits and one or two thrown values.",
    ["utils/logging.ts"], [["truncateEnd", "utils/logging.ts"], ["truncateMiddle", "utils/logging.ts"], ["logException", "utils/logging.ts"]]),
  P("P05", "Collection, configuration and error helpers mean what they say",
    "Two arrays have the same values exactly when each element of one occurs in the other; the first and last element of a non-empty array are returned without changing it and an empty array is refused. An environment variable that is defined is returned as it is, and an undefined one is an error naming it, or the given alternative; setting one changes no other. Removing keys deeply removes exactly those keys at every level and leaves the original untouched, own-property, definedness and error-text helpers agree with the language.",
    ["inputs", "configurations"], "every array, key set, environment and nested value",
    "The tests sample a few values; the claims quantify over all values and nesting depths.",
    ["utils/utils.ts"], [["bothArraysHasSameValues", "utils/utils.ts"], ["getEnvVariableSafe", "utils/utils.ts"], ["omitDeep", "utils/utils.ts"]]),
  P("P06", "Dates and maritime identifiers are judged exactly",
    "The difference of two instants in milliseconds or seconds is the later minus the earlier, the epoch constant is the zero instant, reading a date text gives the instant it denotes or an error naming the text, and formatting a date uses UTC whatever zone the machine is in. An IMO number is accepted exactly when it is a seven-digit integer whose last digit is the check digit of the others, an MMSI exactly when it is a nine-digit integer, and a UN/LOCODE exactly when it is FI followed by three letters in either case. A year is valid exactly within its bounds (1900 to 2100 unless given), a month exactly from 1 to 12.",
    ["inputs"], "every pair of instants, every text, number and year bound, on a machine outside UTC",
    "The tests check a few dates and identifiers; a wrong digit weight or a local-time format goes unnoticed by samples.",
    ["utils/date-utils.ts", "marine/id_utils.ts", "types/validator.ts"], [["countDiffMs / dateFromIsoString / dateToUTCString", "utils/date-utils.ts"], ["isValidIMO / isValidMMSI / isValidLOCODE", "marine/id_utils.ts"], ["validateYear / validateMonth", "types/validator.ts"]]),
  P("P07", "Stop watches and lead-time entries tell the true time",
    "A stop watch task's duration is the sum of its closed periods plus the time since it was last started while it runs; stopping freezes it, starting again adds to it (closing an open period first), resetting forgets it, and operations on one task leave every other task alone. Asking for an unknown task's duration gives zero and stopping one is an error; logging the tasks writes one entry per task at the level asked for. Lead-time logging writes exactly one entry per given value that is a safe integer, never throws, and reports a failure to log as an error entry.",
    ["histories", "inputs"], "every earlier history of a task (as any state it can leave), every operation and every passage of time",
    "The tests run two or three fixed sequences under fake timers; the duration must be right after every history.",
    ["utils/stop-watch.ts", "utils/lead-time-logging.ts"], [["StopWatch", "utils/stop-watch.ts"], ["logLeadTime / logLeadTimes", "utils/lead-time-logging.ts"]]),
  P("P08", "Encodings round-trip and text parameters are parsed strictly",
    "Encoding any text to base64 gives the base64 of its bytes in the named encoding, decoding gives the text back, and a compressed payload decodes to the text it was made from. A textual parameter schema turns a numeric (or date) text into that number (or date), the empty text into undefined, and refuses everything else with one issue carrying the given message; the non-empty text schema refuses exactly the empty text.",
    ["inputs"], "every text (including multi-byte ones), and every value given to a parameter schema",
    "The tests encode a few literals and parse a few samples.",
    ["utils/base64.ts", "utils/zod-utils.ts"], [["encodeBase64 / decodeBase64 / compressBuffer", "utils/base64.ts"], ["zStringToNumber / zStringToDate / zNonEmptyString", "utils/zod-utils.ts"]]),
  P("P09", "Secrets are fetched, narrowed, checked and cached as promised",
    "A secret is fetched by its identifier in the region of the environment (or its override); with a prefix only the non-empty values under `prefix.` are given, under their names without it, a missing secret text is an error, and a variable of the environment takes precedence over a secret value of the same name. A secret holder fetches again only when five minutes have passed since the last successful fetch, reports a failed fetch to the caller, and refuses a secret lacking an expected key. Setting database credentials writes user, password and the write and read addresses (of the proxy or of the cluster, as asked for) to the environment, and nothing at all when one is missing.",
    ["inputs", "histories", "fault_sequences", "schedules"], "every secret content, prefix and set of expected keys; every sequence of three uses with secret changes and failures at any times in between",
    "The tests use one fixed secret and one or two time steps.",
    ["aws/runtime/secrets/secret.ts", "aws/runtime/secrets/secret-holder.ts", "aws/runtime/secrets/dbsecret.ts", "aws/runtime/secrets/proxy-holder.ts", "aws/runtime/secrets/rds-holder.ts"], [["getSecret / getFromEnvOrSecret", "aws/runtime/secrets/secret.ts"], ["SecretHolder", "aws/runtime/secrets/secret-holder.ts"], ["checkExpectedSecretKeys", "aws/runtime/secrets/dbsecret.ts"], ["ProxyHolder / RdsHolder", "aws/runtime/secrets/proxy-holder.ts"]]),
  P("P10", "A log entry is one complete JSON line whose message names its method and fields",
    "Every entry written to the logger becomes exactly one line of JSON on its stream, carrying its level, the lambda's name and runtime (as given, else from the environment, else a placeholder), and all its fields; custom fields appear under their names without the custom prefix and in lower camel case. The message starts with the method unless it mentions it already and ends with the remaining fields as name=value pairs, texts containing an equals sign quoted, errors and stacks left out. Errors are written as their name and message with their stack, values JSON cannot express do not make logging fail, and the object handed in is left untouched.",
    ["inputs", "configurations"], "every message, method, level, custom field value (texts, numbers, dates valid or not, bigints, null, undefined), error and environment",
    "The tests log a handful of messages; the format must hold for every field value and text.",
    ["aws/runtime/dt-logger.ts", "aws/runtime/dt-logger-default.ts"], [["DtLogger", "aws/runtime/dt-logger.ts"]]),
  P("P11", "Handler responses carry the given content, correct entity tags and respect the payload limit",
    "A response built for an API integration carries the given content (objects as their JSON text) in base64, the given or default status, file name and timestamp as an HTTP date, and the entity tag of the content; a response built for a proxy integration carries the content with content type, download name, redirect location, last-modified time and entity tag as headers. A compressed proxy response decodes to exactly the given content, is declared as such, and is used only when it is smaller than the content in base64. A response that would exceed the payload limit of six megabytes is replaced by a 400 response saying so, and a response without a body is refused unless its status allows that.",
    ["inputs"], "every body, status, timestamp, file name and content type, and every size around the limit",
    "The tests build a few small responses; entity tags, encodings and the limit must be right for every content.",
    ["aws/types/lambda-response.ts", "aws/types/lambda-proxy-types.ts"], [["LambdaResponse / LambdaResponseBuilder", "aws/types/lambda-response.ts"], ["LambdaProxyResponseBuilder", "aws/types/lambda-proxy-types.ts"]]),
  P("P12", "Database work runs on a clean session and the connection is always closed",
    "Work on the database gets a connection made from the user, password, address (the read address for read-only work) and application name of the environment, on a session whose state was discarded first; its result is returned, its failure is logged and passed on unchanged, and the connection pool is ended in every case. Transactional work runs inside a transaction, missing credentials refuse the work before any connection is made, null columns become undefined only when asked for, and large integers and decimals are read as numbers. Bookkeeping of update times reads and writes exactly the row of the given type and subtype.",
    ["inputs", "configurations", "fault_sequences"], "every environment, every result and failure of the work or of cleaning the session, every update time",
    "The tests have no database; connection handling on failure paths is not exercised at all.",
    ["database/database.ts", "database/last-updated.ts"], [["inDatabase / inDatabaseReadonly / inTransaction", "database/database.ts"], ["updateLastUpdated / getLastUpdated", "database/last-updated.ts"]]),
  P("P13", "Uploads and notifications report failures without raising them",
    "Uploading to a bucket sends exactly one request with the given bucket, key, body, access list and content type, and sending a notification posts exactly the given text once to the configured address; neither ever fails its caller, and a failure is written to the log as an error, a success is not. Fetching an API key asks once for the key with its value and passes the answer or the failure on.",
    ["inputs", "fault_sequences"], "every argument and every way the remote service can fail",
    "There are no tests of these functions with a failing remote service.",
    ["aws/runtime/s3.ts", "utils/slack.ts", "aws/runtime/apikey.ts"], [["uploadToS3", "aws/runtime/s3.ts"], ["SlackApi.notify", "utils/slack.ts"], ["getApiKeyFromAPIGateway", "aws/runtime/apikey.ts"]]),
  P("P14", "Web access rules are complete, ordered and tell apart what they limit",
    "The rules of a built access list have distinct names and priorities that follow the order they were added in, with counting rules before blocking ones; duplicate names and an empty list are refused, and requests no rule refuses are allowed. A rate limit applies the asked number of requests per address over five minutes to exactly the requests asked for (with or without a valid identifying header, and only the given path where one is given), a counting limit never blocks, and a blocked request is answered with status 429 and the message for its limit. Managed rules keep their exclusions, and addresses are allowed or blocked only through the given lists.",
    ["inputs", "configurations"], "every sequence of rules, every limit, message, exclusion and address list",
    "The tests build two or three lists; orders and priorities must be right for every combination.",
    ["aws/infra/acl-builder.ts"], [["AclBuilder", "aws/infra/acl-builder.ts"]]),
  P("P15", "Queues are encrypted and nothing that reaches a dead letter queue is lost",
    "Every queue made is encrypted with a managed key and carries the name made of the short name and the given name. A standard queue that is not given a dead letter queue of its own gets one that receives messages after two attempts, is watched by an alarm on any message, and is emptied by a function that may write only to its private bucket; that function stores every message under its own name and logs a failed store without giving up the others. A queue attached to an API accepts posted bodies through a role that may only send to that queue, and bucket names made from any text are valid, at most 63 long and stay apart when cut.",
    ["inputs", "configurations", "fault_sequences"], "every name and setting of queues, every list of messages and every set of failing uploads",
    "The tests check the generated program as text and one queue; they never run the program with failing uploads.",
    ["aws/infra/sqs-queue.ts", "aws/infra/sqs-queue-internal.ts", "aws/infra/sqs-integration.ts"], [["DigitrafficSqsQueue / DigitrafficDLQueue", "aws/infra/sqs-queue.ts"], ["getDlqCode / sanitizeS3BucketName", "aws/infra/sqs-queue-internal.ts"], ["attachQueueToApiGatewayResource", "aws/infra/sqs-integration.ts"]]),
  P("P16", "Functions get exactly the rights, network, environment and settings asked for",
    "A function made with the builder runs in the private subnets of the stack's network, gets the database security group only with database access and the secret only with secret access, and is refused when what it needs is not configured. Its environment holds the secret identifier and application name it is entitled to, overridden by what is given, later over earlier; its rights are exactly the given policies and actions, and a wildcard action is refused. Everything not chosen has the documented default, names follow the short name and the function name, and logs go to a group of its own kept for a year.",
    ["inputs", "configurations"], "every configuration of the stack, every choice of access, environment, policies and settings",
    "The tests build a few functions; defaults and rights must hold for every combination of choices.",
    ["aws/infra/stack/dt-function.ts", "aws/infra/stack/lambda-configs.ts", "aws/infra/stack/monitoredfunction.ts", "aws/infra/stack/lambda-log-group.ts"], [["FunctionBuilder", "aws/infra/stack/dt-function.ts"], ["databaseFunctionProps / lambdaFunctionProps / defaultLambdaConfiguration", "aws/infra/stack/lambda-configs.ts"], ["MonitoredFunction.createV2 / MonitoredDBFunction", "aws/infra/stack/monitoredfunction.ts"]]),
  P("P17", "Every function is watched, and the right people are told",
    "A function gets four alarms of its own metrics: duration at its timeout and at 85 % of it, at least one error, and at least one throttled call, each with the given limits where limits are given, and each left out only when asked. In production the alarms are told to the alarm topic, otherwise to the warning topic, and the 85 % warning always to the warning topic. Turning all alarms off with the ready-made setting is refused in production, and so is a function without a name or, when its duration is watched, without a timeout.",
    ["inputs", "configurations"], "every timeout, every choice and limit of alarms, production or not",
    "The tests count alarms of a few functions; targets and limits must be right for every combination.",
    ["aws/infra/stack/monitoredfunction.ts", "aws/infra/stack/dt-function.ts", "aws/infra/stack/dt-function-alarms.ts"], [["MonitoredFunction", "aws/infra/stack/monitoredfunction.ts"], ["FunctionBuilder.createAlarms", "aws/infra/stack/dt-function.ts"]]),
  P("P18", "Requests reach the function as sent, and its answers reach the caller",
    "A function behind the API receives exactly the parameters it asked for, each under its own name and with the text that was sent (all query parameters where asked, lists where many values are allowed, the body encoded), and combinations that would clash are refused. The caller gets the status, body and headers of the answer of the function, with deprecation marks where declared; a fixed answer is served as given on reading methods with the given headers. A handler runs its method once and logs its time; an error goes to the error handler if there is one, and otherwise to the caller unchanged.",
    ["inputs", "configurations"], "every combination of parameter kinds, answers, headers and settings; every outcome of a handler",
    "The tests render templates with values that need no escaping and with parameters one kind at a time.",
    ["aws/infra/api/integration.ts", "aws/infra/api/static-integration.ts", "aws/runtime/digitraffic-integration-response.ts", "aws/infra/api/response.ts", "aws/infra/api/responses.ts", "aws/infra/api/handler-factory.ts"],
    [["DigitrafficIntegration.build / createRequestTemplates", "aws/infra/api/integration.ts"], ["DigitrafficIntegrationResponse / RESPONSE_DEFAULT_LAMBDA", "aws/infra/api/response.ts"], ["DigitrafficStaticIntegration", "aws/infra/api/static-integration.ts"], ["HandlerFactory", "aws/infra/api/handler-factory.ts"]]),
  P("P19", "The REST API admits, answers, exports and documents exactly what is configured",
    "An API made may be called from anywhere when no address list is given and otherwise only from the given addresses, keeps settings given for it, and answers calls of unknown paths with 404. Every usage plan has one key and the stage of the API; exporting writes the address and the chosen key (or the only one) under the chosen name and is refused when the key is missing or ambiguous. Models carry the reference to themselves, models of lists and GeoJSON documents the references to what they contain, resources carry the cross-origin settings unless given others, and documentation is written for every part given, with its deprecation note, unless turned off.",
    ["inputs", "configurations"], "every address list and setting, every combination of up to two keys, every list of documentation parts",
    "The tests make one API with one key and documentation turned on; combinations are not tried.",
    ["aws/infra/stack/rest-api.ts", "aws/infra/documentation.ts", "aws/infra/usage-plans.ts", "utils/api-model.ts"], [["DigitrafficRestApi", "aws/infra/stack/rest-api.ts"], ["addServiceModel / getModelReference / addDefaultValidator", "utils/api-model.ts"], ["DocumentationPart", "aws/infra/documentation.ts"], ["createDefaultUsagePlan", "aws/infra/usage-plans.ts"]]),
  P("P20", "Stacks refer to, share and grant exactly what their configuration names",
    "A stack has the secret, network and security group its configuration names and none that it does not, tells alarms and warnings to the two monitoring topics, and puts itself under the stack checks; rights to the secret are given to exactly the given functions and refused without a secret. A value written under an export or parameter name is what a reader of that name gets, and different names stay apart. Log subscriptions, schedules, the rule for security findings and bucket grants carry exactly the given destination, interval, target, resources, actions and principal, with the documented defaults.",
    ["inputs", "configurations"], "every configuration, name, list of functions, interval and grant",
    "The tests cover schedules and the security rule by example; the rest is not tested.",
    ["aws/infra/stack/stack.ts", "aws/infra/import-util.ts", "aws/infra/stack/parameters.ts", "aws/infra/stack/subscription.ts", "aws/infra/scheduler.ts", "aws/infra/security-rule.ts", "aws/infra/bucket-policy.ts"],
    [["DigitrafficStack", "aws/infra/stack/stack.ts"], ["exportValue / importValue / importVpc", "aws/infra/import-util.ts"], ["createParameter / getParameterValue", "aws/infra/stack/parameters.ts"], ["DigitrafficLogSubscriptions", "aws/infra/stack/subscription.ts"], ["Scheduler", "aws/infra/scheduler.ts"], ["grantOACRights / grantOAIRights", "aws/infra/bucket-policy.ts"]]),
  P("P21", "Stack checks report exactly the mistakes they are there for",
    "Building a stack reports an error for a function without concurrency limit (or one above 100), timeout, memory, supported runtime or the short name in its name, for a production setting that contradicts the name of the stack, a missing solution tag, a bucket that is not fully closed when its access is configured, an unencrypted queue, a log group kept for ever and a query parameter that is not in snake case, and a warning for a path that is not in kebab case. Nothing else is reported. A resource that matches a whitelisted pattern is reported one step more mildly, and only that resource.",
    ["inputs", "configurations"], "every resource and setting the checks look at, every list of whitelisted patterns",
    "There are no tests of these checks.",
    ["aws/infra/stack/stack-checking-aspect.ts"], [["StackCheckingAspect", "aws/infra/stack/stack-checking-aspect.ts"]]),
  P("P22", "Databases are kept, encrypted and closed, and others learn exactly where they are",
    "A database stack makes exactly one cluster, restored from the snapshot exactly when one is given, that cannot be deleted by mistake, keeps its data and five weeks of backups, is encrypted unless that is turned off, and runs in private subnets behind the given security group with the super user of the given secret; its instances have the given types and the parameters of the first given version. What it, the proxy and the network stack write for others (identifier, writer and reader addresses, network and subnets) is what readers of those names get, with the identifier taken from the address of a cluster that is only imported, and a stack asked for both, neither or an unreadable address is refused. The names db, db-ro, proxy and proxy-ro of the environment lead to the writers and readers of the cluster and the proxy, and a network has two public and two private subnets, or is refused.",
    ["inputs", "configurations"], "every configuration of cluster, import, instances, proxy and network",
    "The tests cover only the snapshot identifier and the identifier of one imported cluster.",
    ["aws/infra/stacks/db-stack.ts", "aws/infra/stacks/db-proxy-stack.ts", "aws/infra/stacks/db-dns-stack.ts", "aws/infra/stacks/network-stack.ts"],
    [["DbStack / parseClusterIdentifier", "aws/infra/stacks/db-stack.ts"], ["DbProxyStack", "aws/infra/stacks/db-proxy-stack.ts"], ["DbDnsStack", "aws/infra/stacks/db-dns-stack.ts"], ["NetworkStack", "aws/infra/stacks/network-stack.ts"]]),
  P("P23", "A canary fails exactly when one of its checks fails",
    "A count check fails exactly when the number of rows is not what was asked for (none, one, or at least one), the remaining checks are still made, and the run fails if any failed, none was given or the database fails; it only ever uses the read address and closes its connection. Requests go to the given host and path with the key of the canary, except where a refusal without a key is expected, and a step fails exactly when one of its checks fails or the status or content type is not the expected one. Checks of responses accept exactly answers with a status from 200 to 299, cross-origin header and the right content type, and see the body as the server meant it, unpacked when it came compressed.",
    ["inputs", "configurations", "fault_sequences"], "every count, status, header, body and outcome of the checks",
    "There are no tests of the canary checks.",
    ["aws/infra/canaries/database-checker.ts", "aws/infra/canaries/url-checker.ts"], [["DatabaseCountChecker", "aws/infra/canaries/database-checker.ts"], ["UrlChecker / ResponseChecker / ContentChecker / ContentTypeChecker / GeoJsonChecker / HeaderChecker", "aws/infra/canaries/url-checker.ts"]]),
  P("P24", "Canaries get the rights, network and settings asked for, and their alarm is told",
    "A canary runs the given handler at the given interval (every 15 minutes, and every hour for the database, if none is given) with its name, role and settings, given settings overriding its own, and may write only to its own results. Its alarm goes off when less than the given share of runs succeeds (all, if none is given) over the given number of periods, under the given name, and is told to the given topic only. The role lets it write logs and its own metrics, use the network or read API keys only when asked, database canaries are refused without a secret and may read it, and a canary in the network uses the network, private subnets and security group of the stack.",
    ["inputs", "configurations"], "every setting of canaries, their alarms and of the stack, at most two API keys",
    "There are no tests of canaries.",
    ["aws/infra/canaries/canary.ts", "aws/infra/canaries/canary-alarm.ts", "aws/infra/canaries/canary-role.ts", "aws/infra/canaries/url-canary.ts", "aws/infra/canaries/database-canary.ts"],
    [["DigitrafficCanary", "aws/infra/canaries/canary.ts"], ["CanaryAlarm", "aws/infra/canaries/canary-alarm.ts"], ["DigitrafficCanaryRole", "aws/infra/canaries/canary-role.ts"], ["UrlCanary", "aws/infra/canaries/url-canary.ts"], ["DatabaseCanary", "aws/infra/canaries/database-canary.ts"]]),
  P("P25", "GeoJSON and OpenAPI documents are accepted exactly when well-formed",
    "A GeoJSON point, line, polygon, their multiples, collection, feature or collection of features is accepted exactly when its type is the right one and its coordinates are positions of two or three numbers nested as that type demands, with at least two positions in a line and four in a ring; an accepted document comes back unchanged. An OpenAPI document is accepted only with a version of the form 3.x.y, a title, paths, and nothing unknown in its information (licence and contact included), external documentation, tags, servers and their variables, and components, and comes back unchanged. A parameter is accepted only with a name and a known place, and an operation only when each of its parameters is accepted or a reference.",
    ["inputs"], "every document of the given kinds; nested geometries up to the stated depth and width",
    "The tests parse a handful of documents, nearly all of them well-formed.",
    ["types/geojson.ts", "types/openapi-schema.ts"], [["PointSchema … FeatureCollectionSchema", "types/geojson.ts"], ["openapiSchema / openapiOperation / parameterObject", "types/openapi-schema.ts"]]),
  P("P26", "Requests at the edge are answered, restricted and passed on as deployed",
    "At the edge of the network an uncompressed read is refused with 406 and a preflight request answered, addresses that are not allowed are refused with 403, reads get headers that allow their use from anywhere, and what is not concerned passes unchanged. Requests for camera image versions and for measurement history go to the other origin with its host name (history only when the query names an interface, type, point and day or week, and with the query it stands for), raw data files come from the current store from year 2022 on, folders get their index page and deployed path parts are removed. Missing camera images become the replacement image with status 200, history downloads are named after their query and lose internal headers, and an event without a record is refused.",
    ["inputs"], "every method, path, query, address, header and status; up to three removed path parts",
    "These programs have hardly any tests: a few fixed requests for two of them.",
    ["@other/cloudfront/src/lambda/lambda-gzip-requirement.ts", "@other/cloudfront/src/lambda/lambda-http-headers.ts", "@other/cloudfront/src/lambda/function-http-headers.ts", "@other/cloudfront/src/lambda/lambda-ip-restriction.ts", "@other/cloudfront/src/lambda/lambda-weathercam-http-headers.ts", "@other/cloudfront/src/lambda/lambda-weathercam-rewrite.ts", "@other/cloudfront/src/lambda/lambda-lam-redirect.ts", "@other/cloudfront/src/lambda/lambda-lam-headers.ts", "@other/cloudfront/src/lambda/function-index-html.ts", "@other/cloudfront/src/lambda/function-redirect.ts", "@other/cloudfront/src/lambda/function-rewrite-uri.ts", "@other/cloudfront/src/lambda/header-util.ts", "@other/cloudfront/src/lambda/uri-util.ts"], [["handlers", "other/cloudfront/src/lambda"], ["removePathParts", "other/cloudfront/src/lambda/uri-util.ts"]]),
  P("P27", "Distributions send each path to its own origin with its programs, caching and limits",
    "Every path of a distribution gets its own origin (host, protocol, path, API key and read time-out as given; storage by its regional name; private-network origins as declared), methods, cache times and request policy, whatever other paths of it or earlier distributions use the same host; viewers are always sent to HTTPS. At each event at most one edge program runs, the one named for that path, its code being the bundled program with the settings written in, and only the history program may read the secret; a second program at an event, a missing setting, log target, private-network origin, access rule or default path, and a second default path are refused. Cache policies are shared exactly between equal settings, and access limits below 50 are refused and the others become blocking rules, or only counting ones where asked.",
    ["inputs", "histories"], "every host, path, key, time and name; two or three paths together; any program state of a path and any step from it",
    "The tests build one or two fixed stacks and compare snapshots.",
    ["@other/cloudfront/src/cloudfront-cdk-stack.ts", "@other/cloudfront/src/distribution/behavior.ts", "@other/cloudfront/src/distribution/distribution-builder.ts", "@other/cloudfront/src/util/cachepolicy-factory.ts", "@other/cloudfront/src/util/edgalambda-factory.ts", "@other/cloudfront/src/util/edgefunction-factory.ts", "@other/cloudfront/src/util/function-creator.ts", "@other/cloudfront/src/util/lambda-creator.ts", "@other/cloudfront/src/acl/acl-creator.ts", "@other/cloudfront/src/acl/waf-rules.ts"], [["CloudfrontCdkStack", "other/cloudfront/src/cloudfront-cdk-stack.ts"], ["Behavior", "other/cloudfront/src/distribution/behavior.ts"], ["CachePolicyFactory", "other/cloudfront/src/util/cachepolicy-factory.ts"], ["WafRules", "other/cloudfront/src/acl/waf-rules.ts"]]),
  P("P28", "Port call times shown to the public are the live ones, combined and contained",
    "Estimates of one port call by the traffic service and the forecaster are shown as one with their mean time, a calculated estimate counting only while it was made within the last hour and is not an hour or more later than the forecaster's; predictions are shown only where there is no such estimate, and not twice with and without a port call; every other time is shown unchanged, in order of time. Requests are answered from the read-only database by port (any case), else ship identity, else source; requests without any of them, with an impossible ship identity or with a port that is not Finnish are refused without asking the database. The ship list page asks for a key (401 without, 403 with a wrong one), then a Finnish port, shows the times of the coming 96 hours unless another number is asked, and nothing written in a ship's name can leave the page's data.",
    ["inputs"], "any times, ships, ports and queries; two or three times of one port call; two rows",
    "The tests of this application merge a few fixed lists and are not among those that can run here.",
    ["@marine/portactivity/src/event-sourceutil.ts", "@marine/portactivity/src/service/timestamps.ts", "@marine/portactivity/src/service/shiplist.ts", "@marine/portactivity/src/lambda/get-timestamps/get-timestamps.ts", "@marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts"],
    [["mergeTimestamps", "marine/portactivity/src/event-sourceutil.ts"], ["findAllTimestamps", "marine/portactivity/src/service/timestamps.ts"], ["handler", "marine/portactivity/src/lambda/get-timestamps/get-timestamps.ts"], ["handler", "marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts"]]),
  P("P29", "Port call messages are stored exactly when complete, each on its own",
    "A message about a port call is accepted exactly when it has a known kind, valid event and record times, a source, a ship identity and a port of at most five letters, and is not a departure predicted by the forecaster nor a calculated arrival of a ship that lies still; it is kept unchanged except that a spread is kept only when negative below and positive above. Accepted messages are stored with the port call and ship identities given or, failing that, looked up, are dropped if the ship or (predictions apart) the port call cannot be told, and one from the port's own system replaces the same port call's times in another port, all in one transaction. In a batch, a message that is not JSON, is not accepted or cannot be stored never keeps the others from being stored, and only those that failed are reported as failed.",
    ["inputs"], "any content of a message; batches of at most three",
    "The tests of this application store a few fixed messages in a real database and cannot run here.",
    ["@marine/portactivity/src/service/timestamp-validation.ts", "@marine/portactivity/src/service/timestamps.ts", "@marine/portactivity/src/dao/timestamps.ts", "@marine/portactivity/src/lambda/process-queue/process-queue.ts"],
    [["validateTimestamp", "marine/portactivity/src/service/timestamp-validation.ts"], ["saveTimestamp", "marine/portactivity/src/service/timestamps.ts"], ["createUpdateValues", "marine/portactivity/src/dao/timestamps.ts"], ["handlerFn", "marine/portactivity/src/lambda/process-queue/process-queue.ts"]]),
  P("P30", "Estimates are taken from forecasters, pilots and traffic services only when they can be trusted",
    "A forecaster's arrivals for a port are taken for voyages that are not stopped, for berths in Finland, at least 24 hours ahead and not derived from this service's own data, departures likewise while not past; a ship's own forecast is asked with its port within 24 hours of arrival, and taken for a ship under way when its port agrees or arrival is within 24 hours, pilot boarding only for the ports where it is published, berth arrivals being derived for Rauma (or everywhere, if so set), a failing ship never keeping the others from being served. Traffic service times are taken for the supported ports, departures until five minutes past; berth arrivals and departures seen by the forecaster are taken when their port call is known, its subscription being resumed and remembered. Pilotages that are new or changed are saved and give one time of the kind and moment of their state with their port call, those gone are removed with their times, and the access token is kept until three minutes before it expires.",
    ["inputs", "histories"], "any times, ships and answers; a forecast, a pilotage or two sightings at a time",
    "The tests of this application check a few fixed answers and are not among those that can run here.",
    ["@marine/portactivity/src/service/awake-ai-eta-port.ts", "@marine/portactivity/src/service/awake-ai-etd-port.ts", "@marine/portactivity/src/service/awake-ai-eta-ship.ts", "@marine/portactivity/src/service/awake-ai-etx-helper.ts", "@marine/portactivity/src/service/awake-ai-atx.ts", "@marine/portactivity/src/service/schedules.ts", "@marine/portactivity/src/service/pilotweb.ts", "@marine/portactivity/src/dao/pilotages.ts", "@marine/portactivity/src/api/awake-ai-atx.ts", "@marine/portactivity/src/api/awake-ai-ship.ts", "@marine/portactivity/src/api/awake-ai-port.ts", "@marine/portactivity/src/api/oauth-token-api.ts"],
    [["AwakeAiETAPortService / AwakeAiETDPortService / AwakeAiETAShipService / AwakeAiATXService", "marine/portactivity/src/service"], ["SchedulesService", "marine/portactivity/src/service/schedules.ts"], ["getMessagesFromPilotweb", "marine/portactivity/src/service/pilotweb.ts"], ["OAuthTokenApi", "marine/portactivity/src/api/oauth-token-api.ts"]]),
  P("P31", "Passenger information messages are stored whole, withdrawn, kept aside and shown as received",
    "An operator's message for stations or for a train is understood with its identity, validity, train, stations, texts by language (first one given, trimmed) and delivery rules, also when its audio is a recording; it is stored in one transaction, every column with the value it names (times in UTC to the minute), or not at all, and a withdrawal marks only that message. Each message of a batch is handled on its own: one that cannot be stored is kept aside in full, reported as failed, and never costs a database connection; on arrival a valid message is passed on unchanged and any other is archived with the reason. The public answers show the stored texts and delivery rules, weekdays included, and their conditions reach the store as asked or are refused with 400.",
    ["inputs", "crash points"], "any content of a message; a database failure at any step; two messages in a batch; audio and video examined one at a time",
    "The tests of this application store a few fixed messages in a real database and cannot run here.",
    ["@rail/rami/src/service/process-rosm-message.ts", "@rail/rami/src/dao/message.ts", "@rail/rami/src/service/get-message.ts", "@rail/rami/src/util/weekdays.ts", "@rail/rami/src/util/database.ts", "@rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts", "@rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts", "@rail/rami/src/lambda/process-dlq/process-dlq.ts", "@rail/rami/src/lambda/get-active-messages/get-active-messages.ts", "@rail/rami/src/lambda/get-messages-updated-after/get-messages-updated-after.ts"],
    [["parseRosmMessage / processRosmMessage", "rail/rami/src/service/process-rosm-message.ts"], ["insertMessage / setMessageDeleted", "rail/rami/src/dao/message.ts"], ["inTransaction / inDatabase", "rail/rami/src/util/database.ts"], ["getActiveMessages", "rail/rami/src/service/get-message.ts"], ["handlers", "rail/rami/src/lambda"]]),
  P("P32", "Unknown delays and tracks of trains reach the timetable row they are about",
    "A stop monitoring message gives, for each of its stops where passengers board, one arrival and one departure with its station, planned time and whether time and track are unknown, for the train and day its journey name tells; it is saved, and its stops are sent on unless it is a bus or there are none, a message that cannot be understood being kept aside and one that cannot be saved or sent being tried again. Stops are stored at the timetable row of the same train, station, kind and minute, all in one transaction; others are left out. A statement is tried three times, a stop with nothing unknown only corrects what is stored, and what changed is recorded in the history.",
    ["inputs", "crash points"], "any stops, times and rows (one stop against one row; two stops against four fixed rows; up to three stops in a message); failures at any step; two messages in a batch",
    "The tests of this application use a few fixed messages and a real database and cannot run here.",
    ["@rail/rami/src/service/process-sm-message.ts", "@rail/rami/src/service/process-udot-message.ts", "@rail/rami/src/dao/udot.ts", "@rail/rami/src/dao/time_table_row.ts", "@rail/rami/src/dao/stop_monitoring_message.ts", "@rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts", "@rail/rami/src/lambda/process-udot-queue/process-udot-queue.ts"],
    [["parseUDOTMessage", "rail/rami/src/service/process-sm-message.ts"], ["processUdotMessage", "rail/rami/src/service/process-udot-message.ts"], ["insertOrUpdate", "rail/rami/src/dao/udot.ts"], ["handlerFn", "rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts"]]),
];

From 1a7f283ef014efb83326efe25b13bb85cef2a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 01/24] fix: WKT polygons keep their rings and parts apart

Rings of a polygon were joined into one parenthesised list, so a hole
became part of the outer ring and parts of a multipolygon became rings of
a single polygon.
---
 lib/digitraffic-common/src/utils/geometry.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index f82ec3a..32a7496 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -49,13 +49,11 @@ function linestring(coordinates: Position[]): string {
 }
 
 function polygon(coordinates: Position[][]): string {
-  const list = coordinates.map((c: Position[]) => linestring(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[]) => `(${linestring(c)})`).join(",");
 }
 
 function multiPolygon(coordinates: Position[][][]): string {
-  const list = coordinates.map((c: Position[][]) => polygon(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[][]) => `(${polygon(c)})`).join(",");
 }
 
 function coordinatePair(coordinate: Position): string {
-- 
2.43.0


From b4d92962156499cee772641667cbcfe1044eb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 02/24] fix: distance between positions accepts coordinate 0

A longitude or latitude of exactly 0 was taken for a missing coordinate.
---
 lib/digitraffic-common/src/utils/geometry.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index 32a7496..d5e0df7 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -140,10 +140,10 @@ export function distanceBetweenPositionsInKm(
   if (
     pos1.length > 3 ||
     pos2.length > 3 ||
-    !pos10 ||
-    !pos11 ||
-    !pos20 ||
-    !pos21
+    !isCoordinate(pos10) ||
+    !isCoordinate(pos11) ||
+    !isCoordinate(pos20) ||
+    !isCoordinate(pos21)
   ) {
     throw Error(
       `Illegal Positions ${pos1.toString()} and ${pos2.toString()}. Both must have length between 2 or 3.`,
@@ -153,6 +153,10 @@ export function distanceBetweenPositionsInKm(
   return distanceBetweenWGS84PointsInKm(pos10, pos11, pos20, pos21);
 }
 
+function isCoordinate(value: number | undefined): value is number {
+  return typeof value === "number" && !Number.isNaN(value);
+}
+
 export function areDistinctPositions(
   previous: Position,
   next: Position,
-- 
2.43.0


From 0695f25c83146b3932196a0938b74067498c14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 03/24] fix: IMO and MMSI numbers are integers

---
 lib/digitraffic-common/src/marine/id_utils.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/marine/id_utils.ts b/lib/digitraffic-common/src/marine/id_utils.ts
index cbcd326..1df29b3 100644
--- a/lib/digitraffic-common/src/marine/id_utils.ts
+++ b/lib/digitraffic-common/src/marine/id_utils.ts
@@ -1,7 +1,12 @@
 import { logger } from "../aws/runtime/dt-logger-default.js";
 
 export function isValidIMO(imo: number): boolean {
-  return imo >= 1000000 && imo <= 9999999 && imoChecksumIsValid(imo);
+  return (
+    Number.isInteger(imo) &&
+    imo >= 1000000 &&
+    imo <= 9999999 &&
+    imoChecksumIsValid(imo)
+  );
 }
 
 function imoChecksumIsValid(imo: number): boolean {
@@ -32,7 +37,7 @@ function imoChecksumIsValid(imo: number): boolean {
 }
 
 export function isValidMMSI(mmsi: number): boolean {
-  return mmsi >= 100000000 && mmsi <= 999999999;
+  return Number.isInteger(mmsi) && mmsi >= 100000000 && mmsi <= 999999999;
 }
 
 const LocodePattern = /^FI[A-Z]{3}$/i;
-- 
2.43.0


From a48dd2cf2e6f5811f5bd83fefa6d53c999176cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 04/24] fix: ETag of a base64 encoded proxy response is the tag
 of its content

---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 85fac99..0e58c56 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -53,9 +53,9 @@ export class LambdaProxyResponseBuilder {
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
     // create strong etag by default from original body
-    this.etag = this.isBase64Encoded
-      ? decodeBase64ToUtf8(this.body)
-      : etag(this.body);
+    this.etag = etag(
+      this.isBase64Encoded ? decodeBase64ToUtf8(this.body) : this.body,
+    );
     return this;
   }
 
-- 
2.43.0


From bb2c17cb4ce00ee8989764fd889879a570618d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 05/24] fix: logging a bigint or an invalid date does not throw

---
 .../src/aws/runtime/dt-logger.ts              | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..c7330ff 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -115,7 +115,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   /**
@@ -177,7 +177,7 @@ export class DtLogger {
         ? `${message.error.name}: ${message.error.message}`
         : typeof message.error === "string"
           ? message.error
-          : JSON.stringify(message.error)
+          : toJson(message.error)
       : undefined;
 
     const stack = message.stack
@@ -198,7 +198,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -229,15 +229,24 @@ function removePrefix(prefix: string, loggable: LoggableType): LoggableType {
   ) as unknown as LoggableType;
 }
 
+/**
+ * Stringifies to JSON, writing bigints as text as JSON doesn't know them.
+ */
+function toJson(value: unknown): string {
+  return JSON.stringify(value, (_key, v: unknown) =>
+    typeof v === "bigint" ? v.toString() : v,
+  );
+}
+
 function valueToString(value: unknown): string {
   if (value === undefined) {
     return "undefined";
   } else if (value === null) {
     return "null";
   } else if (value instanceof Date) {
-    return value.toISOString();
+    return Number.isNaN(value.getTime()) ? "null" : value.toISOString();
   } else if (typeof value !== "string") {
-    return JSON.stringify(value);
+    return toJson(value);
   } else if (value.includes("=")) {
     return JSON.stringify(value);
   }
-- 
2.43.0


From c755da2a658d912c3534c5d5b5264e20d191d429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:36 +0000
Subject: [PATCH 06/24] fix: API integration that only passes the body has a
 request template

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..d2aa3bd 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -146,7 +146,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
-- 
2.43.0


From 2a7b96e11d8bf6aa05bae585871ff896d0718e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 07/24] fix: query parameters passed through to a function are
 escaped

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index d2aa3bd..1000336 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -21,7 +21,7 @@ interface ApiParameter {
 
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
     #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+        #set($tmp = $paramMap.put($util.escapeJavaScript($paramName), $util.escapeJavaScript($params[$paramName])))
     #end
 #end`;
 
-- 
2.43.0


From 5df66d0e625d97d056f26155a763936de677dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 08/24] fix: deprecation note of a parameter has no undefined
 summary before it

---
 lib/digitraffic-common/src/aws/infra/documentation.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/documentation.ts b/lib/digitraffic-common/src/aws/infra/documentation.ts
index 12e39ad..a41e00a 100644
--- a/lib/digitraffic-common/src/aws/infra/documentation.ts
+++ b/lib/digitraffic-common/src/aws/infra/documentation.ts
@@ -116,7 +116,9 @@ export class DocumentationPart {
   deprecated(note: string): this {
     // deprecated is not supported ATM: https://docs.aws.amazon.com/apigateway/latest/developerguide/api-gateway-known-issues.html
     this.documentationProperties.deprecated = true;
-    this.documentationProperties.summary += `. ${note}`;
+    const summary = this.documentationProperties.summary;
+    this.documentationProperties.summary =
+      summary === undefined ? note : `${summary}. ${note}`;
 
     return this;
   }
-- 
2.43.0


From bbf6781a4d6e85b02c344fe0f333efde5836c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 09/24] fix: whitelisting one resource does not whitelist every
 resource

---
 .../src/aws/infra/stack/stack-checking-aspect.ts                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 01269d5..4032936 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -54,7 +54,7 @@ export class StackCheckingAspect implements IAspect {
 
   private isWhitelisted(key: string): boolean | undefined {
     return this.whitelistedResources?.some((wl) => {
-      return key.matchAll(new RegExp(wl, "g"));
+      return new RegExp(wl).test(key);
     });
   }
 
-- 
2.43.0


From 3c4fce0b9d7240394ce6a674ca84ca03e4265e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 10/24] fix: resource path that is a parameter is not reported
 for its casing

---
 .../src/aws/infra/stack/stack-checking-aspect.ts              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 4032936..e31e95c 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -203,6 +203,10 @@ export class StackCheckingAspect implements IAspect {
     if (!path) {
       return false;
     }
+    // a path parameter has no casing to check
+    if (path.startsWith("{")) {
+      return true;
+    }
     // if path includes . or { check only the trailing part of path
     if (path.includes(".")) {
       return StackCheckingAspect.isValidPath(path.split(".")[0]);
-- 
2.43.0


From 64856692bfa27e627737fa09674416d7618d46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:33 +0000
Subject: [PATCH 11/24] fix: expectZero of the database checker must fail when
 rows are found

---
 .../src/aws/infra/canaries/database-checker.ts                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..d27449b 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -52,13 +52,13 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      if (typeof this.minCount === "number" && value.count < this.minCount) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (typeof this.maxCount === "number" && value.count > this.maxCount) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From 0494959c016a40019dee12d40b82531aad69581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:33 +0000
Subject: [PATCH 12/24] fix: a failing check of expect200 must fail the canary
 step

---
 lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..b92c510 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -96,7 +96,7 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      await Promise.all(callbacks.map((c) => c(json, body, res)));
     };
 
     return this.expectStatus(200, url, callback);
-- 
2.43.0


From 989c924ec8bb2dbe19c07e1faca188f85d13aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:35 +0000
Subject: [PATCH 13/24] fix: compressed responses must reach the canary checks
 unpacked

---
 .../src/aws/infra/canaries/url-checker.ts                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index b92c510..28c6740 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -181,8 +181,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -190,7 +190,7 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
-- 
2.43.0


From 56a67224106143936792cc4a3aa8f22545eb2bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:36 +0000
Subject: [PATCH 14/24] fix: getFirst and getLast must not reorder the caller's
 array

---
 lib/digitraffic-common/src/utils/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/utils/utils.ts b/lib/digitraffic-common/src/utils/utils.ts
index 3dde940..5320925 100644
--- a/lib/digitraffic-common/src/utils/utils.ts
+++ b/lib/digitraffic-common/src/utils/utils.ts
@@ -69,7 +69,7 @@ function getFirstOrLast<T>(
   const index = getFirst ? 0 : array.length - 1;
 
   if (sortFunction) {
-    return array.sort(sortFunction)[index] as T;
+    return [...array].sort(sortFunction)[index] as T;
   }
 
   return array[index] as T;
-- 
2.43.0


From 0c45499cc2fe3d34ff8f623f6d613cd368f5c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:18 +0000
Subject: [PATCH 15/24] fix: refuse too low a limit for a path in
 WafRules.per5min

---
 other/cloudfront/src/acl/waf-rules.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/other/cloudfront/src/acl/waf-rules.ts b/other/cloudfront/src/acl/waf-rules.ts
index 6194f5c..0f5b56b 100644
--- a/other/cloudfront/src/acl/waf-rules.ts
+++ b/other/cloudfront/src/acl/waf-rules.ts
@@ -80,6 +80,7 @@ export class WafRules {
       perIpWithoutHeader,
       perIpAndQueryWithHeader,
       perIpAndQueryWithoutHeader,
+      perIpAndQueryWithoutHeaderByPath,
     );
 
     return new WafRules(
-- 
2.43.0


From 581890412cdcee2fcf26b978ea13e15d0ff8e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:18 +0000
Subject: [PATCH 16/24] fix: share a distribution's origin only between
 behaviors that want the same settings

---
 other/cloudfront/src/cloudfront-cdk-stack.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/other/cloudfront/src/cloudfront-cdk-stack.ts b/other/cloudfront/src/cloudfront-cdk-stack.ts
index 7af157d..246d336 100644
--- a/other/cloudfront/src/cloudfront-cdk-stack.ts
+++ b/other/cloudfront/src/cloudfront-cdk-stack.ts
@@ -218,7 +218,19 @@ export class CloudfrontCdkStack extends Stack {
   }
 
   getOrigin(behavior: Behavior): IOrigin {
-    const cacheKey = behavior.origin._origin;
+    const { _type, _origin, _path } = behavior.origin;
+    // s3 and vpc origins are constructs named after the origin, so there can be only one of each name.
+    // Other origins can be shared only by behaviors that want exactly the same origin settings.
+    const cacheKey =
+      _type === "s3" || _type === "vpc"
+        ? JSON.stringify([_type, _origin])
+        : JSON.stringify([
+            _type,
+            _origin,
+            _path,
+            behavior.apiKey,
+            behavior.readTimeout,
+          ]);
 
     if (!this._originCache[cacheKey]) {
       this._originCache[cacheKey] = this.createOrigin(behavior);
-- 
2.43.0


From d8208267866f4548953e314140ce5c943d5030d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:38 +0000
Subject: [PATCH 17/24] fix: a port call message that is not JSON no longer
 fails the whole batch

---
 .../src/lambda/process-queue/process-queue.ts         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marine/portactivity/src/lambda/process-queue/process-queue.ts b/marine/portactivity/src/lambda/process-queue/process-queue.ts
index 309c4d1..8b89ae1 100644
--- a/marine/portactivity/src/lambda/process-queue/process-queue.ts
+++ b/marine/portactivity/src/lambda/process-queue/process-queue.ts
@@ -26,14 +26,15 @@ export function handlerFn(): (
           [];
 
         for (const r of event.Records) {
-          const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
           const start = Date.now();
-          logger.debug({
-            method: "ProcessQueue.handler",
-            message: `processing timestamp ${JSON.stringify(partial)}`,
-          });
 
           try {
+            const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
+            logger.debug({
+              method: "ProcessQueue.handler",
+              message: `processing timestamp ${JSON.stringify(partial)}`,
+            });
+
             const timestamp = await validateTimestamp(partial, db);
 
             if (!timestamp) {
-- 
2.43.0


From 68c50fe49473ffd57f3f745cc84f18cdbad8c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:38 +0000
Subject: [PATCH 18/24] fix: ship list covers the documented 96 hours by
 default

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 09ce833..d3c8602 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -81,7 +81,7 @@ export const handler = (
         event.queryStringParameters,
         secret,
       );
-      const interval = Number.parseInt(parameters.interval ?? "4*24", 10);
+      const interval = Number.parseInt(parameters.interval ?? "96", 10);
 
       return inDatabaseReadonly(
         async (db: DTDatabase): Promise<APIGatewayProxyResult> => {
-- 
2.43.0


From 98208128d05896b14b206051c2c383faab7be0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:38 +0000
Subject: [PATCH 19/24] fix: ship names cannot end the script of the ship list
 page

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index d3c8602..a2f1c1f 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -232,7 +232,7 @@ function getPageSource(shiplist: PublicApiTimestamp[]): string {
 
 </body>
 <script>
-    var shiplist = ${JSON.stringify(shiplist)};
+    var shiplist = ${JSON.stringify(shiplist).replaceAll("<", "\\u003c")};
 
     var currentDate = new Date();
 
-- 
2.43.0


From 3608dd44746f16551f0caf38bc89f143da6b310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:57 +0000
Subject: [PATCH 20/24] fix: passenger information messages with an audio file
 are not dropped

The audio texts of a scheduled message are null or missing if its audio content is a file. The message was then discarded as unparsable.
---
 rail/rami/src/service/process-rosm-message.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rail/rami/src/service/process-rosm-message.ts b/rail/rami/src/service/process-rosm-message.ts
index f31ebbd..75c6d88 100644
--- a/rail/rami/src/service/process-rosm-message.ts
+++ b/rail/rami/src/service/process-rosm-message.ts
@@ -144,7 +144,8 @@ function parseMonitoredJourneyScheduledMessageAudio(
 function parseScheduledMessageAudio(
   audioMessage: RamiScheduledMessageAudio,
 ): DtAudioContent {
-  const audioTexts = audioMessage.audioText as TextContent[];
+  // the texts are missing if the audio content is a file
+  const audioTexts = (audioMessage.audioText ?? []) as TextContent[];
   return {
     textFi: getTextInLanguage(audioTexts, LanguageCodes.FI),
     textSv: getTextInLanguage(audioTexts, LanguageCodes.SV),
-- 
2.43.0


From 4cc6aa0dfe0b653b682faae38d262d58eda05c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:57 +0000
Subject: [PATCH 21/24] fix: rami returns database connections to the pool when
 a query fails

A failed query, or a transaction that could not be started, left its connection reserved. After ten of them every later query waited forever.
---
 rail/rami/src/util/database.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..03cd437 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -39,8 +39,8 @@ export async function inTransaction(
       customEvent: "transaction_started",
     });
 
-    await conn.beginTransaction();
     try {
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From c427c76645cec2e096714861ed0d68fa0e69fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:57 +0000
Subject: [PATCH 22/24] fix: passenger information audio messages tell when
 they are delivered

The documented deliveryAt of an audio message was read from the database but never returned.
---
 rail/rami/src/dao/message.ts         | 4 ++--
 rail/rami/src/service/get-message.ts | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 1f02531..8df916f 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -76,7 +76,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -175,7 +175,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
diff --git a/rail/rami/src/service/get-message.ts b/rail/rami/src/service/get-message.ts
index d5c5ccd..fde056e 100644
--- a/rail/rami/src/service/get-message.ts
+++ b/rail/rami/src/service/get-message.ts
@@ -124,6 +124,7 @@ function dbRamiMessageToPassengerInformationMessage(
               : undefined,
             deliveryType:
               message.audio?.delivery_rules?.delivery_type ?? undefined,
+            deliveryAt: message.audio?.delivery_rules?.delivery_at ?? undefined,
             repetitions:
               message.audio?.delivery_rules?.repetitions ?? undefined,
             repeatEvery:
-- 
2.43.0


From ac66bb76d9d2c0cc06f48c549b4d11334e3ff6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:36 +0000
Subject: [PATCH 23/24] fix: rami dead letters are archived as valid JSON

The description of a failed save is itself JSON text. Its quotes were not escaped.
---
 rail/rami/src/lambda/process-dlq/process-dlq.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..9903f35 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -25,7 +25,7 @@ export const handler = async (event: DlqEvent): Promise<void> => {
 
     try {
       const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
+      const body = `[${JSON.stringify({ errors: dlqMessage.errors })}, ${JSON.stringify(
         dlqMessage.message,
       )}]`;
       const folder = `${dlqMessage.messageType}/${new Date()
-- 
2.43.0


From 64610f5e556edc2e6a33bee55b4cea1135585e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:17 +0000
Subject: [PATCH 24/24] fix: stop monitoring messages that could not be
 processed are tried again

A failed save or send was logged and reported as success, so the message was removed from the queue and its delays and tracks were lost. The queue already retries reported failures and moves them to the dead letter queue.
---
 rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
index cd01bbd..0e3bf31 100644
--- a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
+++ b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
@@ -69,6 +69,7 @@ export function handlerFn(): (
             return Promise.resolve();
           } catch (error) {
             logException(logger, error);
+            return Promise.reject(error);
           }
         }),
       );
-- 
2.43.0


From 7cd1b9d821b707f8cbae096361395f69fed197e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 01/25] fix: respond with an error status when an
 express-wrapper handler or middleware fails

---
 packages/express-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index c9d61ff..6f6946d 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -144,7 +144,7 @@ export const handleRequest = (
         const response = await serviceFn(handlerParams);
         responseEncoder(httpRoute, response)(req, res, next);
       } catch (err) {
-        if (!res.statusCode) {
+        if (res.statusCode < 400) {
           res.status(500);
         }
         res.end();
-- 
2.43.0


From 92cebafff3b280cca909aa02ae6b0ea207339990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 02/25] fix: do not run other handlers after a failed
 express-wrapper request was answered

---
 packages/express-wrapper/src/request.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index 6f6946d..26dc01a 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -147,9 +147,8 @@ export const handleRequest = (
         if (res.statusCode < 400) {
           res.status(500);
         }
+        // The response is complete, so no further handler may run for this request
         res.end();
-        next();
-        return;
       }
     },
   );
-- 
2.43.0


From 1a2e01a6712287c8c3148d487b63cec9483a38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 03/25] fix: stop the express-wrapper middleware chain when a
 middleware passes on or rejects with an error

---
 packages/express-wrapper/src/middleware.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 947760f..3b47eec 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -34,7 +34,8 @@ export function middlewareFn<T extends {}>(fn: MiddlewareFn<T>): MiddlewareHandl
   const result: express.RequestHandler = (req, res, next: MiddlewareNextFn) => {
     fn(req, res)
       .then((result) => next(undefined, result))
-      .catch((err) => next(err));
+      // A falsy error would be taken for success by the caller
+      .catch((err) => next(err || new Error(`Middleware rejected with ${err}`)));
   };
   return result as MiddlewareHandler<T>;
 }
@@ -210,7 +211,7 @@ export async function runMiddlewareChainIgnoringResults<
   for (const middleware of chain) {
     await new Promise((resolve, reject) => {
       try {
-        middleware(req, res, resolve);
+        middleware(req, res, (err?: unknown) => (err ? reject(err) : resolve(undefined)));
       } catch (err) {
         reject(err);
       }
-- 
2.43.0


From b6c4ec95919f08b0010a7196a48617b2e3006294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 04/25] fix: do not modify the values given to optionalized
 codecs

---
 packages/io-ts-http/src/combinators.ts | 66 +++++++++++++++++---------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 1990e20..9587e2e 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -14,6 +14,24 @@ import {
   Simplify,
 } from './utils';
 
+// The value may belong to the caller, so it is copied rather than modified
+const withoutUndefined = <T>(value: T, isStripped: (key: string) => boolean): T => {
+  if (typeof value !== 'object' || value === null) {
+    return value;
+  }
+  const stripped = Object.entries(value)
+    .filter(([key, property]) => property === void 0 && isStripped(key))
+    .map(([key]) => key);
+  if (stripped.length === 0) {
+    return value;
+  }
+  const result: any = { ...value };
+  for (const key of stripped) {
+    delete result[key];
+  }
+  return result;
+};
+
 const partialWithoutUndefined = <P extends t.Props>(
   props: P,
   name?: string,
@@ -30,29 +48,19 @@ const partialWithoutUndefined = <P extends t.Props>(
     (i, ctx) => {
       return pipe(
         partialCodec.validate(i, ctx),
-        E.map((result) => {
-          for (const key of Object.keys(result)) {
-            if (result[key] === void 0) {
-              delete result[key];
-            }
-          }
-          return result as DefinedValues<t.TypeOfPartialProps<P>>;
-        }),
+        E.map(
+          (result) =>
+            withoutUndefined(result, () => true) as DefinedValues<
+              t.TypeOfPartialProps<P>
+            >,
+        ),
       );
     },
-    (a) => {
-      const result = partialCodec.encode(a);
-      if (result === undefined) {
-        // `t.partial` will return this when passed `undefined` even though it is not in the type
-        return result;
-      }
-      for (const key of Object.keys(result)) {
-        if (result[key] === void 0) {
-          delete result[key];
-        }
-      }
-      return result as DefinedValues<t.OutputOfPartialProps<P>>;
-    },
+    // `t.partial` will return `undefined` when passed `undefined` even though it is not in the type
+    (a) =>
+      withoutUndefined(partialCodec.encode(a), () => true) as DefinedValues<
+        t.OutputOfPartialProps<P>
+      >,
     props,
   );
 };
@@ -75,7 +83,7 @@ export const optionalized = <P extends t.Props>(
       requiredProps[key] = codec;
     }
   }
-  return t.intersection([
+  const intersection: OptionalizedC<P> = t.intersection([
     t.type(requiredProps, name ? `required_${name}` : undefined) as t.TypeC<
       RequiredProps<P>
     >,
@@ -84,6 +92,20 @@ export const optionalized = <P extends t.Props>(
       name ? `optional_${name}` : undefined,
     ) as t.PartialC<OptionalProps<P>>,
   ]);
+  // The intersection merges the results of both halves, and the required one still has the
+  // undefined properties
+  const isStripped = (key: string) => !Object.hasOwnProperty.call(requiredProps, key);
+  return new t.IntersectionType(
+    intersection.name,
+    intersection.is,
+    (i, ctx) =>
+      pipe(
+        intersection.validate(i, ctx),
+        E.map((result) => withoutUndefined(result, isStripped)),
+      ),
+    (a) => withoutUndefined(intersection.encode(a), isStripped),
+    intersection.types,
+  ) as OptionalizedC<P>;
 };
 
 export const flattened = <Props extends NestedProps>(
-- 
2.43.0


From c59cd402bb7977750451ca887bf78ab030430836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 05/25] fix: encode path parameters in superagent-wrapper

---
 packages/superagent-wrapper/src/request.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 20d6631..00f3985 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -67,7 +67,9 @@ export interface SuperagentRequest<Res extends Response> extends Promise<Res> {
 export const substitutePathParams = (path: string, params: Record<string, string>) => {
   for (const key in params) {
     if (params.hasOwnProperty(key)) {
-      path = path.replace(`{${key}}`, params[key]);
+      const value = params[key];
+      // A replacement function keeps `$` sequences in the value from being expanded
+      path = path.replace(`{${key}}`, () => encodeURIComponent(value));
     }
   }
   return path;
-- 
2.43.0


From 59d434f7767718a3537b1c2dbe56dbf7301a003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 06/25] fix: decode falsy JSON response bodies in
 superagent-wrapper

---
 packages/superagent-wrapper/src/request.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 00f3985..8be067a 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -130,7 +130,9 @@ const patchRequest = <
   patchedReq.decode = () =>
     req.then((res) => {
       const { body, text, status } = res;
-      const bodyOrText = body || text;
+      // superagent has no parsed body for some responses, but a parsed body may well be falsy
+      const isParsed = body !== undefined && (body !== null || text === 'null');
+      const bodyOrText = isParsed ? body : text;
 
       if (!hasCodecForStatus(route.response, status)) {
         return decodedResponse({
-- 
2.43.0


From e4837a0d0db9f3d174fc11e200052bde8ae97c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 07/25] fix: send falsy request bodies in superagent-wrapper

---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 8be067a..4668f68 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -211,7 +211,7 @@ export const requestForRoute =
       }
     }
 
-    if (reqProps.body) {
+    if (reqProps.body !== undefined) {
       request.set('content-type', 'application/json');
       request = request.send(stringify(reqProps.body));
     }
-- 
2.43.0


From adf476afe50969867dbe9dc272caf203b7eea0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 08/25] fix: leave out undefined headers in superagent-wrapper

---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 4668f68..db2e198 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -206,7 +206,7 @@ export const requestForRoute =
 
     const headers = reqProps.headers ?? {};
     for (const key in headers) {
-      if (headers.hasOwnProperty(key)) {
+      if (headers.hasOwnProperty(key) && headers[key] !== undefined) {
         request = request.set(key, headers[key]);
       }
     }
-- 
2.43.0


From 128c9af5638aab40528b362b84acbd0a9885fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 09/25] fix: do not treat a failing afterEncodedResponseSent
 hook as an encode error

---
 packages/typed-express-router/src/index.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index cb7c0f6..e0915fc 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -133,6 +133,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             apiName,
             httpRoute: route,
           });
+          let sentStatusCode: number | undefined;
           try {
             const codec = route.response[status];
             if (!codec) {
@@ -152,12 +153,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             }
             const encoded = codec.encode(payload);
             res.status(statusCode).json(encoded).end();
-            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
-              statusCode,
-              payload,
-              req as WrappedRequest,
-              res as WrappedResponse,
-            );
+            sentStatusCode = statusCode;
           } catch (err) {
             const statusCode = (
               options?.getEncodeErrorStatusCode ?? getEncodeErrorStatusCode
@@ -171,6 +167,15 @@ export function wrapRouter<Spec extends ApiSpec>(
           } finally {
             endSpan(encodeSpan);
           }
+          // The response is already sent, so a failing hook is not an encode error
+          if (sentStatusCode !== undefined) {
+            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
+              sentStatusCode,
+              payload,
+              req as WrappedRequest,
+              res as WrappedResponse,
+            );
+          }
         };
         next();
       };
-- 
2.43.0


From 0613244b76beca3958968a83d0b96e192166e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 10/25] fix: end and mark tracing spans when decoding or an
 error hook throws

---
 packages/typed-express-router/src/index.ts    | 63 ++++++++++++-------
 .../typed-express-router/src/telemetry.ts     | 22 ++++---
 2 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index e0915fc..5186604 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -116,13 +116,18 @@ export function wrapRouter<Spec extends ApiSpec>(
         // Intentionally passing explicit arguments here instead of decoding
         // req by itself because of issues that arise while using Node 16
         // See https://github.com/BitGo/api-ts/pull/394 for more information.
-        const decoded = route.request.decode({
-          body: req.body,
-          headers: req.headers,
-          params: req.params,
-          query: req.query,
-        });
-        req.decoded = decoded;
+        try {
+          req.decoded = route.request.decode({
+            body: req.body,
+            headers: req.headers,
+            params: req.params,
+            query: req.query,
+          });
+        } catch (err) {
+          recordSpanDecodeError(decodeSpan, String(err));
+          endSpan(decodeSpan);
+          throw err;
+        }
         req.apiName = apiName;
         req.httpRoute = route;
         res.sendEncoded = (
@@ -155,14 +160,18 @@ export function wrapRouter<Spec extends ApiSpec>(
             res.status(statusCode).json(encoded).end();
             sentStatusCode = statusCode;
           } catch (err) {
-            const statusCode = (
-              options?.getEncodeErrorStatusCode ?? getEncodeErrorStatusCode
-            )(err, req);
+            let statusCode: number | undefined;
+            try {
+              statusCode = (
+                options?.getEncodeErrorStatusCode ?? getEncodeErrorStatusCode
+              )(err, req);
+            } finally {
+              recordSpanEncodeError(encodeSpan, err, statusCode);
+            }
             const encodeErrorMessage = (
               options?.encodeErrorFormatter ?? encodeErrorFormatter
             )(err, req);
 
-            recordSpanEncodeError(encodeSpan, err, statusCode);
             res.status(statusCode).json(encodeErrorMessage);
           } finally {
             endSpan(encodeSpan);
@@ -181,19 +190,25 @@ export function wrapRouter<Spec extends ApiSpec>(
       };
 
       const endDecodeSpanMiddleware: UncheckedRequestHandler = (req, _res, next) => {
-        pipe(
-          req.decoded,
-          E.getOrElseW((errs) => {
-            const decodeErrorMessage = (
-              options?.decodeErrorFormatter ?? decodeErrorFormatter
-            )(errs, req);
-            const statusCode = (
-              options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
-            )(errs, req);
-            recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
-          }),
-        );
-        endSpan(decodeSpan);
+        try {
+          pipe(
+            req.decoded,
+            E.getOrElseW((errs) => {
+              const decodeErrorMessage = (
+                options?.decodeErrorFormatter ?? decodeErrorFormatter
+              )(errs, req);
+              const statusCode = (
+                options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
+              )(errs, req);
+              recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
+            }),
+          );
+        } catch (err) {
+          recordSpanDecodeError(decodeSpan, String(err));
+          throw err;
+        } finally {
+          endSpan(decodeSpan);
+        }
         next();
       };
 
diff --git a/packages/typed-express-router/src/telemetry.ts b/packages/typed-express-router/src/telemetry.ts
index 1340c67..01ef0e7 100644
--- a/packages/typed-express-router/src/telemetry.ts
+++ b/packages/typed-express-router/src/telemetry.ts
@@ -139,14 +139,16 @@ export function createSendEncodedSpan(metadata: SpanMetadata): Span | undefined
 export function recordSpanEncodeError(
   span: Span | undefined,
   error: unknown,
-  statusCode: number,
+  statusCode?: number,
 ): void {
   if (!span || !otelApi) {
     return;
   }
-  setSpanAttributes(span, {
-    [ApiTsAttributes.API_TS_STATUS_CODE]: statusCode,
-  });
+  if (statusCode !== undefined) {
+    setSpanAttributes(span, {
+      [ApiTsAttributes.API_TS_STATUS_CODE]: statusCode,
+    });
+  }
   span.recordException(error instanceof Error ? error : new Error(String(error)));
   span.setStatus({ code: otelApi.SpanStatusCode.ERROR });
 }
@@ -155,19 +157,21 @@ export function recordSpanEncodeError(
  * Records errors on a decode span
  * @param span The span to record the errors on
  * @param error The JSON error value to record
- * @param statusCode The HTTP status code
+ * @param statusCode The HTTP status code, if it is known
  */
 export function recordSpanDecodeError(
   span: Span | undefined,
   error: Json,
-  statusCode: number,
+  statusCode?: number,
 ): void {
   if (!span || !otelApi) {
     return;
   }
-  setSpanAttributes(span, {
-    [ApiTsAttributes.API_TS_STATUS_CODE]: statusCode,
-  });
+  if (statusCode !== undefined) {
+    setSpanAttributes(span, {
+      [ApiTsAttributes.API_TS_STATUS_CODE]: statusCode,
+    });
+  }
   span.recordException(JSON.stringify(error, null, 2));
   span.setStatus({ code: otelApi.SpanStatusCode.ERROR });
 }
-- 
2.43.0


From 11f92a397c4e37ce5445baf9fc2da99c02aca69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 11/25] fix: keep the codecs known to one openapi-generator
 project out of others

---
 packages/openapi-generator/src/project.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 1075690..e72108e 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -22,7 +22,8 @@ export class Project {
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
     this.pendingFiles = new Set();
-    this.knownImports = knownImports;
+    // Codecs loaded for this project must not become known to other projects
+    this.knownImports = { ...knownImports };
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
-- 
2.43.0


From 1c04942473a9d63576abb6d5907c720cbeab0a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 12/25] fix: do not let the generated document depend on the
 working directory

---
 packages/openapi-generator/src/ref.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 5e10ca4..7e91ab9 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -1,9 +1,9 @@
 import type { Schema, Reference } from './ir';
-import fs from 'fs';
+import * as p from 'node:path';
 
 export function getRefs(schema: Schema, typeMap: Record<string, string>): Reference[] {
   if (schema.type === 'ref') {
-    if (!fs.existsSync(schema.location)) {
+    if (!p.isAbsolute(schema.location)) {
       // The location is a node module - we need to populate the location here
       const newPath = typeMap[schema.name];
       if (!newPath) {
-- 
2.43.0


From dc400c7ec0d8a1fcb5bad405d21e08e413e82cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 13/25] fix: end when recursive types of the same name come
 from several files

---
 packages/openapi-generator/src/cli.ts | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a51f8b7..40ad893 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -157,7 +157,6 @@ const app = command({
         ...Object.values(route.response),
       ];
     });
-    const componentLocations: Record<string, string> = {};
     const componentCollisionCounters: Record<string, number> = {};
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
@@ -175,10 +174,7 @@ const app = command({
     while (((schema = queue.pop()), schema !== undefined)) {
       const refs = getRefs(schema, project.getTypes());
       for (const ref of refs) {
-        if (
-          components[ref.name] !== undefined &&
-          componentLocations[ref.name] === ref.location
-        ) {
+        if (componentNameMapping[ref.location]?.[ref.name] !== undefined) {
           continue;
         }
 
@@ -247,7 +243,6 @@ const app = command({
         }
 
         components[componentName] = codecE.right;
-        componentLocations[componentName] = ref.location;
         queue.push(codecE.right);
       }
     }
-- 
2.43.0


From d15c10bb3236360eb2d25abf6978d1f9d23ef7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 14/25] fix: do not write debug output to the generator's
 standard output

---
 packages/openapi-generator/src/cli.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 40ad893..8b8e676 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -205,7 +205,6 @@ const app = command({
         const [newSourceFile, init, comment] = initE.right;
 
         if (init === null) {
-          console.log({ ref });
           let errorMessage = `Could not determine encode/decode types for codec '${ref.name}' in '${ref.location}'`;
           if (ref.location.includes('/node_modules/io-ts-types/')) {
             errorMessage += `
-- 
2.43.0


From 1923930df9d5c486b775eea6004c3e65752f00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 15/25] fix: fail when the document cannot be written to
 standard output

---
 packages/openapi-generator/src/cli.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 8b8e676..8d17598 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -258,7 +258,8 @@ const app = command({
       componentNameMapping,
     );
 
-    console.log(JSON.stringify(openapi, null, 2));
+    // Unlike `console.log`, this does not ignore write errors
+    process.stdout.write(`${JSON.stringify(openapi, null, 2)}\n`);
   },
 });
 
-- 
2.43.0


From 34479d0d89c037cde6023ff9a269707518eb31ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 16/25] fix: report I/O errors of module resolution instead of
 taking the module as missing

---
 packages/openapi-generator/src/error.ts   | 13 +++++++++++++
 packages/openapi-generator/src/project.ts | 11 ++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/error.ts b/packages/openapi-generator/src/error.ts
index f4bcdb2..971e92b 100644
--- a/packages/openapi-generator/src/error.ts
+++ b/packages/openapi-generator/src/error.ts
@@ -21,6 +21,19 @@ export function stripStacktraceOfErrors(errors: string[]) {
   return errors.map((e) => e!.split('\n')[0]);
 }
 
+/**
+ * Tells errors of the operating system while accessing a file from a file that does not exist.
+ * @param e the error to check
+ * @returns true if the error means that it is unknown whether the file exists or what it contains
+ */
+export function isIOError(e: unknown): boolean {
+  return (
+    e instanceof Error &&
+    'syscall' in e &&
+    !['ENOENT', 'ENOTDIR'].includes((e as NodeJS.ErrnoException).code ?? '')
+  );
+}
+
 // helper functions for logging
 export function logError(message: string): void {
   console.error(`[ERROR] ${message}`);
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index e72108e..204c7a8 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -6,7 +6,7 @@ import resolve from 'resolve';
 
 import { KNOWN_IMPORTS, type KnownCodec } from './knownImports';
 import { parseSource, type SourceFile } from './sourceFile';
-import { errorLeft, logInfo } from './error';
+import { errorLeft, isIOError, logInfo } from './error';
 
 const readFile = promisify(fs.readFile);
 
@@ -161,6 +161,9 @@ export class Project {
       });
       return E.right(entryPoint);
     } catch (err) {
+      if (isIOError(err)) {
+        throw err;
+      }
       return errorLeft(`Could not resolve entry point for ${library}: ${err}`);
     }
   }
@@ -173,6 +176,9 @@ export class Project {
       });
       return E.right(result);
     } catch (e: unknown) {
+      if (isIOError(e)) {
+        throw e;
+      }
       if (e instanceof Error && e.message) {
         return errorLeft(e.message);
       }
@@ -202,6 +208,9 @@ export class Project {
         extensions: ['.json'],
       });
     } catch (e) {
+      if (isIOError(e)) {
+        throw e;
+      }
       // This should not lead to the failure of the entire project, so return an empty record
       return E.right({});
     }
-- 
2.43.0


From 08d21f6747b53bab9401d2bdb5239cf0ebeb7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 17/25] fix: do not modify the schema objects that custom
 codecs hand out

---
 packages/openapi-generator/src/codec.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 86f2e1c..a397de5 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -450,6 +450,9 @@ export function parsePlainInitializer(
   }
 }
 
+// A custom codec may hand out the same schema object every time, but the result is annotated per use
+const copySchema = (schema: Schema): Schema => ({ ...schema });
+
 function parseFunctionBody(
   project: Project,
   source: SourceFile,
@@ -488,7 +491,7 @@ export function parseCodecInitializer(
     }
 
     const deref: DerefFn = () => E.left('Unimplemented deref');
-    return identifier.schema(deref);
+    return pipe(identifier.schema(deref), E.map(copySchema));
   } else if (init.type === 'CallExpression') {
     const callee = init.callee;
     if (callee.type !== 'Identifier' && callee.type !== 'MemberExpression') {
@@ -570,6 +573,7 @@ export function parseCodecInitializer(
       E.sequenceArray,
       E.chain((args) => pipe(args.map(deref), E.sequenceArray)),
       E.chain((args) => identifier.schema(deref, ...args)),
+      E.map(copySchema),
     );
   } else {
     return errorLeft(`Unimplemented initializer type ${init.type}`);
-- 
2.43.0


From 075c1e7c1640aaa7649504edfa8729e24cbc03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 18/25] fix: do not modify schemas of custom codecs while
 optimizing

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cb877d4..ea5c7b0 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -215,7 +215,7 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
 // This function is a helper that adds back any comments that were removed during optimization
 function withComment(newSchema: Schema, oldSchema: Schema): Schema {
   if (oldSchema.comment) {
-    newSchema.comment = combineComments(oldSchema);
+    return { ...newSchema, comment: combineComments(oldSchema) };
   }
 
   return newSchema;
-- 
2.43.0


From 26c4e5d04e86f7ce2ed727581ab2777ca9f13a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 19/25] fix: sort the document the same way under every locale

---
 packages/openapi-generator/src/openapi.ts  | 4 ++--
 packages/openapi-generator/src/optimize.ts | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3b4e6d5..b8b5668 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -516,11 +516,11 @@ export function convertRoutesToOpenAPI(
   );
 
   const sortedPaths = Object.keys(paths)
-    .sort((a, b) => a.localeCompare(b))
+    .sort((a, b) => a.localeCompare(b, 'en'))
     .reduce(
       (acc, key) => {
         const sortedMethods = Object.keys(paths[key]!)
-          .sort((a, b) => a.localeCompare(b))
+          .sort((a, b) => a.localeCompare(b, 'en'))
           .reduce(
             (methodAcc, methodKey) => {
               methodAcc[methodKey] = paths[key]![methodKey]!;
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index ea5c7b0..8fc0db4 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -117,7 +117,7 @@ function mergeUnions(schema: Schema): Schema {
         : Object.assign(
             {},
             ...Object.entries(obj)
-              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB))
+              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB, 'en'))
               .map(([k, v]) => ({ [k]: sortObj(v) })),
           );
 
-- 
2.43.0


From 84b2ba4b9b88416ff12f3e923a5989018ba53406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 20/25] fix: a component renamed after a name collision
 overwrote one that has that name already

---
 packages/openapi-generator/src/cli.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 8d17598..3c66fb7 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -165,7 +165,10 @@ const app = command({
       if (components[name] === undefined) {
         return name;
       }
-      const counter = (componentCollisionCounters[name] ?? 0) + 1;
+      let counter = componentCollisionCounters[name] ?? 0;
+      do {
+        counter += 1;
+      } while (components[`${name}${counter}`] !== undefined);
       componentCollisionCounters[name] = counter;
       return `${name}${counter}`;
     };
-- 
2.43.0


From 2d686c85557ff4be6f1bdc8b90789357c6f4cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 21/25] fix: codecs exported or re-exported under another name
 were taken for others of that name, or not found

---
 packages/openapi-generator/src/codec.ts       | 27 ++++++++++++++++---
 packages/openapi-generator/src/resolveInit.ts | 16 +++++++++++
 packages/openapi-generator/src/symbol.ts      |  3 +++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index a397de5..6e39d98 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -14,6 +14,21 @@ import { errorLeft } from './error';
 
 type ResolvedIdentifier = Schema | { type: 'codec'; schema: KnownCodec };
 
+// The name that stands for an initializer in the file that declares it. The one it was imported by may be
+// unknown there, or belong to something else, when it was exported or re-exported under another name.
+function declaredName(
+  project: Project,
+  source: SourceFile,
+  init: swc.Expression,
+  name: string,
+): string {
+  const namedE = findSymbolInitializer(project, source, name);
+  if (E.isRight(namedE) && namedE.right[1] === init) {
+    return name;
+  }
+  return source.symbols.declarations.find((s) => s.init === init)?.name ?? name;
+}
+
 function codecIdentifier(
   project: Project,
   source: SourceFile,
@@ -44,11 +59,11 @@ function codecIdentifier(
     if (E.isLeft(initE)) {
       return initE;
     }
-    const [newSourceFile] = initE.right;
+    const [newSourceFile, newInit] = initE.right;
 
     return E.right({
       type: 'ref',
-      name: imp.importedName,
+      name: declaredName(project, newSourceFile, newInit, imp.importedName),
       location: newSourceFile.path,
     });
   } else if (id.type === 'MemberExpression') {
@@ -115,7 +130,13 @@ function codecIdentifier(
         return newInitE;
       }
 
-      return E.right({ type: 'ref', name, location: newInitE.right[0].path });
+      const [newSourceFile, newInit] = newInitE.right;
+
+      return E.right({
+        type: 'ref',
+        name: declaredName(project, newSourceFile, newInit, name),
+        location: newSourceFile.path,
+      });
     }
 
     // Parse member expressions that come from `import { foo } from 'foo'` imports
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index eff1797..e4f3161 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -38,6 +38,13 @@ function findExportedDeclaration(
 ): E.Either<string, ResolvedInitializer> {
   for (const exp of sourceFile.symbols.exports) {
     if (exp.exportedName === name) {
+      if (exp.from !== undefined) {
+        const fromSourceFile = resolveImportPath(project, sourceFile, exp.from);
+        if (E.isLeft(fromSourceFile)) {
+          return errorLeft(`Cannot resolve export '${name}' from '${exp.from}'`);
+        }
+        return findExportedDeclaration(project, fromSourceFile.right, exp.localName);
+      }
       return findSymbolInitializer(project, sourceFile, exp.localName);
     }
   }
@@ -89,6 +96,15 @@ export function findSymbolInitializer(
       return findExportedDeclaration(project, impSourceFile.right, imp.importedName);
     }
   }
+  // The name may be the one that a declaration of this file is exported by
+  const exp = sourceFile.symbols.exports.find(
+    (s) => s.exportedName === name && s.from === undefined,
+  );
+  for (const declaration of sourceFile.symbols.declarations) {
+    if (declaration.name === exp?.localName) {
+      return E.right([sourceFile, declaration.init, declaration.comment]);
+    }
+  }
   return errorLeft(`Unknown identifier ${name}`);
 }
 
diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index ddb7527..3127e61 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -22,6 +22,8 @@ export type Export = {
   type: 'named';
   exportedName: string;
   localName: string;
+  // Where the name comes from when it is exported without being imported (`export { foo } from 'bar'`)
+  from?: string;
 };
 
 export type Declaration = {
@@ -85,6 +87,7 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
           type: 'named',
           exportedName: specifier.exported?.value ?? specifier.orig.value,
           localName: specifier.orig.value,
+          ...(decl.source ? { from: decl.source.value } : {}),
         });
         if (decl.source) {
           result.imports.push({
-- 
2.43.0


From a7249fbff3e2abc8439838a4d885c883f1f02983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 22/25] fix: spreads, computed keys and template literals
 looked up imported constants by name in the wrong file

---
 packages/openapi-generator/src/codec.ts       | 10 +++++-----
 packages/openapi-generator/src/resolveInit.ts | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 6e39d98..94ed029 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,7 @@ import { leadingComment } from './comments';
 import type { Object, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findRefInitializer, findSymbolInitializer } from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -244,7 +244,7 @@ function parseObjectExpression(
       }
       let schema = schemaE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
+        const realInitE = findRefInitializer(project, source, schema);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -291,7 +291,7 @@ function parseObjectExpression(
       }
       let schema = valueE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
+        const realInitE = findRefInitializer(project, source, schema);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -348,7 +348,7 @@ function parseArrayExpression(
     if (element.spread) {
       let init = valueE.right;
       if (init.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, init.name);
+        const realInitE = findRefInitializer(project, source, init);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -391,7 +391,7 @@ function parseTemplateLiteral(
     ) {
       return E.right(String(schema.enum[0]));
     } else if (schema.type === 'ref') {
-      const realInitE = findSymbolInitializer(project, source, schema.name);
+      const realInitE = findRefInitializer(project, source, schema);
       if (E.isLeft(realInitE)) {
         return realInitE;
       }
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index e4f3161..f28ab16 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -3,6 +3,7 @@ import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
 import { dirname } from 'node:path';
 
+import type { Reference } from './ir';
 import type { Project } from './project';
 import type { SourceFile } from './sourceFile';
 import { errorLeft } from './error';
@@ -108,6 +109,24 @@ export function findSymbolInitializer(
   return errorLeft(`Unknown identifier ${name}`);
 }
 
+// Finds what a reference in a source file stands for, whatever the names in that file mean
+export function findRefInitializer(
+  project: Project,
+  sourceFile: SourceFile,
+  ref: Reference,
+): E.Either<string, ResolvedInitializer> {
+  const refSourceFile = project.get(ref.location);
+  if (refSourceFile !== undefined) {
+    return findSymbolInitializer(project, refSourceFile, ref.name);
+  }
+  // The location is the name of a package
+  const packageSourceFile = resolveImportPath(project, sourceFile, ref.location);
+  if (E.isLeft(packageSourceFile)) {
+    return findSymbolInitializer(project, sourceFile, ref.name);
+  }
+  return findExportedDeclaration(project, packageSourceFile.right, ref.name);
+}
+
 export function resolveLiteralOrIdentifier(
   project: Project,
   sourceFile: SourceFile,
-- 
2.43.0


From 864aca27edf221a0c6e265766f81192a529bd08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:20 +0000
Subject: [PATCH 23/25] fix: a declaration without an initializer in the entry
 file made the generator crash

---
 packages/openapi-generator/src/cli.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 3c66fb7..c341d39 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -111,7 +111,8 @@ const app = command({
     let apiSpec: Route[] = [];
     let servers: OpenAPIV3.ServerObject[] = [];
     for (const symbol of Object.values(entryPoint.symbols.declarations)) {
-      if (symbol.init === undefined) {
+      // A declaration without an initializer has `null` here
+      if (symbol.init === undefined || symbol.init === null) {
         continue;
       } else if (symbol.init.type !== 'CallExpression') {
         continue;
-- 
2.43.0


From c2f4b18eaeab0c5417ebe2ea513f1df6917242ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 24/25] fix: parameters of request alternatives declared as
 constants were missing from the document

---
 packages/openapi-generator/src/route.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 69eeb7c..fa96e33 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -128,10 +128,11 @@ function parseRequestUnion(
   const parameters: Parameter[] = [];
   const querySchema: Schema = { type: 'union', schemas: [] };
   const headerSchema: Schema = { type: 'union', schemas: [] };
+  const subSchemas: Schema[] = [];
   let body: Schema | undefined;
 
   for (let subSchema of schema.schemas) {
-    if (subSchema.type === 'ref') {
+    while (subSchema.type === 'ref') {
       let derefE = derefRequestSchema(project, subSchema);
       if (E.isLeft(derefE)) {
         return derefE;
@@ -142,6 +143,7 @@ function parseRequestUnion(
     if (subSchema.type !== 'object') {
       return errorLeft('Route request union must be all objects');
     }
+    subSchemas.push(subSchema);
     if (subSchema.properties['query'] !== undefined) {
       querySchema.schemas.push(subSchema.properties['query']);
     }
@@ -172,7 +174,7 @@ function parseRequestUnion(
     // For headers in unions, deduplicate and merge properties from all schemas
     const headerParams = new Map<string, Parameter>();
 
-    for (const subSchema of schema.schemas) {
+    for (const subSchema of subSchemas) {
       if (
         subSchema.type === 'object' &&
         subSchema.properties['headers']?.type === 'object'
@@ -196,7 +198,7 @@ function parseRequestUnion(
   }
 
   // Find the first schema in the union that has path parameters
-  for (const subSchema of schema.schemas) {
+  for (const subSchema of subSchemas) {
     if (subSchema.type === 'object') {
       const pathSchema = subSchema.properties['params'];
       if (pathSchema !== undefined && pathSchema.type === 'object') {
-- 
2.43.0


From ac39819a7e3dca0fd182177c6de95442cbe3e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 25/25] fix: request alternatives that come from a package were
 not found

---
 packages/openapi-generator/src/route.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index fa96e33..3e2f397 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -34,7 +34,10 @@ function derefRequestSchema(
   schema: Schema,
 ): E.Either<string, Schema> {
   if (schema.type === 'ref') {
-    const sourceFile = project.get(schema.location);
+    const sourceFile =
+      project.get(schema.location) ??
+      // The location may be the name of a package
+      project.get(project.getTypes()[schema.name] ?? schema.location);
     if (sourceFile === undefined) {
       return errorLeft(`Could not find '${schema.name}' from '${schema.location}'`);
     }
-- 
2.43.0


From b59579c44e1b1fdfe7defc107403de43f7921a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:00 +0000
Subject: [PATCH 01/21] fix: write() no longer adds GPS reference tags to the
 caller's tags object

---
 src/WriteTask.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 10aa6b2..b64a502 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -159,6 +159,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     tags: WriteTags,
     options: Partial<WriteTaskOptions> & Required<ExifToolTaskOptions>,
   ): WriteTask {
+    // We may add GPS reference tags below: don't modify the caller's object.
+    tags = { ...tags };
+
     // Special handling for GPSLatitude and GPSLongitude (due to differences
     // in EXIF, XMP, and MIE encodings). See
     // https://exiftool.org/forum/index.php?topic=14488.0 and
-- 
2.43.0


From 31693b422db72ee8a474928a7a674ca91aedcc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:33 +0000
Subject: [PATCH 02/21] fix: serialize and escape lists nested in written
 structs

---
 src/WriteTask.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index b64a502..8a696d3 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -63,10 +63,12 @@ function enc(
   } else if (isDateOrTime(o)) {
     return toExifString(o);
   } else if (Array.isArray(o)) {
-    const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
+    // -sep only splits top-level values: lists within structs must be serialized
+    const primitiveArray =
+      !structValue && o.every((ea) => isString(ea) || isNumber(ea));
     return primitiveArray
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
+      : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-- 
2.43.0


From e401efba8c14bd8568436d745a213280b4b88360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:06 +0000
Subject: [PATCH 03/21] fix: parseJSON no longer calls inherited members for
 unknown _ctor values

---
 src/JSON.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/JSON.ts b/src/JSON.ts
index 695fd3a..c987349 100644
--- a/src/JSON.ts
+++ b/src/JSON.ts
@@ -44,7 +44,9 @@ export function parseJSON(s: string) {
       "_ctor" in value &&
       typeof value._ctor === "string"
     ) {
-      return Revivers[value._ctor]?.(value as JsonObject) ?? value;
+      return Object.prototype.hasOwnProperty.call(Revivers, value._ctor)
+        ? (Revivers[value._ctor]?.(value as JsonObject) ?? value)
+        : value;
     }
     if (key === "invalidUtf8Bytes") {
       return reviveInvalidUtf8Bytes(value);
-- 
2.43.0


From 30128327a0aca13af71e3e8e612a7ad4fc2d8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:06 +0000
Subject: [PATCH 04/21] fix: tag descriptions are not looked up on
 Object.prototype

---
 src/TagDescriptions.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cc12083..aeb2093 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -404,6 +404,13 @@ export class TagDescriptions {
     return this.#options.language === "en" ? CuratedDescriptions : {};
   }
 
+  #getCurated(tagName: string): TagDescription | undefined {
+    const curated = this.#curated;
+    return Object.prototype.hasOwnProperty.call(curated, tagName)
+      ? curated[tagName]
+      : undefined;
+  }
+
   /**
    * Synchronous lookup of a tag description.
    * Returns undefined if descriptions haven't been loaded or tag is unknown.
@@ -414,7 +421,7 @@ export class TagDescriptions {
    * @returns Tag description or undefined
    */
   get(tagName: string): TagDescription | undefined {
-    return this.#curated[tagName] ?? this.#cacheSync?.get(tagName);
+    return this.#getCurated(tagName) ?? this.#cacheSync?.get(tagName);
   }
 
   /**
@@ -425,7 +432,7 @@ export class TagDescriptions {
    * @returns Promise resolving to tag description or undefined
    */
   async getAsync(tagName: string): Promise<TagDescription | undefined> {
-    return this.#curated[tagName] ?? (await this.#cache()).get(tagName);
+    return this.#getCurated(tagName) ?? (await this.#cache()).get(tagName);
   }
 
   /**
-- 
2.43.0


From ada3d77770369928cc9aab9354a4448b3f079d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:06 +0000
Subject: [PATCH 05/21] fix: a struct field named __proto__ no longer replaces
 the prototype of the parsed struct

---
 src/ReadTask.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index c8d7dbf..5dd3ae7 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -386,7 +386,13 @@ export class ReadTask extends ExifToolTask<Tags> {
       if (isObject(value)) {
         const result: Record<string, unknown> = {};
         for (const [k, v] of Object.entries(value)) {
-          result[k] = this.#parseTag(tagName + "." + k, v);
+          // defineProperty, because k may be "__proto__":
+          Object.defineProperty(result, k, {
+            value: this.#parseTag(tagName + "." + k, v),
+            configurable: true,
+            enumerable: true,
+            writable: true,
+          });
         }
         return result;
       }
-- 
2.43.0


From c58784d2641ac7ea3e0166a30efb3bce4386ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:20 +0000
Subject: [PATCH 06/21] fix: ExifTime.setZone returns a time in the requested
 zone

---
 src/ExifTime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 491e734..9094b01 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -120,7 +120,7 @@ export class ExifTime {
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-      this.zone,
+      getZoneName({ zone: dt.zone }),
       this.inferredZone,
       this.millisecond == null,
     );
-- 
2.43.0


From 671ad66d2cc32954ddaebbfb27752e5e997fd66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:20 +0000
Subject: [PATCH 07/21] fix: ExifDateTime.fromMillis no longer deletes zone
 from the caller's options

---
 src/ExifDateTime.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index e7d2fd7..3998ae4 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -212,6 +212,7 @@ export class ExifDateTime {
     millis: number,
     options: DateTimeJSOptions & { rawValue?: string } = {},
   ) {
+    options = { ...options };
     if (
       options.zone == null ||
       [UnsetZoneName, UnsetZone].includes(options.zone)
-- 
2.43.0


From b75700666cb8403fb6ea949a99f5db9937fb6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:20 +0000
Subject: [PATCH 08/21] fix: forceWrite given to the ExifTool constructor is
 honoured

---
 src/ExifTool.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4eb6ea3..646b3bd 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -305,7 +305,9 @@ export class ExifTool {
     return exiftoolPath(this.options.logger());
   });
 
-  #taskOptions = lazy(() => pick(this.options, "ignoreMinorErrors"));
+  #taskOptions = lazy(() => 
+    pick(this.options, "ignoreMinorErrors", "forceWrite"),
+  );
 
   /**
    * Register life cycle event listeners. Delegates to BatchCluster.
-- 
2.43.0


From 9c78642966ceb313d3eb04fbb5c630b38efc778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:35 +0000
Subject: [PATCH 09/21] fix: the deprecated includeImageDataMD5 option takes
 effect again

---
 src/ExifTool.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 646b3bd..6bb61ff 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -249,10 +249,10 @@ export class ExifTool {
         "Please update caller to the new ExifTool constructor API",
       );
     }
-    const o = handleDeprecatedOptions({
+    const o = {
       ...DefaultExifToolOptions,
-      ...options,
-    });
+      ...handleDeprecatedOptions({ ...options }),
+    };
 
     // Backward compatibility: if options.logger is provided, set it as the global logger
     const options_logger = options.logger;
@@ -383,7 +383,9 @@ export class ExifTool {
   ): Promise<T> {
     const opts = {
       ...pick(this.options, ...ReadTaskOptionFields),
-      ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      ...handleDeprecatedOptions({
+        ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      }),
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
-- 
2.43.0


From b6a28014bfbc293ca2f226f42774a42ac2dc47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:17 +0000
Subject: [PATCH 10/21] fix: read() returns tags whose names match
 Object.prototype members

---
 src/ReadTask.ts | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 5dd3ae7..bf5e388 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -84,6 +84,16 @@ export type ReadTaskOptions = Partial<typeof DefaultReadTaskOptions>;
 
 const MaybeDateOrTimeRe = /when|date|time|subsec|creat|modif/i;
 
+/** Like `o[key] = value`, but safe when `key` is `"__proto__"`. */
+function setOwn(o: object, key: string, value: unknown): void {
+  Object.defineProperty(o, key, {
+    value,
+    configurable: true,
+    enumerable: true,
+    writable: true,
+  });
+}
+
 export class ReadTask extends ExifToolTask<Tags> {
   private readonly degroup: boolean;
   #raw: Record<string, unknown> = {};
@@ -217,7 +227,7 @@ export class ReadTask extends ExifToolTask<Tags> {
       this.#rawDegrouped = {};
       for (const [key, value] of Object.entries(this.#raw)) {
         const k = this.#tagName(key);
-        this.#rawDegrouped[k] = value;
+        setOwn(this.#rawDegrouped, k, value);
       }
     } else {
       this.#rawDegrouped = this.#raw;
@@ -240,14 +250,14 @@ export class ReadTask extends ExifToolTask<Tags> {
     for (const [key, value] of Object.entries(this.#raw)) {
       const k = this.#tagName(key);
       // Did something already set this? (like GPS tags)
-      if (key in tags) continue;
+      if (Object.hasOwn(tags, key)) continue;
       const v = this.#parseTag(k, value);
       // Note that we set `key` (which may include a group prefix):
       if (v == null) {
         // Use Reflect.deleteProperty for dynamic keys
         Reflect.deleteProperty(tags, key);
       } else {
-        tags[key] = v;
+        setOwn(tags, key, v);
       }
     }
 
@@ -386,13 +396,7 @@ export class ReadTask extends ExifToolTask<Tags> {
       if (isObject(value)) {
         const result: Record<string, unknown> = {};
         for (const [k, v] of Object.entries(value)) {
-          // defineProperty, because k may be "__proto__":
-          Object.defineProperty(result, k, {
-            value: this.#parseTag(tagName + "." + k, v),
-            configurable: true,
-            enumerable: true,
-            writable: true,
-          });
+          setOwn(result, k, this.#parseTag(tagName + "." + k, v));
         }
         return result;
       }
-- 
2.43.0


From 282791f00e0bf84397a19515739beb3b5b8b3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:39 +0000
Subject: [PATCH 11/21] fix: entity-encoded delimiters in struct fields no
 longer alter the written struct

---
 src/WriteTask.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 8a696d3..439f6b6 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -49,7 +49,10 @@ function enc(
         o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
-    for (let i = 0; i < htmlDecodeLayers; i++) {
+    // ExifTool decodes entities before it parses a serialized structure: without
+    // protection, an entity-encoded delimiter in a field would alter the structure.
+    const layers = Math.max(htmlDecodeLayers, structValue ? 1 : 0);
+    for (let i = 0; i < layers; i++) {
       entityProtected = entityProtected.replace(/&/g, "&#38;");
     }
     if (
-- 
2.43.0


From ae569b5af38dc48b5223e19b5e5188a8c5066210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 12/21] fix: case-insensitive path comparison conflated paths
 that differ in accents
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

On macOS and Windows a read whose output names /p/é.jpg was accepted for
/p/e.jpg: ignore only the letter case.
---
 src/File.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/File.ts b/src/File.ts
index 1df91eb..69fd547 100644
--- a/src/File.ts
+++ b/src/File.ts
@@ -47,5 +47,5 @@ export function compareFilePaths(a: string, b: string): boolean {
   const bNorm = normalize(b);
   return isPlatformCaseSensitive()
     ? aNorm === bNorm
-    : aNorm.localeCompare(bNorm, undefined, { sensitivity: "base" }) === 0;
+    : aNorm.localeCompare(bNorm, undefined, { sensitivity: "accent" }) === 0;
 }
-- 
2.43.0


From 730f9880ad2a15048b5a3270baa0e316f57a1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:34 +0000
Subject: [PATCH 13/21] fix: a failure while inferring the timezone no longer
 fails the read

A TimeStamp that ExifTool renders as a JSON number (with
inferTimezoneFromTimeStamp enabled) made read() reject with
'iso.match is not a function'.
---
 src/ReadTask.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index bf5e388..93d4376 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -339,6 +339,15 @@ export class ReadTask extends ExifToolTask<Tags> {
   #tz = lazy(() => this.#extractTzOffset()?.tz);
 
   #extractTzOffset = lazy<Maybe<TzSrc>>(() => {
+    try {
+      return this.#inferTzOffset();
+    } catch (error) {
+      this.warnings.push("Failed to infer timezone: " + error);
+      return;
+    }
+  });
+
+  #inferTzOffset(): Maybe<TzSrc> {
     if (true === this.options.preferTimezoneInferenceFromGps) {
       const fromGps = this.#extractTzOffsetFromGps();
       if (fromGps != null) {
@@ -366,7 +375,7 @@ export class ReadTask extends ExifToolTask<Tags> {
       // No, really, this is the even worse than UTC offset heuristics:
       extractTzOffsetFromTimeStamp(this.#rawDegrouped, this.options)
     );
-  });
+  }
 
   #parseTag(tagName: string, value: unknown): unknown {
     if (nullish(value)) return undefined;
-- 
2.43.0


From 57c038ac3564a1a9b48b833d39a13ddc25e31b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:52 +0000
Subject: [PATCH 14/21] fix: a written struct may have a field named
 "constructor"

---
 src/Struct.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Struct.ts b/src/Struct.ts
index 8984b34..7f42223 100644
--- a/src/Struct.ts
+++ b/src/Struct.ts
@@ -7,7 +7,8 @@ export type Struct = {
 export function isStruct(o: unknown): o is Struct {
   return (
     o != null &&
-    o.constructor?.name === "Object" &&
+    // (a field may itself be named "constructor")
+    Object.getPrototypeOf(o)?.constructor?.name === "Object" &&
     Object.values(o).every((v) => {
       const t = typeof v;
       return (
-- 
2.43.0


From 876c73b5fe462f90a614aa3e6045caa7eba49dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:35 +0000
Subject: [PATCH 15/21] fix: a logger given as an object is usable by the
 instance

---
 src/ExifTool.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 6bb61ff..8c63bae 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -260,6 +260,7 @@ export class ExifTool {
       const providedLogger = isFunction(options_logger)
         ? options_logger
         : () => options_logger;
+      o.logger = providedLogger;
       Settings.logger.value = providedLogger;
     }
 
-- 
2.43.0


From 624b5ba82b080c6e554b058b6738e0c2f87a5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:35 +0000
Subject: [PATCH 16/21] fix: Settings.logger takes effect on instances and on
 the batch-cluster logger

---
 src/DefaultExifToolOptions.ts | 3 ++-
 src/Settings.ts               | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index a330767..ee78668 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -9,6 +9,7 @@ import { exiftoolPath } from "./ExiftoolPath";
 import { geoTz } from "./GeoTz";
 import { isWin32 } from "./IsWin32";
 import { Omit } from "./Omit";
+import { Settings } from "./Settings";
 import { Tags } from "./Tags";
 import { VersionTask } from "./VersionTask";
 
@@ -24,7 +25,7 @@ export const ConsoleLogger: bc.Logger = {
 };
 
 function logger(): bc.Logger {
-  return debuglog("exiftool-vendored").enabled ? ConsoleLogger : bc.NoLogger;
+  return Settings.logger.value();
 }
 
 /**
diff --git a/src/Settings.ts b/src/Settings.ts
index 7b572ab..72436a5 100644
--- a/src/Settings.ts
+++ b/src/Settings.ts
@@ -181,3 +181,6 @@ export const Settings = {
     }
   },
 };
+
+// The read tasks log through batch-cluster's global logger:
+Settings.logger.onChange((_old, logger) => bc.setLogger(logger()));
-- 
2.43.0


From 5b154316831609f4cc9afe76e41e9288a45fad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:57 +0000
Subject: [PATCH 17/21] fix: extractZone() rejects minutes and seconds beyond
 59, like the other zone helpers

---
 src/Timezones.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7180b4a..6b1b6da 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -997,7 +997,11 @@ export function extractZone(
     // Handle both ASCII minus (-) and Unicode minus (−, U+2212)
     const sign = MinusRE.test(capturedGroups.sign ?? "") ? -1 : 1;
     const offsetMinutes = sign * (hours * 60 + minutes + seconds / 60);
-    const zone = offsetMinutesToZoneName(offsetMinutes);
+    // "+05:60" is not an offset (see parseTimezoneOffsetToMinutes)
+    const zone =
+      minutes < 60 && seconds < 60
+        ? offsetMinutesToZoneName(offsetMinutes)
+        : undefined;
     if (zone != null) {
       return {
         zone,
-- 
2.43.0


From 94dea6f8e19216a6b12e43990db0df160a8415a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 18/21] fix: dates without a zone keep their wall clock time in
 the system zone's daylight saving gap

---
 src/ExifDateTime.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 3998ae4..8aa7948 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -276,7 +276,8 @@ export class ExifDateTime {
   ): Maybe<ExifDateTime> {
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      src:
+        opts?.keepLocalTime === false ? this.toDateTime() : this.#wallClock(),
       srcHasZone: this.hasZone,
       opts,
     });
@@ -318,6 +319,14 @@ export class ExifDateTime {
     }));
   }
 
+  /**
+   * Unlike `toDateTime()`, instances without a zone are not placed into the
+   * system zone, whose daylight saving gaps would change the wall clock time.
+   */
+  #wallClock(): DateTime {
+    return this.toDateTime(this.hasZone ? undefined : "UTC");
+  }
+
   toEpochSeconds(overrideZone?: Maybe<string>) {
     return this.toDateTime(overrideZone).toUnixInteger();
   }
@@ -328,7 +337,7 @@ export class ExifDateTime {
 
   toISOString(options: ToISOTimeOptions = {}): Maybe<string> {
     return denull(
-      this.toDateTime().toISO({
+      this.#wallClock().toISO({
         suppressMilliseconds:
           options.suppressMilliseconds ?? this.millisecond == null,
         includeOffset: this.hasZone && options.includeOffset !== false,
@@ -337,7 +346,7 @@ export class ExifDateTime {
   }
 
   toExifString() {
-    return dateTimeToExif(this.toDateTime(), {
+    return dateTimeToExif(this.#wallClock(), {
       includeOffset: this.hasZone,
       includeMilliseconds: this.millisecond != null,
     });
@@ -424,7 +433,7 @@ export class ExifDateTime {
   }
 
   plus(duration: DurationLike) {
-    let dt = this.toDateTime().plus(duration);
+    let dt = this.#wallClock().plus(duration);
     if (!this.hasZone) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
-- 
2.43.0


From 23cd9f1f4a8621e44b3d41f26b1f65001cd6121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:33 +0000
Subject: [PATCH 19/21] fix: decode numeric apostrophes in listed tag
 descriptions

---
 src/TagDescriptions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index aeb2093..d1df35a 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -590,7 +590,7 @@ export class TagDescriptions {
       .replace(/&lt;/g, "<")
       .replace(/&gt;/g, ">")
       .replace(/&quot;/g, '"')
-      .replace(/&apos;/g, "'")
+      .replace(/&(?:apos|#39);/g, "'")
       .replace(/&amp;/g, "&");
   }
 }
-- 
2.43.0


From 8d2f6e5e2f8097fc95214b139e7ea7d0560584ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:52 +0000
Subject: [PATCH 20/21] fix: coordinates between 0 and -1 degrees keep their
 sign

---
 src/CoordinateParser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 945897f..9a400e1 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -275,13 +275,14 @@ export function parseCoordinate(
 
 function toDecimalDegrees(coord: Omit<Coordinate, "decimal">): number {
   const degrees = toFloat(coord.degrees) ?? 0;
-  const sign = Math.sign(degrees);
+  // "-0° 30'" is south or west, too
+  const negative = degrees < 0 || Object.is(degrees, -0);
   let decimal = Math.abs(degrees);
 
   decimal += Math.abs(toFloat(coord.minutes) ?? 0) / 60.0;
   decimal += Math.abs(toFloat(coord.seconds) ?? 0) / 3600.0;
 
-  if (coord.direction === "S" || coord.direction === "W" || sign < 0) {
+  if (coord.direction === "S" || coord.direction === "W" || negative) {
     decimal = -decimal;
   }
 
-- 
2.43.0


From 26e0bbb5f2b2160be489d4624dddfe85001e9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:52 +0000
Subject: [PATCH 21/21] fix: output file names with percent signs are written
 as requested

---
 src/BinaryExtractionTask.ts |  4 +++-
 src/File.ts                 | 21 ++++++++++++++++++++-
 src/RewriteAllTagsTask.ts   |  3 ++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index 5f71225..3e86e4d 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -2,6 +2,7 @@ import { mkdirSync } from "node:fs";
 import path from "node:path";
 import { ExifToolOptions } from "./ExifToolOptions";
 import { ExifToolTask } from "./ExifToolTask";
+import { outputFileArg } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { toS } from "./String";
@@ -39,6 +40,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
     options?: BinaryExtractionTaskOptions,
   ): BinaryExtractionTask {
     validateTagName(tagname);
+    const dest = outputFileArg(imgDest);
     // Ensure the destination directory exists:
     mkdirSync(path.dirname(imgDest), { recursive: true });
 
@@ -58,7 +60,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
       // I also tried `-out` instead of `-W`, and that didn't work at least on
       // ExifTool 13.17.
       forceWrite ? "-W!" : "-W",
-      path.resolve(imgDest),
+      dest,
       path.resolve(imgSrc),
     ];
     return new BinaryExtractionTask(args, options);
diff --git a/src/File.ts b/src/File.ts
index 69fd547..7e78f55 100644
--- a/src/File.ts
+++ b/src/File.ts
@@ -1,5 +1,5 @@
 import { stat } from "node:fs/promises";
-import { normalize } from "node:path";
+import { normalize, resolve } from "node:path";
 import { lazy } from "./Lazy";
 import { blank } from "./String";
 
@@ -49,3 +49,22 @@ export function compareFilePaths(a: string, b: string): boolean {
     ? aNorm === bNorm
     : aNorm.localeCompare(bNorm, undefined, { sensitivity: "accent" }) === 0;
 }
+
+/**
+ * ExifTool expands codes like `%f` in names of output files, which would send
+ * the output to another file than the one requested.
+ * @param path - the requested output file
+ * @returns an argument that makes ExifTool write to the requested output file
+ * @throws if ExifTool cannot write to that file
+ */
+export function outputFileArg(path: string): string {
+  const result = resolve(path);
+  // "%0f" expands to nothing, and separates a percent sign from what follows.
+  // There is no such way out for copy numbers, which ExifTool expands last.
+  if (/%[-+]?\d*[.:]?\d*[lun]?c/i.test(result)) {
+    throw new Error(
+      "ExifTool would expand the copy number in " + JSON.stringify(result),
+    );
+  }
+  return result.replace(/%/g, "%%0f");
+}
diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 61a4d9d..23d831e 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -1,6 +1,7 @@
 import * as _path from "node:path";
 import { compact } from "./Array";
 import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
+import { outputFileArg } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 
 /**
@@ -35,7 +36,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
       "-icc_profile",
       opts.allowMakerNoteRepair ? "-F" : undefined,
       "-out",
-      _path.resolve(imgDest),
+      outputFileArg(imgDest),
       _path.resolve(imgSrc),
     ]);
     return new RewriteAllTagsTask(args, opts);
-- 
2.43.0


"use strict";
const { H, T, U, V, L, litOf, one, mkStr } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const F = require("../lib/frame");
const S = V.str, FILE = "/p/a.jpg";
const TRUE = V.TRUE, FALSE = V.FALSE;
module.exports = {
  level: "other", floor: 150,
  explain: "Abstract interpretation of the constructor and of every public operation with caller-owned objects and arrays of every accepted shape (unknown leaves); at the moment a command is submitted and when the call settles, the heap content of every caller-owned object, of the instance's options and of the exported default options is compared with what it was before the call.",
  rule: "no property or element of an object reachable from the arguments, from the instance's options or from an exported default is added, removed or changed",
  run(rep) {
    // exported default values
    const defaults = (h, st) => {
      const out = [];
      for (const [f, n] of [["src/ExifTool.ts", "DefaultExifToolOptions"], ["src/ExifTool.ts", "DefaultReadTaskOptions"], ["src/ExifTool.ts", "DefaultWriteTaskOptions"], ["src/ExifTool.ts", "DefaultExiftoolArgs"], ["src/ExifTool.ts", "TimezoneOffsetTagnames"], ["src/ExifTool.ts", "CapturedAtTagNames"], ["src/ReadRawTask.ts", "DefaultReadRawTaskOptions"], ["src/DeleteAllTagsArgs.ts", "DeleteAllTagsArgs"], ["src/FilenameCharsetArgs.ts", "Utf8FilenameCharsetArgs"], ["src/ExifToolTask.ts", "ExifToolTaskOptionKeys"], ["src/ExifTool.ts", "ReadTaskOptionFields"], ["src/ExifTool.ts", "WriteTaskOptionFields"]]) {
        let v; try { v = h.e.exported(f, n, st); } catch { v = null; }
        if (v) out.push([n, v]);
      }
      rep.count("default_values", 0);
      return out;
    };
    let defs = 0;
    const judge = (h, name, snap, st, when) => {
      const ch = F.changes(h, snap, st);
      const hard = ch.filter((c) => !c.vague);
      rep.ob(!ch.length ? true : hard.length && !st.impr.size ? false : null, name, ch.length ? ch.slice(0, 3).map((c) => c.name + (c.key === "[]" ? "'s elements" : "." + c.key) + " " + c.what).join(", ") + " " + when : snap.ids.size + " objects unchanged " + when);
    };
    const run = (name, op, mkArgs, opt = {}) => rep.scenario(name, () => {
      let h, snap = null;
      const hooks = {
        onEnqueue(task, st, n) {
          if (snap) judge(h, name, snap, st, "when the command is submitted");
          if (!opt.doc) return undefined;
          const e = h.e;
          return e.seq(e.getProp(task, "parser", st, n), (st, p) => e.call(p, task, [h.sym("OUT", T.S), S(opt.stderr || ""), V.TRUE].map(one), st, n).map((o) => ({ st: o.st, v: o.thr ? e.mkPromise(o.st, "err", o.thr, n, "served") : e.mkPromise(o.st, "ok", o.v, n, "served") })));
        },
        // rich values are opaque: building one from text is not the subject
        onCall(fnNode, fn, thisV, args, st, node) {
          const f = (n) => n.getSourceFile().fileName;
          if (!opt.doc || !/(ExifDateTime|ExifDate|ExifTime|BinaryField)\.ts$/.test(f(fnNode)) || !node || /(ExifDateTime|ExifDate|ExifTime|BinaryField)\.ts$/.test(f(node)) || /constructor/.test(fn || "")) return null;
          if (/Timezones\.ts$/.test(f(node))) return [{ st, v: U }];
          return [{ st, v: h.e.syms.named("rich@" + h.e.siteKey(node), "a rich value", { ty: T.O, tr: true }, { rich: true, plain: false }) }];
        },
        onJsonParse(v, a, st, n) { if (![...h.e.roots(v)].includes("OUT")) return null; return [{ st, v: h.e.jsonBuild(st, [{ SourceFile: FILE, ...opt.doc(h, st) }], null, "doc@" + h.e.siteKey(n)) }]; },
      };
      h = new H({ root: rep.repo, fsNoFail: true, hooks, maxMs: 12000 });
      const st0 = h.state();
      const io = opt.inst ? opt.inst(st0, h) : h.obj(st0, { taskRetries: V.num(0), geoTz: V.nat("Array.isArray") }, "inst");
      const d0 = defaults(h, st0); defs = Math.max(defs, d0.length);
      const snap0 = F.snapshot(h, [["the constructor options", io], ...d0], st0);
      const i = h.instance(st0, io);
      judge(h, name, snap0, i.st, "by the constructor");
      const args = mkArgs ? mkArgs(i.st, h) : [];
      if (!op) { rep.addEngine(h.e); return; }
      const inst = h.e.getProp(i.v, "options", i.st, null);
      snap = F.snapshot(h, [...args.map((a, k) => ["argument " + (k + 1), a]), ["the constructor options", io], ...(inst[0] && inst[0].v ? [["the instance options", inst[0].v]] : []), ...defaults(h, i.st)], i.st);
      const outs = h.settle(h.call(h.method(i.v, op, i.st), i.v, args, i.st));
      for (const o of outs) judge(h, name, snap, o.st, "after the call");
      rep.addEngine(h.e);
    });
    const A = (st, h, xs, t) => h.arr(st, xs.map((x) => (typeof x === "string" ? S(x) : x)), t);
    const txt = (h, n) => h.sym(n, T.S);
    const low = (h, st, n, re = "[a-m]{3,5}") => { const v = h.sym(n, T.S); h.e.refine(st, v.id, { ty: T.S, lang: L.reExact(re) }); return v; };
    // ---- constructor options
    const I = (props) => (st, h) => h.obj(st, { taskRetries: V.num(0), ...props(st, h) }, "inst");
    run("constructor: lists and environment", null, null, { inst: I((st, h) => ({ numericTags: A(st, h, ["Orientation"], "n"), readArgs: A(st, h, ["-fast"], "ra"), writeArgs: A(st, h, ["-m"], "wa"), exiftoolArgs: A(st, h, ["-stay_open", "True", "-@", "-"], "ea"), exiftoolEnv: h.obj(st, { A: txt(h, "ENV") }, "env") })) });
    run("constructor: environment with LANG", null, null, { inst: I((st, h) => ({ exiftoolEnv: h.obj(st, { LANG: txt(h, "ENV"), EXIFTOOL_HOME: txt(h, "EH") }, "env") })) });
    run("constructor: deprecated hash option", null, null, { inst: I((st, h) => ({ includeImageDataMD5: h.sym("MD5", T.B) })) });
    run("constructor: hash options", null, null, { inst: I((st, h) => ({ includeImageDataMD5: h.sym("MD5", T.B), imageHashType: h.sym("HT", T.S | T.B | T.U) })) });
    run("constructor: scalars", null, null, { inst: I((st, h) => ({ maxProcs: h.sym("MP", T.D), maxTasksPerProcess: h.sym("MT", T.D), taskTimeoutMillis: h.sym("TT", T.D), useMWG: h.sym("MWG", T.B | T.U), struct: h.sym("ST", T.D | T.S | T.U), ignoreMinorErrors: h.sym("IG", T.B | T.U), checkPerl: h.sym("CP", T.B | T.U), ignoreShebang: h.sym("IS", T.B | T.U), geolocation: h.sym("G", T.B | T.U), defaultVideosToUTC: h.sym("DV", T.B | T.U) })) });
    run("constructor: logger and factory", null, null, { inst: I((st, h) => ({ logger: V.nat("caller.fn"), processFactory: V.nat("caller.fn"), geoTz: V.nat("Array.isArray") })) });
    // ---- reads
    const RO = (st, h) => h.obj(st, { readArgs: A(st, h, ["-fast", txt(h, "RA")], "ra"), numericTags: A(st, h, ["Orientation", "GPS*"], "nt"), useMWG: h.sym("MWG", T.B | T.U), struct: V.num(1), imageHashType: U, includeImageDataMD5: TRUE, geolocation: FALSE, keepUTCTime: h.sym("KEEP", T.B | T.U), ignoreMinorErrors: h.sym("IGN", T.B | T.U), backfillTimezones: FALSE, inferTimezoneFromDatestamps: FALSE }, "ro");
    const doc = (h, st) => ({ Make: leaf(low(h, st, "M")), Keywords: [leaf(low(h, st, "K1")), "q"], S: { f: leaf(low(h, st, "F")), g: ["q"] }, MIMEType: "image/jpeg", Error: "e1", Warning: "w1" });
    run("read: options", "read", (st, h) => [S(FILE), RO(st, h)], { doc });
    run("read: no options", "read", () => [S(FILE)], { doc });
    run("read: options of the instance", "read", () => [S(FILE)], { doc, inst: I((st, h) => ({ readArgs: A(st, h, ["-fast"], "ra"), numericTags: A(st, h, ["Orientation"], "nt"), includeImageDataMD5: TRUE, geoTz: V.nat("Array.isArray") })) });
    for (const a of [["-fast"], [], ["-G"], ["-api", "filter=x"], ["-json"], ["-all"]]) {
      run("read: readArgs " + JSON.stringify(a), "read", (st, h) => [S(FILE), h.obj(st, { readArgs: A(st, h, a, "ra") }, "o")], { doc });
      run("readRaw: readArgs " + JSON.stringify(a), "readRaw", (st, h) => [S(FILE), h.obj(st, { readArgs: A(st, h, a, "ra") }, "o")], { doc });
      run("read: legacy arguments " + JSON.stringify(a), "read", (st, h) => [S(FILE), A(st, h, a, "ra"), h.obj(st, { useMWG: TRUE, includeImageDataMD5: TRUE }, "o")], { doc });
      run("readRaw: legacy arguments " + JSON.stringify(a), "readRaw", (st, h) => [S(FILE), A(st, h, a, "ra"), h.obj(st, { useMWG: TRUE }, "o")], { doc });
      run("read: instance readArgs " + JSON.stringify(a), "read", () => [S(FILE)], { doc, inst: I((st, h) => ({ readArgs: A(st, h, a, "ra"), geoTz: V.nat("Array.isArray") })) });
    }
    for (const nt of [[], ["Orientation"], ["*GPS*", "FocalLength"]]) run("read: numericTags " + JSON.stringify(nt), "read", (st, h) => [S(FILE), h.obj(st, { numericTags: A(st, h, nt, "n") }, "o")], { doc });
    for (const [a, b] of [[TRUE, U], [FALSE, U], [TRUE, S("SHA256")], [U, FALSE], [U, S("MD5")]]) for (const inst of [false, true]) {
      const nm = "read: includeImageDataMD5 " + (a.k === "u" ? "absent" : a.v) + ", imageHashType " + (litOf(b) || b.k) + (inst ? " (instance)" : "");
      const o = (st, h) => ({ ...(a.k === "u" ? {} : { includeImageDataMD5: a }), ...(b.k === "u" ? {} : { imageHashType: b }) });
      if (inst) run(nm, "read", () => [S(FILE)], { doc, inst: I((st, h) => ({ ...o(st, h), geoTz: V.nat("Array.isArray") })) });
      else run(nm, "read", (st, h) => [S(FILE), h.obj(st, o(st, h), "o")], { doc });
    }
    // documents that exercise tag interpretation (GPS, time zone, dates, adjustments)
    const DOCS = {
      gps: () => ({ GPSLatitude: 12, GPSLatitudeRef: "S", GPSLongitude: 13, GPSLongitudeRef: "W", GPSPosition: "1 2" }),
      "bad gps": () => ({ GPSLatitude: 120, GPSLongitude: 13 }),
      zone: () => ({ OffsetTime: "+02:00", DateTimeOriginal: "2020:01:02 03:04:05" }),
      "utc delta": () => ({ DateTimeOriginal: "2020:01:02 03:04:05", DateTimeUTC: "2020:01:02 05:04:05" }),
      video: () => ({ MIMEType: "video/mp4", CreateDate: "2020:01:02 03:04:05" }),
      binary: () => ({ ThumbnailImage: "(Binary data 4096 bytes, use -b option to extract)" }),
      malformed: () => ({ Title: { __etvInvalidUtf8V1: { replacement: "s:ab", rawBase64: "b64:/w==" } } }),
      errors: () => ({ Error: ["e1", "e2"], Warning: ["w1", "w2"] }),
    };
    for (const [n, d] of Object.entries(DOCS)) {
      run("read of " + n, "read", (st, h) => [S(FILE), h.obj(st, { numericTags: A(st, h, ["GPS*"], "n"), defaultVideosToUTC: TRUE, backfillTimezones: TRUE, inferTimezoneFromDatestamps: TRUE, inferTimezoneFromDatestampTags: A(st, h, ["DateTimeOriginal"], "it"), ignoreZeroZeroLatLon: TRUE }, "o")], { doc: d, stderr: "Warning: w0" });
      run("readRaw of " + n, "readRaw", (st, h) => [S(FILE), h.obj(st, { readArgs: A(st, h, ["-fast"], "ra") }, "o")], { doc: d, stderr: "Warning: w0" });
    }
    run("read: position lookup fails", "read", (st, h) => [S(FILE), h.obj(st, { geoTz: V.nat("caller.throws"), numericTags: A(st, h, ["GPS*"], "n") }, "o")], { doc: DOCS.gps });
    // ---- writes
    const VALS = {
      string: (h) => txt(h, "V"), number: (h) => h.sym("V", T.D), boolean: () => TRUE, null: () => V.NULL, undefined: () => U,
      list: (h, st) => A(st, h, [txt(h, "V1"), txt(h, "V2")], "l"), "number list": (h, st) => A(st, h, [h.sym("V1", T.D), V.NULL, U], "l"), "empty list": (h, st) => A(st, h, [], "l"),
      struct: (h, st) => h.obj(st, { A: txt(h, "V1"), B: h.sym("V2", T.D), C: V.NULL, D: U }, "s"), "struct with list": (h, st) => h.obj(st, { A: A(st, h, [txt(h, "V1")], "l") }, "s"),
      "list of structs": (h, st) => A(st, h, [h.obj(st, { A: txt(h, "V1") }, "s"), h.obj(st, { A: txt(h, "V2") }, "s2")], "l"), "nested struct": (h, st) => h.obj(st, { A: h.obj(st, { B: A(st, h, [h.obj(st, { C: txt(h, "V1") }, "s3")], "l") }, "s2") }, "s"),
    };
    const WO = (st, h) => h.obj(st, { writeArgs: A(st, h, ["-m", txt(h, "WA")], "wa"), useMWG: h.sym("MWG", T.B | T.U), struct: V.num(1), ignoreMinorErrors: h.sym("IGN", T.B | T.U) }, "wo");
    for (const [n, f] of Object.entries(VALS)) for (const tag of ["Title", "GPSLatitude", "XMP:Subject", "Orientation#"]) {
      run("write: " + tag + " = " + n, "write", (st, h) => [S(FILE), h.obj(st, { [tag]: f(h, st), Make: S("q") }, "tags"), WO(st, h)]);
      if (tag === "Title") run("write: " + tag + " = " + n + ", no options", "write", (st, h) => [S(FILE), h.obj(st, { [tag]: f(h, st) }, "tags")]);
    }
    for (const [n, f] of [["numbers", (h, st) => ({ GPSLatitude: h.sym("LA", T.D), GPSLongitude: h.sym("LO", T.D), GPSAltitude: h.sym("AL", T.D) })], ["texts", (h, st) => ({ GPSLatitude: txt(h, "LA"), GPSLongitude: txt(h, "LO"), GPSAltitude: txt(h, "AL"), GPSLatitudeRef: txt(h, "R") })], ["nulls", () => ({ GPSLatitude: V.NULL, GPSLongitude: V.NULL, GPSAltitude: V.NULL })], ["numbers and refs", (h) => ({ GPSLatitude: V.num(-12), GPSLongitude: V.num(-13), GPSAltitude: V.num(-1), GPSLatitudeRef: S("S"), GPSLongitudeRef: S("W"), GPSAltitudeRef: S("Below Sea Level") })]])
      for (const o of [null, WO]) run("write: GPS " + n + (o ? " with options" : ""), "write", (st, h) => [S(FILE), h.obj(st, f(h, st), "tags"), ...(o ? [o(st, h)] : [])]);
    for (const wa of [[], ["-overwrite_original"], ["-m", "-P"]]) {
      run("write: legacy arguments " + JSON.stringify(wa), "write", (st, h) => [S(FILE), h.obj(st, { Title: txt(h, "V") }, "tags"), A(st, h, wa, "wa"), h.obj(st, { useMWG: TRUE }, "o")]);
      run("write: writeArgs " + JSON.stringify(wa), "write", (st, h) => [S(FILE), h.obj(st, { Title: txt(h, "V") }, "tags"), h.obj(st, { writeArgs: A(st, h, wa, "wa") }, "o")]);
      run("write: instance writeArgs " + JSON.stringify(wa), "write", (st, h) => [S(FILE), h.obj(st, { Title: txt(h, "V") }, "tags")], { inst: I((st, h) => ({ writeArgs: A(st, h, wa, "wa") })) });
      run("editTags: writeArgs " + JSON.stringify(wa), "editTags", (st, h) => [S(FILE), A(st, h, [h.obj(st, { tag: S("Subject"), operation: S("add"), value: low(h, st, "V") }, "e")], "edits"), h.obj(st, { writeArgs: A(st, h, wa, "wa") }, "o")]);
      run("deleteAllTags: writeArgs " + JSON.stringify(wa), "deleteAllTags", (st, h) => [S(FILE), h.obj(st, { writeArgs: A(st, h, wa, "wa"), retain: A(st, h, ["Orientation"], "r") }, "o")]);
    }
    run("write: no tags", "write", (st, h) => [S(FILE), h.obj(st, {}, "tags"), h.obj(st, { writeArgs: A(st, h, [], "wa") }, "o")]);
    // ---- edits
    const E = { add: (h, st) => ({ operation: S("add"), value: low(h, st, "V") }), remove: (h, st) => ({ operation: S("remove"), value: low(h, st, "V") }) };
    for (const tag of ["Subject", "Keywords", "IPTC:Keywords", "XMP-dc:Subject", "XMP:Subject", "nonsense"]) for (const [n, f] of Object.entries(E))
      run("editTags: " + n + " " + tag, "editTags", (st, h) => [S(FILE), A(st, h, [h.obj(st, { tag: S(tag), ...f(h, st) }, "e"), h.obj(st, { tag: S(tag), ...E.add(h, st), value: S("zz") }, "e2")], "edits"), WO(st, h)]);
    run("editTags: collection value", "editTags", (st, h) => [S(FILE), A(st, h, [h.obj(st, { tag: S("XMP-mwg-coll:Collections"), operation: S("add"), value: h.obj(st, { CollectionName: low(h, st, "N"), CollectionURI: low(h, st, "U") }, "c") }, "e")], "edits")]);
    run("editTags: collection predicate", "editTags", (st, h) => [S(FILE), A(st, h, [h.obj(st, { tag: S("XMP-mwg-coll:Collections"), operation: S("remove"), predicate: h.obj(st, { CollectionName: low(h, st, "N") }, "c") }, "e")], "edits")]);
    // ---- the rest
    for (const r of [[], ["Orientation"], ["Orientation", "ICC_Profile"]]) run("deleteAllTags: retain " + JSON.stringify(r), "deleteAllTags", (st, h) => [S(FILE), h.obj(st, { retain: A(st, h, r, "r"), useMWG: FALSE }, "o")]);
    for (const m of ["extractThumbnail", "extractPreview", "extractJpgFromRaw"]) run(m, m, (st, h) => [S(FILE), S("/p/o.jpg"), h.obj(st, { forceWrite: h.sym("FW", T.B | T.U), ignoreMinorErrors: h.sym("IG", T.B | T.U) }, "o")]);
    run("extractBinaryTag", "extractBinaryTag", (st, h) => [S("ThumbnailImage"), S(FILE), S("/p/o.jpg"), h.obj(st, { forceWrite: h.sym("FW", T.B | T.U), ignoreMinorErrors: h.sym("IG", T.B | T.U) }, "o")]);
    run("extractBinaryTagToBuffer", "extractBinaryTagToBuffer", (st, h) => [S("ThumbnailImage"), S(FILE), h.obj(st, { ignoreMinorErrors: h.sym("IG", T.B | T.U) }, "o")], { doc: () => ({ ThumbnailImage: "base64:AAAA" }) });
    run("rewriteAllTags", "rewriteAllTags", (st, h) => [S(FILE), S("/p/o.jpg"), h.obj(st, { allowMakerNoteRepair: h.sym("AM", T.B | T.U), ignoreMinorErrors: h.sym("IG", T.B | T.U) }, "o")]);
    rep.cov.default_values = defs;
    if (!defs) rep.ob(null, "defaults", "no exported default found");
  },
};

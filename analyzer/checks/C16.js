"use strict";
const { H, T, U, V, L, mkStr, litOf } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const S = V.str, FILE = "/p/a.jpg";
// the interpretation of values lives in the classes of rich values
const RICH = /\/(ExifDateTime|ExifTime|ExifDate|BinaryField)\.ts$/;
const fileOf = (n) => (n ? n.getSourceFile().fileName : "");
module.exports = {
  level: "other", floor: 300,
  explain: "Abstract interpretation of read() from ExifTool's document to the reported tags. Documents have a fixed shape (each class of tag name and of value) with unknown leaves. The interpretation of a value (the classes of rich values) and the caller's callbacks are replaced by: throws, returns nothing, returns some value - the code around them is analysed as it is.",
  rule: "the read resolves; every tag of the document (other than null-like values) is an own property of the result; its value is the raw value, or a rich value made from it; when interpretation throws, the value is the raw value and the warnings name the tag",
  run(rep, { tier }) {
    const str = (n) => (h) => leaf(h.sym(n, T.S)), num = (n) => (h) => leaf(h.sym(n, T.D, { fact: { nan: false, lo: -1e15, hi: 1e15 } }));
    const text = (n, re) => (h, st) => { const x = h.sym(n, T.S); h.e.refine(st, x.id, { ty: T.S, lang: L.inter(re ? L.reExact(re) : L.ALL, L.not(L.reExact("\\s*(?:undef|null|undefined)\\s*"))) }); return leaf(x); };
    const build = (h, st, x) => (typeof x === "function" ? x(h, st) : Array.isArray(x) ? x.map((y) => build(h, st, y)) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, build(h, st, v)])) : x);
    const TZ = { geoTz: V.nat("Array.isArray") };
    const isRich = (h, v, st) => {
      if (v.k === "o") { const o = st.get(v.id); return !!(o && o.ctor !== undefined && /^(ExifDateTime|ExifTime|ExifDate|BinaryField)$/.test(st.get(o.ctor).name || "")); }
      return false;
    };
    // is the value in the result the raw value, or made from it?
    //  0 = certainly not, 1 = yes, null = cannot tell
    const same = (h, v, raw, st, exact, depth = 0) => {
      v = h.e.resolve(v, st);
      if (raw && raw.k === "leaf") {
        const a = h.e.resolve(raw.abs, st);
        if (V.key(a) === V.key(v)) return 1;
        if (isRich(h, v, st)) return exact ? 0 : 1;
        if (v.k === "y" && h.e.syms.get(v.id).rich) return exact ? 0 : 1;
        if (!exact && (v.k === "b" || v.k === "y")) return [...h.e.roots(v)].some((r) => [...h.e.roots(a)].includes(r)) ? 1 : v.k === "b" ? 1 : null;
        if (v.k === "u" || v.k === "n") return 0;
        if (v.k === "y") return null;
        return exact ? 0 : null;
      }
      if (raw === null) return v.k === "u" || v.k === "n" ? 1 : 0;
      if (typeof raw !== "object") {
        const l = v.k === "d" || v.k === "b" ? v.v : litOf(v);
        if (l === raw) return 1;
        if (isRich(h, v, st) || (v.k === "y" && h.e.syms.get(v.id).rich)) return exact || typeof raw !== "string" ? 0 : 1;
        if (!exact && v.k === "b" && typeof raw === "string") return 1;
        return v.k === "y" ? null : 0;
      }
      if (v.k !== "o") return v.k === "y" ? null : 0;
      let r = 1;
      const ks = Object.keys(raw);
      if (Array.isArray(raw)) {
        const n = h.e.getProp(v, "length", st.clone(), null);
        if (n.length !== 1 || n[0].v.k !== "d") r = null; else if (n[0].v.v !== raw.length) return 0;
      }
      for (const k of ks) {
        const nv = raw[k];
        const has = own(h, v, k, st);
        if (has === 0 && nv !== null && !nullText(nv)) return 0;
        if (has === null) { r = null; continue; }
        if (nv === null || nullText(nv)) continue;
        const g = h.e.getProp(v, k, st.clone(), null);
        for (const o of g) { if (o.thr) { r = null; continue; } for (const a of h.alts(o.v, o.st)) { const q = same(h, a.v, nv, a.st, exact, depth + 1); if (q === 0) return 0; if (q === null) r = null; } }
      }
      return r;
    };
    const nullText = (x) => typeof x === "string" && ["undef", "null", "undefined"].includes(x.trim());
    const own = (h, v, k, st) => {
      const o = st.get(v.id);
      if (o.kind === "arr" || o.elems || o.segs) return 1;
      const ls = o.layers || [];
      if (ls.some((l) => !(l instanceof Map))) return null;
      for (let i = ls.length - 1; i >= 0; i--) if (ls[i].has(k)) { const c = ls[i].get(k); return c.v && c.v.k === "absent" ? 0 : c.del ? 0 : 1; }
      return 0;
    };
    const run = (name, doc, { fault = null, inst = {}, opts, exact, skip = [], expectWarn, cb } = {}) => rep.scenario(name, () => {
      let h0, raw, faults = 0;
      const hooks = {
        onCall(fnNode, fn, thisV, args, st, node) {
          if (!fault || !RICH.test(fileOf(fnNode)) || !node || RICH.test(fileOf(node))) return null;
          if (/constructor|toJSON|fromJSON/.test(fn || "")) return null;
          faults++;
          if (fault === "throws") return h0.e.throwErr(st, "Error", "interpretation failed", node);
          if (fault === "nothing" || /Timezones\.ts$/.test(fileOf(node))) return [{ st, v: U }];
          return [{ st, v: h0.e.syms.named("rich@" + h0.e.siteKey(node), "a rich value", { ty: T.O, tr: true }, { rich: true, plain: false }) }];
        },
        onUnmodelled(nm, thisV, a, st, n) { if (nm === "caller.throws") { faults++; return h0.e.throwErr(st, "Error", "callback failed", n); } return null; },
      };
      const H0 = (h) => { h0 = h; };
      const { h, outs } = serve(rep.repo, "read", (st, h) => { H0(h); return [S(FILE), ...(opts ? [h.obj(st, opts(st, h), "o")] : [])]; }, null, { engine: { maxMs: 15000 }, hooks, json: (h, st) => { H0(h); raw = raw || build(h, st, doc); return [{ SourceFile: FILE, ...raw }]; }, instOpts: (st, h) => { H0(h); return h.obj(st, { taskRetries: V.num(0), ...TZ, ...inst }, "inst"); } });
      rep.addEngine(h.e);
      rep.count("interpretation_calls_replaced", faults);
      if (!outs.length) rep.ob(null, name, "no outcome");
      for (const o of outs) {
        const soft = o.st.impr.size > 0;
        if (o.kind !== "ok") { rep.ob(o.kind === "err" && !soft ? false : null, name, "the read rejects" + (fault ? " when interpreting a value " + (fault === "throws" ? "throws" : "yields " + fault) : cb ? " when the caller's callback throws" : "")); continue; }
        rep.ob(true, name, "the read resolves");
        const rv = h.e.resolve(o.v, o.st);
        for (const k of Object.keys(raw)) {
          if (skip.includes(k)) continue;
          if (raw[k] === null || nullText(raw[k])) continue;
          const has = own(h, rv, k, o.st);
          if (has !== 1) { rep.ob(has === 0 && !soft ? false : null, name, "tag " + JSON.stringify(k) + " is missing from the result"); continue; }
          for (const g of h.e.getProp(rv, k, o.st.clone(), null)) {
            if (g.thr) { rep.ob(null, name, k); continue; }
            for (const a of h.alts(g.v, g.st)) {
              const q = same(h, a.v, raw[k], a.st, exact || fault === "throws" || fault === "nothing");
              const sf = a.st.impr.size > 0;
              rep.ob(q === 1 ? true : q === 0 && !sf ? false : null, name, "tag " + JSON.stringify(k) + (q === 1 ? " is kept" : " is reported as " + h.e.show(a.v, a.st).slice(0, 60) + " instead of its value"));
            }
          }
        }
        if (expectWarn) {
          const w = h.e.getProp(rv, "warnings", o.st.clone(), null);
          for (const g of w) for (const a of g.thr ? [] : h.alts(g.v, g.st)) {
            const txt = a.v.k === "o" ? h.e.show(a.v, a.st) : "";
            const ob = a.v.k === "o" ? a.st.get(a.v.id) : null;
            const els = ob && (ob.elems || ob.segs || []);
            const langs = (els || []).map((s) => (s.v ? h.e.resolve(s.v, a.st) : null));
            for (const t of expectWarn) {
              const hit = langs.some((v) => v && V.partsOf(v) && V.partsOf(v).some((p) => typeof p === "string" && p.includes(t)));
              const vague = !els || langs.some((v) => !v);
              rep.ob(hit ? true : !vague && !soft && langs.length === 0 ? false : null, name, hit ? "a warning names " + t : "no warning mentions " + t);
            }
          }
        }
      }
    });
    const DATES = ["DateTimeOriginal", "CreateDate", "ModifyDate", "SubSecTime", "TimeCreated", "When", "FileCreated", "DateAcquired", "GPSDateStampX", "XMP:CreateDate", "MediaModifyDate", "OffsetTime", "HistoryWhen", "TimeZoneCity"];
    const PLAIN = ["Title", "ISO", "MyThing", "a.b", "Foo-Bar", "EXIF:Make", "x:y:z", "constructor", "toString", "__proto__", "hasOwnProperty", "length", "0", "", "Sharpness", "Firmware", "DateStampMode", "DateDisplayFormat", "MIMEType", "Make", "Error", "Warning", "FooValid", "GPSFoo", "GeolocationCity", "GPSAltitude", "Valid", "Directory", "ThumbnailImage"];
    const RES = { Error: 1, Warning: 1 };
    // 1. values of every kind, real code
    for (const n of PLAIN) {
      run("text in " + n, { [n]: text("V") });
      run("number in " + n, { [n]: num("V") }, { exact: true });
      if (!RES[n]) for (const [vn, v] of [["true", true], ["false", false], ["zero", 0], ["empty text", ""], ["a list", [text("A"), num("B"), null, true]], ["an empty list", []], ["a list of lists", [[1, "a"], []]], ["a struct", { P: text("A"), Q: num("B"), R: [text("C")], S: { T: false, U: "" } }], ["an empty struct", {}], ["null", null], ["text undef", "undef"]]) run(vn + " in " + n, { [n]: v, Title2: "x" }, { exact: typeof v === "boolean" });
    }
    const NOINF = { inferTimezoneFromDatestamps: V.FALSE };
    for (const n of DATES) {
      for (const f of ["throws", "nothing", "something"]) for (const v of ["2020:01:02 03:04:05", "garbage", "5"]) run(JSON.stringify(v) + " in " + n + ", interpretation " + f, { [n]: v, Title: "x" }, { fault: f, expectWarn: f === "throws" ? [n] : undefined });
      for (const f of ["throws", "nothing", "something"]) run("text in " + n + ", interpretation " + f, { [n]: text("V", "[^]*[1-9a-z][^]*"), Title: "x" }, { inst: NOINF, fault: f, expectWarn: f === "throws" ? [n] : undefined });
      run("zeros in " + n, { [n]: "00", Title: "x" });
      run("number in " + n, { [n]: num("V") }, { exact: true });
      run("boolean in " + n, { [n]: true }, { exact: true });
      run("list in " + n, { [n]: [text("A", "[^]*[a-z][^]*"), num("B"), text("C", "[^]*[a-z][^]*")] }, { inst: NOINF, fault: "throws" });
      run("struct in " + n, { [n]: { P: text("A", "[^]*[a-z][^]*"), Q: num("B") } }, { inst: NOINF, fault: "throws" });
      run("list in " + n + ", nothing", { [n]: [text("A", "[^]*[a-z][^]*"), num("B")] }, { inst: NOINF, fault: "nothing" });
      run("struct in " + n + ", something", { [n]: { P: text("A", "[^]*[a-z][^]*"), CreateDate: text("B", "[^]*[a-z][^]*") } }, { inst: NOINF, fault: "something" });
    }
    // 2. every kind of value in the tags that drive zone inference
    const TZTAGS = ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset", "DaylightSavings", "TimeStamp", "GPSDateTime", "DateTimeUTC", "SonyDateTime2", "GPSDateStamp", "GPSTimeStamp", "GPSLatitude", "GPSLongitude", "GPSPosition", "GPSLatitudeRef", "GeolocationPosition", "GeolocationTimeZone", "SubSecDateTimeOriginal", "DateTimeOriginal", "CreateDate", "DateTimeCreated", "MIMEType", "Make", "Model"];
    const INF = [["default options", {}], ["all inference", { inferTimezoneFromDatestamps: V.TRUE, inferTimezoneFromTimeStamp: V.TRUE, preferTimezoneInferenceFromGps: V.TRUE, backfillTimezones: V.TRUE }]];
    const KINDS = [["a number", 20120101], ["a negative number", -3], ["true", true], ["a list", ["x", 1]], ["a list of a number", [1]], ["an empty list", []], ["a struct", { a: 1 }], ["a list of structs", [{ a: 1 }]], ["empty text", ""], ["text", "xyz"]];
    for (const [on, inst] of INF) for (const t of TZTAGS) for (const [vn, v] of KINDS) for (const f of ["throws", "nothing"]) {
      const gps = /^GPS(Lat|Long|Pos)|^Geo/.test(t);
      run(on + ": " + vn + " in " + t + ", interpretation " + f, { Title: "x", [t]: v, ISO: 1 }, { fault: f, inst, skip: gps ? [t] : [] });
    }
    for (const [on, inst] of INF) for (const [vn, v] of KINDS) {
      run(on + ": " + vn + " in GeolocationTimeZone with a position", { GPSLatitude: 10, GPSLongitude: 20, GeolocationTimeZone: v, Title: "x" }, { fault: "nothing", inst });
      run(on + ": " + vn + " in Make with a zone", { Make: v, TimeZone: "-08:00", DaylightSavings: "Yes", Title: "x" }, { fault: "nothing", inst });
      run(on + ": " + vn + " in DaylightSavings with a zone", { Make: "NIKON", TimeZone: "-08:00", DaylightSavings: v, Title: "x" }, { fault: "nothing", inst });
      if (!/text|^a list$/.test(vn)) for (const t of ["TimeZone", "TimeStamp", "DateTimeOriginal", "OffsetTimeOriginal"]) run(on + ": " + vn + " in " + t + ", real interpretation", { [t]: v, Title: "x" }, { inst });
    }
    // 3. the caller's callbacks
    const thr = V.nat("caller.throws");
    for (const [on, inst] of INF) {
      run(on + ": the zone callback throws", { GPSLatitude: 10, GPSLongitude: 20, Title: "x" }, { inst: { ...inst, geoTz: thr }, fault: "nothing", cb: true, expectWarn: [""] });
      run(on + ": the daylight-saving callback throws", { TimeZone: "-08:00", Title: "x", ISO: 3 }, { inst: { ...inst, adjustTimeZoneIfDaylightSavings: thr }, fault: "nothing", cb: true });
    }
    // 4. grouped names
    const G = (st, h) => ({ readArgs: h.arr(st, [S("-G")], "ra") });
    run("grouped tags", { "EXIF:Title": text("A"), "XMP:Title": text("B"), "File:MIMEType": text("C"), "XMP:ISO": num("D"), NoGroup: text("E"), "A:B:C": text("F") }, { opts: G });
    run("grouped position", { "GPS:GPSLatitude": 10, "GPS:GPSLongitude": 20, "GPS:GPSAltitude": 5, "XMP:SourceFile": "x", "Composite:GPSLatitude": 10 }, { opts: G });
    run("grouped names the library also uses", { "XMP:errors": "a", "XMP:zone": "b", "XMP:warnings": "c", "XMP:tz": "d" }, { opts: G });
    for (const f of ["throws", "nothing", "something"]) run("grouped dates, interpretation " + f, { "EXIF:CreateDate": text("A", "[^]*[a-z][^]*"), "XMP:CreateDate": text("B", "[^]*[a-z][^]*"), "EXIF:DateTimeOriginal": text("C", "[^]*[a-z][^]*") }, { inst: NOINF, opts: G, fault: f });
    // 5. a failure in one tag does not affect the others
    run("failures in several tags", { CreateDate: text("A", "[^]*[a-z][^]*"), Title: text("B"), ModifyDate: text("C", "[^]*[a-z][^]*"), ISO: num("D") }, { inst: NOINF, fault: "throws", expectWarn: ["CreateDate", "ModifyDate"] });
  },
};

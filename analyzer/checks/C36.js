"use strict";
const { H, T, U, V, L, litOf, one } = require("../lib/harness");
const { serve } = require("../lib/serve");
const { get, text } = require("../lib/dates");
const S = V.str;
// what a file may say about its zone: [key, tags, zone, offset (null: named zone), source]
const SRC = {
  tag: { tags: { OffsetTimeOriginal: "-05:00" }, zone: "UTC-5", off: -300, src: "OffsetTimeOriginal" },
  geo: { tags: { GPSLatitude: 48.5, GPSLongitude: 2.25, GeolocationTimeZone: "UTC+2" }, zone: "UTC+2", off: 120, src: "GeolocationTimeZone" },
  pos: { tags: { GPSLatitude: 48.5, GPSLongitude: 2.25 }, zone: "Europe/Paris", off: null, src: "GPSLatitude/GPSLongitude" },
  stamp: { tags: { CreateDate: "2024:07:04 18:30:00+09:00" }, zone: "UTC+9", off: 540, src: "CreateDate" },
  video: { tags: { MIMEType: "video/mp4" }, zone: "UTC", off: 0, src: "defaultVideosToUTC" },
  delta: { tags: { GPSDateTime: "2024:07:04 07:01:00" }, zone: "UTC+3", off: 180, src: "offset between DateTimeOriginal and GPSDateTime" },
  ts: { tags: { TimeStamp: "2024:07:04 08:00:00+02:00" }, zone: "UTC+4", off: 240, src: "offset between DateTimeOriginal and TimeStamp" },
};
const KEYS = Object.keys(SRC);
const OPTS = ["preferTimezoneInferenceFromGps", "inferTimezoneFromDatestamps", "defaultVideosToUTC", "inferTimezoneFromTimeStamp", "backfillTimezones"];
const DEF = { preferTimezoneInferenceFromGps: false, inferTimezoneFromDatestamps: true, defaultVideosToUTC: true, inferTimezoneFromTimeStamp: false, backfillTimezones: true };
const WALL = Date.UTC(2024, 6, 4, 10, 0, 0);
const fields = (ms) => { const d = new Date(ms); return { year: d.getUTCFullYear(), month: d.getUTCMonth() + 1, day: d.getUTCDate(), hour: d.getUTCHours(), minute: d.getUTCMinutes(), second: d.getUTCSeconds() }; };
const GROUP = { OffsetTimeOriginal: "EXIF", GPSLatitude: "Composite", GPSLongitude: "Composite", GeolocationTimeZone: "ExifTool", CreateDate: "EXIF", MIMEType: "File", GPSDateTime: "Composite", TimeStamp: "MakerNotes", DateTimeOriginal: "EXIF", ModifyDate: "EXIF", MediaModifyDateUTC: "QuickTime" };
module.exports = {
  level: "other", floor: 1200,
  explain: "Abstract interpretation of read() (constant propagation from ExifTool's document to the returned tags, with a model of luxon) over combinations of the ways a file can tell its zone - explicit offset tag, place, datestamp with offset, video, local against UTC time, TimeStamp - and of the options that govern them, given to the instance or to the call, with and without group prefixes. The oracle is the documented order of trust.",
  rule: "the reported zone and its source are those of the most trusted way present and enabled; a datestamp with an offset keeps its wall clock and offset and is not marked inferred; GPS and UTC tags are in UTC; other datestamps without one keep their wall clock and get the zone (marked inferred) if backfilling is on and none otherwise, except in videos, where they denote the UTC instant",
  run(rep, { tier }) {
    const key = (w) => (w === undefined ? U : typeof w === "number" ? V.num(w) : typeof w === "boolean" ? V.bool(w) : S(w));
    const scenario = (has, opts, { perCall, group, geoThrows, geoNone, more, dst } = {}) => {
      const o = { ...DEF, ...opts };
      const name = "{" + has.join(", ") + "}" + (Object.keys(opts).length ? " " + Object.entries(opts).map(([k, v]) => k + "=" + v).join(" ") : "") + (perCall ? " per call" : "") + (group ? " -G" : "") + (geoThrows ? " geoTz throws" : "") + (geoNone ? " geoTz gives nothing" : "") + (more ? " " + JSON.stringify(more) : "");
      rep.scenario(name, () => {
        const tags = {};
        Object.assign(tags, more || {}); for (const k of has) Object.assign(tags, SRC[k].tags);
        if (dst) has = ["tag", ...has];
        const doc0 = { DateTimeOriginal: "2024:07:04 10:00:00", ModifyDate: "2024:07:04 11:00:00.5-03:00", MediaModifyDateUTC: "2024:07:04 12:00:00", ...tags };
        const doc = { SourceFile: "/p/a.jpg" };
        for (const [k, v] of Object.entries(doc0)) doc[(group ? (GROUP[k] || "MakerNotes") + ":" : "") + k] = v;
        const mk = (st, h) => Object.fromEntries(Object.entries(opts).map(([k, v]) => [k, V.bool(v)]));
        const h0 = {}, hooks = {};
        hooks.onUnmodelled = (nm, t, a, st, n) => { if (nm !== "caller.geo") return null; return geoThrows ? [{ st, thr: h0.mkErr(st, n) }] : [{ st, v: geoNone ? U : S("Europe/Paris") }]; };
        const r = serve(rep.repo, "read", (st, h) => { h0.mkErr = (s, n) => h.e.throwErr(s, "Error", "no zone there", n)[0].thr; return [S("/p/a.jpg"), ...(perCall || group ? [h.obj(st, { ...(perCall ? mk(st, h) : {}), ...(group ? { readArgs: h.arr(st, [S("-G")], "ra") } : {}) }, "o")] : [])]; }, null, {
          engine: { maxMs: 10000, luxon: true }, hooks, json: () => [doc],
          instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), geoTz: V.nat("caller.geo"), ...(perCall ? {} : mk(st, h)) }, "inst"),
        });
        const h = r.h; rep.addEngine(h.e);
        // documented order of trust
        const place = has.includes("geo") ? "geo" : has.includes("pos") && !geoThrows && !geoNone ? "pos" : null;
        const video = has.includes("video") && o.defaultVideosToUTC;
        const order = [o.preferTimezoneInferenceFromGps && place, has.includes("tag") && "tag", place, o.inferTimezoneFromDatestamps && has.includes("stamp") && "stamp", video && "video", has.includes("delta") && "delta", o.inferTimezoneFromTimeStamp && has.includes("ts") && "ts"];
        let win = order.find((x) => x), W = win === "tag" && dst ? dst : win ? SRC[win] : { zone: undefined, src: undefined };
        if (!r.outs.length) rep.ob(null, name, "no outcome");
        for (const out of r.outs) {
          if (out.kind !== "ok") { rep.ob(out.kind === "err" && !out.st.impr.size ? false : null, name, "the read fails"); continue; }
          const st = out.st, soft = st.impr.size > 0;
          const is = (what, v, w) => { const ok = v === null || v === undefined ? null : V.isConst(v) ? (V.key(v) === V.key(key(w)) || (v.k === "d" && v.v === 0 && w === 0) ? true : soft ? null : false) : null; rep.ob(ok, name, what + " is " + (v ? h.e.show(v, st) : "?") + (ok === false ? " instead of " + w : "")); };
          is("zone", get(h, out.v, "zone", st), W.zone);
          is("tz", get(h, out.v, "tz", st), W.zone);
          is("tzSource", get(h, out.v, "tzSource", st), W.src);
          const date = (k, f, ms, zone, inferred) => {
            const v = get(h, out.v, (group ? GROUP[k] + ":" : "") + k, st);
            if (!v) { rep.ob(null, name, k + " not known"); return; }
            if (v.k !== "o") { rep.ob(V.isConst(v) && !soft ? false : null, name, k + " is not a date"); return; }
            if (f) for (const [p, w] of Object.entries(f)) is(k + "." + p, get(h, v, p, st), w);
            if (f) is(k + ".millisecond", get(h, v, "millisecond", st), ms);
            is(k + ".zone", get(h, v, "zone", st), zone);
            const i = get(h, v, "inferredZone", st);
            rep.ob(!i ? null : i.k === "b" || i.k === "u" ? ((i.k === "b" && i.v) === inferred ? true : soft ? null : false) : null, name, k + ".inferredZone is " + (i ? h.e.show(i, st) : "?"));
          };
          date("ModifyDate", fields(Date.UTC(2024, 6, 4, 11)), 500, "UTC-3", false);
          date("MediaModifyDateUTC", fields(Date.UTC(2024, 6, 4, 12)), undefined, "UTC", true);
          if (has.includes("delta")) date("GPSDateTime", fields(Date.UTC(2024, 6, 4, 7, 1)), undefined, "UTC", true);
          if (has.includes("stamp")) date("CreateDate", fields(Date.UTC(2024, 6, 4, 18, 30)), undefined, "UTC+9", false);
          if (video) { if (!o.backfillTimezones || !win) date("DateTimeOriginal", fields(WALL), undefined, "UTC", true); else date("DateTimeOriginal", W.off === null ? null : fields(WALL + W.off * 60000), undefined, W.zone, true); }
          else if (o.backfillTimezones && win) date("DateTimeOriginal", fields(WALL), undefined, W.zone, true);
          else date("DateTimeOriginal", fields(WALL), undefined, undefined, false);
        }
      });
    };
    // every combination of sources under the defaults and under each option flipped
    const subsets = [];
    for (let m = 0; m < 1 << KEYS.length; m++) { const s = KEYS.filter((_, i) => m & (1 << i)); if (s.includes("geo") && s.includes("pos")) continue; subsets.push(s); }
    let i = 0;
    for (const s of subsets) {
      scenario(s, {});
      for (const k of OPTS) { const n = i++; if (tier === "thorough" || n % 3 === 0) scenario(s, { [k]: !DEF[k] }, { perCall: n % 2 === 1, group: n % 5 === 0 }); }
      for (let m = 0; m < 4; m++) { const n = i++; if (tier === "thorough" || n % 11 === 0) scenario(s, { preferTimezoneInferenceFromGps: m % 2 === 1, backfillTimezones: m < 2, inferTimezoneFromTimeStamp: true, inferTimezoneFromDatestamps: n % 2 === 0 }, { perCall: n % 3 === 0, group: n % 2 === 0 }); }
    }
    // every source alone, with every combination of options
    for (let m = 0; m < 1 << OPTS.length; m++) { const opts = Object.fromEntries(OPTS.map((k, j) => [k, !!(m & (1 << j))])); for (const k of KEYS) { const n = i++; if (tier === "thorough" || n % 4 === 0) scenario([k], opts, { perCall: n % 8 === 0 }); } }
    // the place gives nothing
    for (const s of [["pos"], ["pos", "stamp"], ["pos", "delta"], ["pos", "video"], ["tag", "pos"]]) for (const x of [{ geoThrows: true }, { geoNone: true }]) for (const o of [{}, { preferTimezoneInferenceFromGps: true }]) scenario(s, o, x);
    // a datestamp in UTC says nothing about the place
    for (const z of ["+00:00", "Z", "-00:00"]) for (const s of [[], ["tag"], ["geo"], ["delta"], ["video"], ["ts"]]) for (const o of [{}, { inferTimezoneFromTimeStamp: true }]) { if (s.includes("ts") && o.inferTimezoneFromTimeStamp) continue; scenario(s, o, { more: { SubSecCreateDate: "2024:07:04 10:00:00.123" + z } }); }
    // cameras that keep daylight saving time apart from the zone
    for (const mk of ["NIKON", "NIKON CORPORATION", "Nikon", "FS-Nikon"]) for (const ds of ["Yes", true]) for (const s of [[], ["geo"], ["stamp"], ["delta"], ["video"]]) scenario(s, {}, { more: { TimeZone: "-08:00", DaylightSavings: ds, Make: mk }, dst: { zone: "UTC-7", off: -420, src: "TimeZone (adjusted for DaylightSavings)" } });
    for (const [mk, ds] of [["Canon", "Yes"], ["NIKON", "No"], ["NIKON", false], ["Unikon", "Yes"], ["", "Yes"]]) for (const s of [[], ["geo"]]) scenario(s, {}, { more: { TimeZone: "-08:00", DaylightSavings: ds, Make: mk }, dst: { zone: "UTC-8", off: -480, src: "TimeZone" } });
  },
};

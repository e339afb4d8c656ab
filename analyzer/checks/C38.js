"use strict";
const { T, V, L, litOf, key } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const { get } = require("../lib/dates");
const S = V.str;
const PLAIN = ["Title", "Make", "ISO", "Description", "Keywords", "Creator", "Software", "Comment", "Artist", "XPComment", "ColorSpace", "Validation", "Sharpness", "Firmware", "SerialNumber", "LensID", "Orientation", "City", "UserComment"];
// texts that look special but are plain under a plain name
const PLAINTEXT = ["2024:07:04 10:00:00", "2024:07:04", "10:00:00", "2024-07-04T10:00:00Z", "2024", "12:30", "+02:00", "yes", "true", "No", "1", "1.50", "007", "0", "00", "0000:00:00 00:00:00", " padded ", "a\nb", "\u00e9\ud83d\ude00", "-", "{\"a\":1}", "12.5 mm", "1e5", "NaN", "Infinity", "inf", "bytes 12", "Binary", "data 12 bytes", "binary bytes", "0x1F", "1/60", "http://x/?a=1&b=2", "&amp;"];
const D = (y, mo, d, h, mi, s, ms, off) => ({ c: "ExifDateTime", f: { year: y, month: mo, day: d, hour: h, minute: mi, second: s }, ms, off });
const Y = (y, mo, d) => ({ c: "ExifDate", f: { year: y, month: mo, day: d } });
const TM = (h, mi, s, ms) => ({ c: "ExifTime", f: { hour: h, minute: mi, second: s }, ms });
const STAMPS = [
  ["2024:07:04 10:00:00", D(2024, 7, 4, 10, 0, 0)], ["2024:02:29 23:59:59", D(2024, 2, 29, 23, 59, 59)], ["1999:12:31 00:00:00", D(1999, 12, 31, 0, 0, 0)], ["2024:07:04 10:00:00.25", D(2024, 7, 4, 10, 0, 0, 250)], ["2024:07:04 10:00:00.001", D(2024, 7, 4, 10, 0, 0, 1)],
  ["2024:07:04 10:00:00-07:00", D(2024, 7, 4, 10, 0, 0, undefined, "UTC-7")], ["2024:07:04 10:00:00.5+05:30", D(2024, 7, 4, 10, 0, 0, 500, "UTC+5:30")], ["2024:07:04 10:00:00Z", D(2024, 7, 4, 10, 0, 0, undefined, "UTC")], ["1970:01:01 00:00:00", D(1970, 1, 1, 0, 0, 0)], ["2038:01:19 03:14:08", D(2038, 1, 19, 3, 14, 8)], ["2024-07-04T10:00:00", D(2024, 7, 4, 10, 0, 0)],
];
const DAYS = [["2024:07:04", Y(2024, 7, 4)], ["2024:02:29", Y(2024, 2, 29)], ["1999:12:31", Y(1999, 12, 31)], ["2024-07-04", Y(2024, 7, 4)]];
const TIMES = [["10:00:00", TM(10, 0, 0)], ["23:59:59", TM(23, 59, 59)], ["00:00:01", TM(0, 0, 1)], ["12:34:56.78", TM(12, 34, 56, 780)], ["01:02:03.004", TM(1, 2, 3, 4)]];
const NODATE = ["Unknown", "Manual", "Off", "n/a", "0000:00:00 00:00:00", "    :  :     :  :  ", "2024:13:01 10:00:00", "2023:02:29 10:00:00", "2024:07:32 10:00:00", "2024:07:04 25:00:00", "not set", "0", "00", "-", "1/60 x"];
const BIN = [["(Binary data 2506078 bytes, use -b option to extract)", 2506078], ["(Binary data 0 bytes, use -b option to extract)", 0], ["(Binary data 1 bytes)", 1], ["Binary 12 bytes", 12], ["(Binary data 4294967296 bytes, use -b option to extract)", 4294967296], ["(Binary data 9999999999 bytes, use -b option to extract)", 9999999999], ["(Binary data 10 bytes, use -b option to extract)", 10], [" (Binary data 10 bytes)\n", 10]];
const DT = ["DateTimeOriginal", "CreateDate", "ModifyDate", "FileModifyDate", "SubSecDateTimeOriginal", "GPSDateTime", "MediaCreateDate", "TrackModifyDate", "DateTimeDigitized", "SonyDateTime", "StartTime", "HistoryWhen", "MetadataDate", "FileAccessDate", "DateTimeCreated"];
const DO = ["GPSDateStamp", "DateCreated", "ProfileDate", "ReleaseDate", "DigitalCreationDate", "CreateDate"];
const TO = ["TimeCreated", "DigitalCreationTime", "TimeStampOfDay", "SampleTime", "StartTime"];
const VALID = ["XMPValid", "MakerNotesValid", "FooValid"];
module.exports = {
  level: "other", floor: 600,
  explain: "Abstract interpretation of read() from ExifTool's document to each reported value, over classes of tag names (plain, date, time, date and time, validity) and of values (unknown text, unknown number, boolean, list, struct; date-like, time-like, near-date, binary-placeholder and boolean-like texts), alone, in lists, in structs and with group prefixes; luxon is modelled exactly for fixed offsets.",
  rule: "under a name that does not speak of dates, times or validity, every value is reported unchanged; a complete date and time under a date/time name is an ExifDateTime, a day under a date name an ExifDate, a time of day under a time name an ExifTime, each with exactly the written fields and the text as rawValue; a binary placeholder is a BinaryField with that size; any other text stays that text",
  run(rep, { tier }) {
    const TEXT = (h, st, n) => { const s = h.sym(n, T.S); h.e.refine(st, s.id, { ty: T.S, lang: L.inter(L.not(L.reTest("[Bb][Ii][Nn][Aa][Rr][Yy]", "")), L.not(L.reExact("\\s*(?:undef|null|undefined)\\s*"))) }); return leaf(s); };
    const NUM = (h, st, n) => leaf(h.sym(n, T.D, { fact: { nan: false, lo: -1e15, hi: 1e15 } }));
    const cls = (v, st) => { if (!v || v.k !== "o") return null; const o = st.get(v.id); return o && o.ctor !== undefined ? st.get(o.ctor).name : ""; };
    const exactly = (h, st, v, raw) => {
      v = v && h.e.resolve(v, st);
      if (!v) return null;
      if (raw && raw.k === "leaf") { const a = h.e.resolve(raw.abs, st); return key(a) === key(v) ? true : v.k === "y" ? (h.imprecise && h.imprecise(v, st) ? null : false) : v.k === "i" ? null : false; }
      if (raw === null) return null;
      if (typeof raw !== "object") { const l = v.k === "d" || v.k === "b" ? v.v : litOf(v); return l === raw ? true : v.k === "y" || v.k === "i" ? null : false; }
      if (v.k !== "o") return v.k === "y" || v.k === "i" ? null : false;
      let r = true;
      for (const k of Object.keys(raw)) { const q = exactly(h, st, get(h, v, k, st), raw[k]); if (q === false) return false; if (q === null) r = null; }
      if (Array.isArray(raw)) { const n = get(h, v, "length", st); if (!n || n.k !== "d") r = null; else if (n.v !== raw.length) return false; }
      return r;
    };
    const shw = (h, v, st) => { const c = cls(v, st); if (c) return c + " " + Object.keys({ year: 1, month: 1, day: 1, hour: 1, minute: 1, second: 1, millisecond: 1, zone: 1, bytes: 1 }).map((k) => { const x = get(h, v, k, st); return x && x.k !== "u" ? k + "=" + h.e.show(x, st) : ""; }).filter((x) => x).join(" "); return v ? h.e.show(v, st) : "?"; };
    const rich = (h, st, v, w, raw) => {
      const c = cls(v, st);
      if (c === null) return V.isConst(v) ? "is " + shw(h, v, st) + " instead of a " + w.c : null;
      if (c !== w.c) return c === "" ? null : "is a " + c + " instead of a " + w.c;
      const un = [];
      const is = (k, x) => { const g = get(h, v, k, st); if (!g) { un.push(k); return null; } const l = g.k === "d" ? g.v : g.k === "u" ? undefined : litOf(g); if (g.k === "y" || g.k === "i") { un.push(k); return null; } return l === x || (k === "millisecond" && x === undefined && l === 0) ? null : k + " is " + h.e.show(g, st) + " instead of " + x; };
      for (const [k, x] of Object.entries(w.f)) { const b = is(k, x); if (b) return b; }
      if ("ms" in w) { const b = is("millisecond", w.ms); if (b) return b; }
      if (w.off !== undefined) { const b = is("zone", w.off); if (b) return b; }
      const b = is("rawValue", raw); if (b) return b;
      return un.length ? null : true;
    };
    // one document, one expectation per path
    const doc = (name, mkTags, expects, { group, more } = {}) => rep.scenario(name, () => {
      let raw;
      const r = serve(rep.repo, "read", (st, h) => [S("/p/a.jpg"), ...(group ? [h.obj(st, { readArgs: h.arr(st, [S("-G")], "ra") }, "o")] : [])], undefined, {
        engine: { maxMs: 20000, luxon: true }, instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), geoTz: V.nat("Array.isArray") }, "inst"),
        json: (h, st) => { const t = raw = mkTags(h, st); return [{ SourceFile: "/p/a.jpg", ...(more || {}), ...Object.fromEntries(Object.entries(t).map(([k, v]) => [(group ? group + ":" : "") + k, v])) }]; },
      });
      const h = r.h; rep.addEngine(h.e);
      if (!r.outs.length) rep.ob(null, name, "no outcome");
      for (const o of r.outs) {
        const soft = o.st.impr.size > 0;
        if (o.kind !== "ok") { rep.ob(o.kind === "err" && !soft ? false : null, name, "the read fails"); continue; }
        for (const [path, w] of expects) {
          let v = o.v, rv = raw;
          for (const [i, p] of path.entries()) { v = v && get(h, v, (i === 0 && group ? group + ":" : "") + p, o.st); rv = rv[p]; }
          rep.count("values");
          const at = path.join("."), txt = rv && rv.k === "leaf" ? "an unknown value" : JSON.stringify(rv);
          if (w === "same") { const q = exactly(h, o.st, v, rv); rep.ob(q === false && soft ? null : q, name, q === true ? at + " unchanged" : at + " " + txt + " is reported as " + shw(h, v, o.st)); }
          else if (typeof w === "boolean") rep.ob(v && v.k === "b" ? v.v === w || (soft ? null : false) : v && V.isConst(v) && !soft ? false : null, name, v && v.k === "b" && v.v === w ? at + " is " + w : at + " " + txt + " is reported as " + shw(h, v, o.st));
          else { const q = v ? rich(h, o.st, v, w, rv) : null; rep.ob(q === true ? true : q === null || soft ? null : false, name, q === true ? at + " is a " + w.c : at + " " + txt + " " + (q || "not decided")); }
        }
      }
    });
    const G = [undefined, "EXIF"];
    // plain names
    for (const n of PLAIN) {
      doc(n + ": unknown values", (h, st) => ({ [n]: TEXT(h, st, "VAL") }), [[[n], "same"]], { group: n.length % 3 === 0 ? "XMP" : undefined });
      doc(n + ": unknown number", (h, st) => ({ [n]: NUM(h, st, "VAL") }), [[[n], "same"]]);
      doc(n + ": list and struct", (h, st) => ({ [n]: [TEXT(h, st, "V1"), NUM(h, st, "V2"), { Name: TEXT(h, st, "V3"), Sub: [NUM(h, st, "V4"), true, ""] }] }), [[[n, 0], "same"], [[n, 1], "same"], [[n, 2, "Name"], "same"], [[n, 2, "Sub", 0], "same"], [[n, 2, "Sub", 1], "same"], [[n, 2, "Sub", 2], "same"]]);
    }
    for (const n of ["Title", "Creator", "XPComment", "Firmware", "LensID"]) for (const x of PLAINTEXT) doc(n + " " + JSON.stringify(x), () => ({ [n]: x }), [[[n], "same"]]);
    for (const n of ["Title", "ISO"]) for (const x of [0, -1, 1.5, 1e21, 9007199254740993, true, false, [], {}, [[]], [{ a: {} }], ["a", "a"], [0, "0", false]]) doc(n + " " + JSON.stringify(x), () => ({ [n]: x }), [[[n], "same"]], { group: n === "ISO" ? "EXIF" : undefined });
    // numbers and booleans under date names stay
    for (const n of ["CreateDate", "SubSecTime", "ExposureTime", "XMPValid", "DateTimeOriginal"]) { doc(n + ": unknown number", (h, st) => ({ [n]: NUM(h, st, "VAL") }), [[[n], "same"]]); for (const x of [0, 12, 2024, 20240704, true, false]) doc(n + " " + x, () => ({ [n]: x }), [[[n], "same"]]); }
    // dates
    const every = (ns, vs) => { ns.forEach((n, i) => vs.forEach((v, j) => { if (tier === "thorough" || i < 4 || (i + j) % 3 === 0) doc(n + " " + JSON.stringify(v[0]), () => ({ [n]: v[0] }), [[[n], v[1]]], { group: G[(i + j) % 2] }); })); };
    every(DT, STAMPS.map(([t, w]) => [t, w]));
    every(DO.filter((n) => !/time/i.test(n)), DAYS);
    every(TO, TIMES);
    for (const n of [...DT.slice(0, 5), ...TO.slice(0, 2), "DateCreated", "SubSecTime", "ExposureTime"]) for (const x of NODATE) doc(n + " " + JSON.stringify(x), () => ({ [n]: x }), [[[n], "same"]]);
    for (const n of ["ExposureTime", "ShutterTime"]) for (const x of ["1/60", "1/8000", "0.5"]) doc(n + " " + JSON.stringify(x), () => ({ [n]: x }), [[[n], "same"]]);
    // in lists and structs
    for (const [t, w] of STAMPS.slice(0, tier === "thorough" ? 99 : 6)) {
      doc("list of dates " + t, () => ({ CreateDate: [t, "Unknown", 7, t] }), [[["CreateDate", 0], w], [["CreateDate", 1], "same"], [["CreateDate", 2], "same"], [["CreateDate", 3], w]]);
      doc("history " + t, () => ({ History: [{ When: t, Action: t, Changed: "/" }, { When: "never", Action: "saved", Parameters: 3 }] }), [[["History", 0, "When"], w], [["History", 0, "Action"], "same"], [["History", 0, "Changed"], "same"], [["History", 1, "When"], "same"], [["History", 1, "Action"], "same"], [["History", 1, "Parameters"], "same"]]);
      doc("struct " + t, () => ({ DerivedFrom: { InstanceID: t, LastModifyDate: t, Title: t } }), [[["DerivedFrom", "InstanceID"], "same"], [["DerivedFrom", "LastModifyDate"], w], [["DerivedFrom", "Title"], "same"]], { group: "XMP" });
    }
    // a structure's own position is its own, not the file's
    for (const k of ["LocationCreated", "LocationShown", "Place"]) for (const [la, lo] of [[-10.5, "20.25"], ["95 deg N", 500], [48.5, 2.25]]) doc(k + " with its own position " + la + " " + lo, () => ({ GPSLatitude: 48.5, GPSLongitude: 2.25, [k]: { GPSLatitude: la, GPSLongitude: lo, GPSLatitudeRef: "South", City: "x", GeolocationCity: "y" }, Title: "t" }), [[[k, "GPSLatitude"], "same"], [[k, "GPSLongitude"], "same"], [[k, "GPSLatitudeRef"], "same"], [[k, "City"], "same"], [[k, "GeolocationCity"], "same"], [["Title"], "same"]], { group: k === "Place" ? "XMP" : undefined });
    // binary placeholders
    for (const [t, n] of BIN) for (const k of ["PreviewImage", "ThumbnailImage", "Title", "DataDump", "CreateDate"]) doc(k + " " + t, () => ({ [k]: t }), [[[k], { c: "BinaryField", f: { bytes: n } }]], { group: k === "DataDump" ? "MakerNotes" : undefined });
    doc("binary in a list and a struct", () => ({ Images: [BIN[0][0], "x"], Extra: { Image: BIN[4][0], Name: "Binary" } }), [[["Images", 0], { c: "BinaryField", f: { bytes: BIN[0][1] } }], [["Images", 1], "same"], [["Extra", "Image"], { c: "BinaryField", f: { bytes: BIN[4][1] } }], [["Extra", "Name"], "same"]]);
    for (const t of ["Binary data", "(Binary data -5 bytes)", "Binary data 12 bits", "12 bytes", "Binary data twelve bytes", "Binary data 1.5 bytes"]) doc("Comment " + t, () => ({ Comment: t }), [[["Comment"], "same"]]);
    // validity
    for (const n of VALID) { for (const [t, w] of [["Yes", true], ["No", false], ["true", true], ["false", false], ["yes", true], ["NO", false], ["1", true], ["0", false], ["On", true], ["off", false]]) doc(n + " " + t, () => ({ [n]: t }), [[[n], w]]); for (const t of ["maybe", "yesterday", "2", "", "unknown", "nothing"]) doc(n + " " + JSON.stringify(t), () => ({ [n]: t }), [[[n], "same"]]); }
    // the tag after a failing or special one is not affected
    doc("many tags", (h, st) => ({ Title: TEXT(h, st, "V1"), CreateDate: "2024:07:04 10:00:00", Make: "2024:07:04", PreviewImage: BIN[0][0], ISO: NUM(h, st, "V2"), XMPValid: "Yes", Artist: TEXT(h, st, "V3"), TimeCreated: "10:11:12", GPSDateStamp: "2024:07:04" }), [[["Title"], "same"], [["CreateDate"], STAMPS[0][1]], [["Make"], "same"], [["PreviewImage"], { c: "BinaryField", f: { bytes: 2506078 } }], [["ISO"], "same"], [["XMPValid"], true], [["Artist"], "same"], [["TimeCreated"], TM(10, 11, 12)], [["GPSDateStamp"], Y(2024, 7, 4)]]);
  },
};

"use strict";
const { H, T, U, V, L, litOf, one } = require("../lib/harness");
const { INDEX, get, text } = require("../lib/dates");
const S = V.str, N = V.num;
const p2 = (n) => String(n).padStart(2, "0");
const OFFS = ["-11:00", "-10:00", "-09:30", "-09:00", "-08:00", "-07:00", "-06:00", "-05:00", "-04:00", "-03:30", "-03:00", "-02:30", "-02:00", "-01:00", "+00:00", "+01:00", "+02:00", "+03:00", "+03:30", "+04:00", "+04:30", "+05:00", "+05:30", "+05:45", "+06:00", "+06:30", "+07:00", "+08:00", "+08:45", "+09:00", "+09:30", "+10:00", "+10:30", "+11:00", "+12:00", "+12:45", "+13:00", "+13:45", "+14:00"];
const ARCHAIC = ["-10:30", "-04:30", "-00:44", "+00:20", "+00:30", "+01:24", "+01:30", "+02:30", "+04:51", "+05:40", "+07:20", "+07:30"];
const off = (s) => { const m = /^([+-])(\d\d):(\d\d)$/.exec(s); return (m[1] === "-" ? -1 : 1) * (60 * +m[2] + +m[3]) || 0; };
const zn = (o) => (o === 0 ? "UTC" : "UTC" + (o < 0 ? "-" : "+") + Math.floor(Math.abs(o) / 60) + (o % 60 ? ":" + p2(Math.abs(o % 60)) : ""));
const short = (o) => (o < 0 ? "-" : "+") + p2(Math.floor(Math.abs(o) / 60)) + ":" + p2(Math.abs(o % 60));
// spellings of an offset
const spell = (o) => {
  const sg = o < 0 ? "-" : "+", h = Math.floor(Math.abs(o) / 60), m = Math.abs(o % 60), out = [short(o), short(o).replace("-", "\u2212"), "UTC" + short(o), zn(o), sg + p2(h) + p2(m)];
  if (m === 0) out.push(sg + h, sg + p2(h));
  if (o === 0) out.push("Z", "GMT", "UTC+0", "-00:00", "Zulu");
  return [...new Set(out)];
};
const BAD = [1, -1, 7, 61, -61, 100, 481, -725, 841, 855, 900, 1200, -900, 29, 299.5, 15, -45, NaN, Infinity];
const BADTEXT = ["", "  ", "invalid", "+25:00", "+15:00", "+05:60", "-00:01", "+5:7", "Foo Bar Baz", "2020"];
// texts around an offset
const AROUND = ["2020:02:29 12:34:56", "12:34:56.789", "1999-12-31T23:59:59"];
module.exports = {
  level: "other", floor: 2000,
  explain: "Abstract interpretation (constant propagation, with a model of luxon's fixed-offset zones) of every exported zone helper on every offset in present use (and, with the setting on, every archaic one) in every accepted spelling, on offsets and texts that are none, and of the inference of an offset from explicit tags and from a local and a UTC time for every offset with clock drift on either side.",
  rule: "all helpers give the same offset, name and text for all spellings of an offset; name and offset convert back into each other; no helper accepts a non-offset; an inferred offset is the nearest offset in use within the tolerance, computed as local minus UTC whatever the day boundary, and says which tags it came from; an explicit tag gives exactly its offset",
  run(rep, { tier }) {
    let h;
    const fresh = (archaic) => {
      h = new H({ root: rep.repo, files: [INDEX], luxon: true, fsNoFail: true, maxMs: 20000 }); rep.addEngine(h.e);
      let st = h.state();
      if (archaic) { const s = h.e.getProp(h.exported(INDEX, "Settings", st), "allowArchaicTimezoneOffsets", st, null); const r = h.e.setProp(h.e.resolve(s[0].v, s[0].st), "value", V.TRUE, s[0].st, null); st = r[0].st; }
      // fill lazily built tables once
      for (const f of ["validTzOffsetMinutes", "inferLikelyOffsetMinutes"]) { const r = h.call(h.exported(INDEX, f, st), U, [N(60)], st.clone()); if (r.length === 1 && !r[0].thr && !r[0].st.impr.size) st = r[0].st; }
      return st;
    };
    const val = (x) => (x === undefined ? U : x === null ? V.NULL : typeof x === "number" ? N(x) : typeof x === "boolean" ? V.bool(x) : typeof x === "string" ? S(x) : x);
    const call = (f, args, st) => h.call(h.exported(INDEX, f, st), U, args.map(val), st.clone());
    const same = (v, w, st) => (v === null ? null : V.isConst(v) ? (V.key(v) === V.key(val(w)) || (v.k === "d" && v.v === 0 && w === 0) ? true : st.impr.size ? null : false) : v.k === "o" && w === undefined && !st.impr.size ? false : null);
    // pick: what of the result is compared
    const is = (name, f, args, st, w, pick, key) => {
      const rs = call(f, args, st);
      for (const r of rs) {
        if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, "throws", key); continue; }
        let v = h.e.resolve(r.v, r.st);
        if (pick && v.k !== "u" && v.k !== "n") v = get(h, v, pick, r.st);
        const ok = same(v, w, r.st);
        rep.ob(ok, name, "gives " + (v ? h.e.show(v, r.st) : "?") + (ok === false ? " instead of " + w : ""), ok === false ? key : undefined);
      }
    };
    const spelled = (o, sp, st, key) => {
      const nm = (f) => f + "(" + JSON.stringify(sp) + ")";
      is(nm("normalizeZone") + ".name", "normalizeZone", [sp], st, zn(o), "name", key);
      is(nm("zoneToShortOffset"), "zoneToShortOffset", [sp], st, short(o), undefined, key);
      is(nm("extractZone") + ".zone", "extractZone", [sp], st, zn(o), "zone", key);
      is(nm("extractZone") + ".tz", "extractZone", [sp], st, zn(o), "tz", key);
      is("equivalentZones(" + JSON.stringify(sp) + ", " + o + ")", "equivalentZones", [sp, o], st, true, undefined, key);
      is("equivalentZones(" + o + ", " + JSON.stringify(sp) + ")", "equivalentZones", [o, sp], st, true, undefined, key);
      if (o !== 0) is(nm("isUTC"), "isUTC", [sp], st, false, undefined, key);
      if (/^[+\-\u2212]\d\d:\d\d$/.test(sp)) is(nm("parseTimezoneOffsetToMinutes"), "parseTimezoneOffsetToMinutes", [sp], st, o, undefined, key);
      for (const t of AROUND) {
        if (/^[A-Y]/.test(sp) && sp !== "UTC" && !/^UTC[+-]/.test(sp)) continue;
        if (sp === "UTC" || sp === "Zulu") continue;
        is("extractZone(" + JSON.stringify(t + sp) + ").zone", "extractZone", [t + sp], st, zn(o), "zone", key);
        is("extractZone(" + JSON.stringify(t + sp) + ").leftovers", "extractZone", [t + sp], st, t, "leftovers", key);
      }
    };
    for (const [archaic, list] of [[false, OFFS], [true, tier === "thorough" ? [...ARCHAIC, ...OFFS] : ARCHAIC]]) for (const s of list) rep.scenario("offset " + s + archaic, () => {
      const st = fresh(archaic), o = off(s);
      is("offsetMinutesToZoneName(" + o + ")", "offsetMinutesToZoneName", [o], st, zn(o));
      is("validTzOffsetMinutes(" + o + ")", "validTzOffsetMinutes", [o], st, true);
      is("inferLikelyOffsetMinutes(" + o + ")", "inferLikelyOffsetMinutes", [o], st, o);
      is("normalizeZone(" + o + ").name", "normalizeZone", [o], st, zn(o), "name");
      is("zoneToShortOffset(" + o + ")", "zoneToShortOffset", [o], st, short(o));
      for (const r of call("normalizeZone", [o], st)) if (!r.thr && h.e.resolve(r.v, r.st).k === "y") for (const f of ["normalizeZone", "zoneToShortOffset"]) is(f + "(zone of " + o + ")", f, [h.e.resolve(r.v, r.st)], r.st, f === "normalizeZone" ? zn(o) : short(o), f === "normalizeZone" ? "name" : undefined);
      for (const sp of spell(o)) spelled(o, sp, st);
      // other offsets are not equivalent
      for (const q of OFFS) if (off(q) !== o && (tier === "thorough" || Math.abs(off(q) - o) <= 60 || off(q) === -o)) is("equivalentZones(" + s + ", " + q + ")", "equivalentZones", [s, q], st, false);
      // an hour offset as number
      if (o % 60 === 0) is("extractZone(" + o / 60 + ").zone", "extractZone", [o / 60], st, zn(o), "zone");
      // explicit tags, in order of trust
      const TAGS = ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset"];
      TAGS.forEach((t, i) => {
        const tags = { [t]: S(s) };
        TAGS.slice(i + 1).forEach((u) => { tags[u] = S(o === 60 ? "+02:00" : "+01:00"); });
        is("extractTzOffsetFromTags({" + Object.keys(tags).join() + "}: " + s + " first).zone", "extractTzOffsetFromTags", [h.obj(st, tags, "t" + i)], st, zn(o), "zone");
        is("extractTzOffsetFromTags({" + Object.keys(tags).join() + "}: " + s + " first).src", "extractTzOffsetFromTags", [h.obj(st, tags, "u" + i)], st, t, "src");
      });
      if (o % 60 === 0) is("extractTzOffsetFromTags({TimeZoneOffset: [" + o / 60 + ", 3]}).zone", "extractTzOffsetFromTags", [h.obj(st, { TimeZoneOffset: h.arr(st, [N(o / 60), N(3)], "tzo") }, "tt")], st, zn(o), "zone");
    });
    // the one offset with seconds
    rep.scenario("archaic seconds", () => {
      const st = fresh(true), K = "archaic offset -00:25:21";
      for (const r of call("extractZone", ["1900:01:02 03:04:05-00:25:21"], st)) {
        const z = r.thr ? null : get(h, h.e.resolve(r.v, r.st), "zone", r.st);
        const l = z ? litOf(z) : null;
        if (l === null) { rep.ob(null, "extractZone(\"...-00:25:21\")", "not a literal"); continue; }
        for (const q of call("normalizeZone", [l], r.st)) { const v = q.thr ? null : h.e.resolve(q.v, q.st); rep.ob(!v ? null : v.k === "u" ? (q.st.impr.size ? null : false) : true, "extractZone(\"1900:01:02 03:04:05-00:25:21\") with archaic offsets allowed", "the extracted zone " + l + (v && v.k === "u" ? " is not a zone any helper accepts" : ""), v && v.k === "u" ? K : undefined); }
      }
    });
    // abbreviations after a datestamp
    const ABBR = { NST: -210, NDT: -150, ADT: -180, EST: -300, EDT: -240, CDT: -300, MST: -420, MDT: -360, PST: -480, PDT: -420, AKST: -540, AKDT: -480, HST: -600, WET: 0, WEST: 60, CET: 60, CEST: 120, EET: 120, EEST: 180, MSK: 180, TRT: 180, WAT: 60, CAT: 120, SAST: 120, EAT: 180, IRST: 210, IRDT: 270, AFT: 270, PKT: 300, NPT: 345, MMT: 390, ICT: 420, SGT: 480, HKT: 480, PHT: 480, JST: 540, KST: 540, AWST: 480, ACST: 570, ACDT: 630, AEST: 600, AEDT: 660, NZST: 720, NZDT: 780, CHAST: 765, CHADT: 825, COT: -300, PET: -300, VET: -240, BOT: -240, CLT: -240, CLST: -180, ART: -180, BRT: -180, UYT: -180, CVT: -60, AZOT: -60, MUT: 240, SCT: 240 };
    const AMBIGUOUS = ["CST", "IST", "BST", "AST", "GST", "AMT", "SST", "WST"];
    rep.scenario("abbreviations", () => {
      const st = fresh(false);
      const t = "2024:07:04 10:00:00";
      for (const [a, o] of Object.entries(ABBR)) {
        for (const x of [a, a.toLowerCase()]) { is("extractZone(" + JSON.stringify(t + " " + x) + ").zone", "extractZone", [t + " " + x], st, zn(o), "zone"); if (x === a) is("extractZone(" + JSON.stringify(t + " " + x) + ").leftovers", "extractZone", [t + " " + x], st, t, "leftovers"); }
        // an offset beside it counts
        is("extractZone(" + JSON.stringify(t + "+02:00 " + a) + ").zone", "extractZone", [t + "+02:00 " + a], st, "UTC+2", "zone");
      }
      for (const a of [...AMBIGUOUS, "XYZ", "ZZZZ"]) is("extractZone(" + JSON.stringify(t + " " + a) + ")", "extractZone", [t + " " + a], st, undefined);
    });
    // not offsets
    rep.scenario("not offsets", () => {
      const st = fresh(false);
      for (const b of [...BAD, ...ARCHAIC.map(off)]) { is("validTzOffsetMinutes(" + b + ")", "validTzOffsetMinutes", [b], st, false); is("offsetMinutesToZoneName(" + b + ")", "offsetMinutesToZoneName", [b], st, undefined); is("normalizeZone(" + b + ")", "normalizeZone", [b], st, undefined); is("zoneToShortOffset(" + b + ")", "zoneToShortOffset", [b], st, ""); is("equivalentZones(" + b + ", " + b + ")", "equivalentZones", [b, b], st, false); }
      for (const b of [...BADTEXT, ...ARCHAIC]) { is("normalizeZone(" + JSON.stringify(b) + ")", "normalizeZone", [b], st, undefined); is("zoneToShortOffset(" + JSON.stringify(b) + ")", "zoneToShortOffset", [b], st, ""); is("extractZone(" + JSON.stringify(b) + ")", "extractZone", [b], st, undefined); is("extractTzOffsetFromTags({TimeZone: " + JSON.stringify(b) + "})", "extractTzOffsetFromTags", [h.obj(st, { TimeZone: S(b) }, "b")], st, undefined); }
      for (const t of AROUND) { is("extractZone(" + JSON.stringify(t) + ")", "extractZone", [t], st, undefined); for (const b of ARCHAIC) is("extractZone(" + JSON.stringify(t + b) + ")", "extractZone", [t + b], st, undefined); }
      for (const b of [undefined, null, true, false]) { is("normalizeZone(" + b + ")", "normalizeZone", [b], st, undefined); is("extractZone(" + b + ")", "extractZone", [b], st, undefined); }
    });
    // nearest offset within the tolerance
    rep.scenario("nearest", () => {
      const st = fresh(false);
      const lv = h.e.resolve(h.exported(INDEX, "ValidTimezoneOffsets", st), st), segs = lv.k === "o" ? st.get(lv.id).segs : null;
      const all = segs && segs.every((s) => s.k === "1" && litOf(h.e.resolve(s.v, st)) !== null) ? segs.map((s) => off(litOf(h.e.resolve(s.v, st)))) : null;
      if (!all) { rep.ob(null, "ValidTimezoneOffsets", "not a list of literals"); return; }
      const near = (d, tol) => { let b; for (const o of all) if (Math.abs(o - d) <= tol && (b === undefined || Math.abs(o - d) < Math.abs(b - d))) b = o; return b; };
      const tie = (d) => { const s = all.map((o) => Math.abs(o - d)).sort((a, b) => a - b); return s[0] === s[1]; };
      for (let d = -760; d <= 900; d += tier === "thorough" ? 1 : 7) for (const x of [d, d + 0.35]) { if (tie(x)) continue; is("inferLikelyOffsetMinutes(" + x + ")", "inferLikelyOffsetMinutes", [x], st, near(x, 30)); if (tier === "thorough" || d % 3 === 0) for (const tol of [5, 15, 60]) is("inferLikelyOffsetMinutes(" + x + ", " + tol + ")", "inferLikelyOffsetMinutes", [x, tol], st, near(x, tol)); }
    });
    // local minus UTC
    const fmt = (ms) => { const d = new Date(ms); return d.getUTCFullYear() + ":" + p2(d.getUTCMonth() + 1) + ":" + p2(d.getUTCDate()) + " " + p2(d.getUTCHours()) + ":" + p2(d.getUTCMinutes()) + ":" + p2(d.getUTCSeconds()); };
    const BASES = [Date.UTC(2024, 1, 29, 12, 30, 15), Date.UTC(2023, 11, 31, 23, 50, 0), Date.UTC(2022, 2, 1, 0, 10, 59)];
    OFFS.forEach((s, i) => rep.scenario("delta " + s, () => {
      const st = fresh(false), o = off(s);
      BASES.forEach((b, bi) => { for (const drift of [0, 40, -40, 6 * 60, -6 * 60]) {
        const local = fmt(b + o * 60000 + drift * 1000), utc = fmt(b);
        const LOCAL = ["SubSecDateTimeOriginal", "DateTimeOriginal", "SubSecCreateDate", "CreateDate"], lt = LOCAL[(i + bi) % LOCAL.length];
        const src = bi === 0 ? { GPSDateTime: S(utc) } : bi === 1 ? { DateTimeUTC: S(utc) } : { GPSDateStamp: S(utc.slice(0, 10)), GPSTimeStamp: S(utc.slice(11)) };
        const sn = bi === 0 ? "GPSDateTime" : bi === 1 ? "DateTimeUTC" : "GPSDateTimeStamp";
        const nm = "extractTzOffsetFromUTCOffset({" + lt + ": " + local + ", " + sn + ": " + utc + "})";
        is(nm + ".zone", "extractTzOffsetFromUTCOffset", [h.obj(st, { [lt]: S(local), ...src }, "d")], st, zn(o), "zone");
        is(nm + ".src", "extractTzOffsetFromUTCOffset", [h.obj(st, { [lt]: S(local), ...src }, "d")], st, "offset between " + lt + " and " + sn, "src");
      } });
    }));
    rep.scenario("no delta", () => {
      const st = fresh(false);
      for (const tags of [{}, { DateTimeOriginal: S("2020:01:02 03:04:05") }, { GPSDateTime: S("2020:01:02 03:04:05") }, { DateTimeOriginal: S("2020:01:02 03:04:05+02:00"), GPSDateTime: S("2020:01:02 03:04:05") }, { DateTimeOriginal: S("2020:01:02 03:04:05"), GPSDateTime: S("2020:01:05 03:04:05") }, { DateTimeOriginal: S("2020:01:02 03:04:05"), GPSDateTime: S("2020:01:02 01:04:05+03:00") }, { DateTimeOriginal: S("2020:01:02 03:04:05"), GPSDateStamp: S("2020:01:02") }]) is("extractTzOffsetFromUTCOffset({" + Object.entries(tags).map(([k, v]) => k + ": " + litOf(v)).join(", ") + "})", "extractTzOffsetFromUTCOffset", [h.obj(st, tags, "n")], st, undefined);
    });
  },
};

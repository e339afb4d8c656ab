"use strict";
const { H, T, U, V, L, litOf, one } = require("../lib/harness");
const { INDEX, get, text } = require("../lib/dates");
const S = V.str, N = V.num;
const p2 = (n) => String(n).padStart(2, "0");
const MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"], WD = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
const DATES = [[2020, 2, 29, 0, 0, 0], [1999, 12, 31, 23, 59, 59], [2024, 7, 4, 12, 30, 1], [1970, 1, 1, 0, 0, 0], [2010, 10, 9, 8, 7, 6], [1904, 3, 5, 13, 0, 59], [2024, 3, 10, 2, 30, 0]];
const FRACS = [["", undefined], [".0", 0], [".5", 500], [".25", 250], [".05", 50], [".007", 7], [".123", 123], [".1239", 123], [".000001", 0], [".999999", 999]];
const off = (s) => { const m = /^([+-])(\d\d):(\d\d)$/.exec(s); return (m[1] === "-" ? -1 : 1) * (60 * +m[2] + +m[3]); };
// offsets in present use
const OFFS = ["-11:00", "-10:00", "-09:30", "-09:00", "-08:00", "-07:00", "-06:00", "-05:00", "-04:00", "-03:30", "-03:00", "-02:30", "-02:00", "-01:00", "+01:00", "+02:00", "+03:00", "+03:30", "+04:00", "+04:30", "+05:00", "+05:30", "+05:45", "+06:00", "+06:30", "+07:00", "+08:00", "+08:45", "+09:00", "+09:30", "+10:00", "+10:30", "+11:00", "+12:00", "+12:45", "+13:00", "+13:45", "+14:00"];
const zn = (o) => (o === 0 ? "UTC" : "UTC" + (o < 0 ? "-" : "+") + Math.floor(Math.abs(o) / 60) + (o % 60 ? ":" + p2(Math.abs(o % 60)) : ""));
// spellings of an offset: [suffix, minutes]
const SPELL = [...OFFS.map((x) => [x, off(x)]), ["Z", 0], ["+00:00", 0], ["-00:00", 0], ["-0800", -480], ["+0530", 330], ["+9", 540], ["-08", -480], ["UTC+2", 120], ["UTC-5:30", null], ["\u221208:00", -480], ["\u221203:30", -210], [" PST", -480], [" JST", 540], ["-08:00 PST", -480], ["-07:00 PDT", -420]].filter((x) => x[1] !== null);
const DEF = [[undefined, "none"], ["UTC+3", "UTC+3"], ["UTC-9:30", "UTC-9:30"], ["UTC", "UTC"], ["America/Los_Angeles", "America/Los_Angeles"]];
// date-time shapes: [name, text of a date, methods that accept it, sub-seconds, minutes only]
const d3 = (f, s) => f[0] + s + p2(f[1]) + s + p2(f[2]), t3 = (f) => f.slice(3).map(p2).join(":");
const wd = (f) => WD[new Date(Date.UTC(f[0], f[1] - 1, f[2])).getUTCDay()];
const SHAPES = [
  ["y:MM:dd HH:mm:ss", (f) => d3(f, ":") + " " + t3(f), ["from", "fromEXIF", "fromExifStrict"], true],
  ["y:M:d HH:mm:ss", (f) => f[0] + ":" + f[1] + ":" + f[2] + " " + t3(f), ["from", "fromEXIF", "fromExifStrict"], true],
  ["y-MM-ddTHH:mm:ss", (f) => d3(f, "-") + "T" + t3(f), ["from", "fromEXIF", "fromISO", "fromExifStrict"], true],
  ["y-MM-dd HH:mm:ss", (f) => d3(f, "-") + " " + t3(f), ["from", "fromEXIF", "fromISO", "fromExifStrict"], true],
  ["MMM d y HH:mm:ss", (f) => MON[f[1] - 1] + " " + f[2] + " " + f[0] + " " + t3(f), ["from", "fromEXIF", "fromExifLoose"], false],
  ["MMM d y, HH:mm:ss", (f) => MON[f[1] - 1] + " " + f[2] + " " + f[0] + ", " + t3(f), ["from", "fromEXIF", "fromExifLoose"], false],
  ["ccc MMM d HH:mm:ss y", (f) => wd(f) + " " + MON[f[1] - 1] + " " + f[2] + " " + t3(f) + " " + f[0], ["from", "fromEXIF", "fromExifLoose"], false, true],
  ["ccc d MMM y h:mm:ss a", (f) => wd(f) + " " + f[2] + " " + MON[f[1] - 1] + " " + f[0] + " " + (f[3] % 12 || 12) + ":" + p2(f[4]) + ":" + p2(f[5]) + (f[3] < 12 ? " AM" : " PM"), ["from", "fromEXIF", "fromExifLoose"], false, true],
  ["d MMM y HH:mm:ss", (f) => f[2] + " " + MON[f[1] - 1] + " " + f[0] + " " + t3(f), ["from", "fromEXIF", "fromExifLoose"], false],
];
const NOT = ["", "   ", "garbage", "2020:01:02", "2020-01-02", "2020:13:01 00:00:00", "2020:00:01 00:00:00", "2020:02:30 01:02:03", "2019:02:29 01:02:03", "2020:01:02 25:00:00", "2020:01:02 01:60:00", "2020:01:02 01:02:60", "0000:00:00 00:00:00", "0001:01:01 00:00:00", "12345", "20200102030405", "2020:01:02T", ": : : :", "2020-01-02T03", "- -"];
const FLD = ["year", "month", "day", "hour", "minute", "second"];
module.exports = {
  level: "other", floor: 1500,
  explain: "Abstract interpretation (constant propagation through parsing, with a model of luxon's parsing and fixed-offset arithmetic) of every parser entry point on representatives of each accepted text shape: boundary dates, sub-second forms, every offset in present use and every spelling of an offset, with and without a default zone; and of the texts that are not dates.",
  rule: "the value has exactly the written fields; a written offset is its zone and is not marked inferred; otherwise the default zone is and is marked inferred, or it has no zone; its epoch is the wall clock minus the offset; printing and parsing again gives the same value; other texts give no value",
  run(rep, { tier }) {
    let h;
    const fresh = () => { h = new H({ root: rep.repo, files: [INDEX], luxon: true, fsNoFail: true, maxMs: 15000 }); rep.addEngine(h.e); return h.state(); };
    const call = (c, m, args, st) => { const C = h.exported(INDEX, c, st); return h.call(h.method(C, m, st), C, args, st); };
    const want = (name, v, st, k, w) => {
      const x = get(h, v, k, st);
      const ok = x === null ? null : V.isConst(x) ? (V.key(x) === V.key(w === undefined ? U : typeof w === "number" ? N(w) : typeof w === "boolean" ? V.bool(w) : S(w)) ? true : st.impr.size ? null : false) : null;
      rep.ob(ok, name, k + " is " + (x ? h.e.show(x, st) : "?") + (ok === false ? " instead of " + w : ""));
    };
    // exp: {f, ms, zone, off (undefined when not known), inferred, loose}
    const judge = (name, v, st, exp, again) => {
      (exp.time ? FLD.slice(3) : FLD).forEach((k, i) => want(name, v, st, k, exp.f[exp.time ? i + 3 : i]));
      if (!exp.loose) want(name, v, st, "millisecond", exp.ms); else { const x = get(h, v, "millisecond", st); rep.ob(x ? x.k === "u" || (x.k === "d" && x.v === 0) || null : null, name, "millisecond"); }
      if (exp.raw !== undefined) want(name, v, st, "rawValue", exp.raw);
      want(name, v, st, "zone", exp.zone);
      want(name, v, st, "hasZone", exp.zone !== undefined);
      const inf = get(h, v, "inferredZone", st);
      rep.ob(!inf ? null : inf.k === "b" || inf.k === "u" ? ((inf.k === "b" && inf.v) === exp.inferred ? true : st.impr.size ? null : false) : null, name, "inferredZone is " + (inf ? h.e.show(inf, st) : "?"));
      if (!exp.time) {
        if (exp.off !== null) want(name, v, st, "tzoffsetMinutes", exp.off);
        if (exp.off !== null && exp.off !== undefined) for (const t of text(h, v, "toMillis", st) || []) { const ms = Date.UTC(exp.f[0], exp.f[1] - 1, ...exp.f.slice(2)) + (exp.ms || 0) - exp.off * 60000; rep.ob(t.thr || !t.v ? null : t.v.k === "d" ? (t.v.v === ms ? true : t.st.impr.size ? null : false) : null, name, "epoch " + (t.v ? h.e.show(t.v, t.st) : "?") + " for " + ms); }
        if (exp.off !== null && exp.off !== undefined) for (const t of text(h, v, "toEpochSeconds", st) || []) { const sec = Math.floor((Date.UTC(exp.f[0], exp.f[1] - 1, ...exp.f.slice(2)) + (exp.ms || 0)) / 1000) - exp.off * 60; rep.ob(t.thr || !t.v ? null : t.v.k === "d" ? (t.v.v === sec ? true : t.st.impr.size ? null : false) : null, name, "epoch " + (t.v ? h.e.show(t.v, t.st) : "?") + " s for " + sec); }
      }
      // printed without its offset: the wall clock alone
      if (again && !exp.time) { const f = get(h, v, "toISOString", st); for (const r of f && f.k !== "u" ? h.call(f, v, [h.obj(st, { includeOffset: V.FALSE }, "io")], st.clone()) : []) { const l = r.thr ? null : litOf(h.e.resolve(r.v, r.st)), w = String(exp.f[0]).padStart(4, "0") + "-" + p2(exp.f[1]) + "-" + p2(exp.f[2]) + "T" + exp.f.slice(3).map(p2).join(":"); rep.ob(l === null ? null : (l === w || (l.startsWith(w + ".") && /^\.\d+$/.test(l.slice(w.length)))) ? true : r.st.impr.size ? null : false, name, "without its offset it prints as " + l); } }
      if (again) for (const m of exp.time ? ["toExifString"] : ["toExifString", "toISOString"]) for (const t of text(h, v, m, st) || []) {
        if (t.thr || !t.v) { rep.ob(null, name, m); continue; }
        const l = litOf(t.v);
        if (l === null) { rep.ob(null, name, m + " not a literal"); continue; }
        for (const r of call(exp.time ? "ExifTime" : "ExifDateTime", "fromEXIF", [S(l)], t.st)) {
          if (r.thr || r.v.k !== "o") { rep.ob(r.st.impr.size ? null : false, name, m + "() prints " + l + ", which does not parse"); continue; }
          const ms = get(h, v, "millisecond", st);
          judge(name + ", printed by " + m + "() as " + l + " and parsed", r.v, r.st, { ...exp, raw: l, loose: false, ms: ms && ms.k === "d" ? ms.v : undefined, inferred: false }, false);
        }
      }
    };
    const parse = (c, m, t, d, exp, again) => rep.scenario(c + m + t + d, () => {
      const st = fresh(), name = c + "." + m + "(" + JSON.stringify(t) + (d === undefined ? "" : ", " + JSON.stringify(d)) + ")";
      for (const r of call(c, m, d === undefined ? [S(t)] : [S(t), S(d)], st)) {
        if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, "throws"); continue; }
        const v = h.e.resolve(r.v, r.st);
        if (exp === null) { rep.ob(v.k === "u" || v.k === "n" ? true : v.k === "o" && !r.st.impr.size ? false : null, name, v.k === "o" ? "is a value" : "is no value"); continue; }
        if (v.k !== "o") { rep.ob((v.k === "u" || v.k === "n") && !r.st.impr.size ? false : null, name, "is no value"); continue; }
        judge(name, v, r.st, { ...exp, raw: t }, again);
      }
    });
    const zoneOf = (suffix, d) => (suffix ? { zone: zn(suffix[1]), off: suffix[1], inferred: false } : d === undefined ? { zone: undefined, off: undefined, inferred: false } : { zone: d, off: /\//.test(d) ? null : d === "UTC" ? 0 : off(d.replace("UTC", "").replace(/^([+-])(\d)(:|$)/, "$10$2$3").replace(/^([+-]\d\d)$/, "$1:00")), inferred: true });
    const some = (i, n) => tier === "thorough" || i % n === 0;
    let k = 0;
    SHAPES.forEach(([sn, mk, ms, sub, noSuffix], si) => DATES.forEach((f, fi) => {
      const base = mk(f);
      const fr = sub ? FRACS : FRACS.slice(0, 1);
      // sub-seconds and default zones
      fr.forEach(([x, v], i) => DEF.forEach(([d], di) => { if (i && di && !some(k++, 5)) return; if (fi && i && !some(k++, 3)) return; parse("ExifDateTime", ms[(si + fi + i + di) % ms.length], base + x, d, { f, ms: sub ? v : undefined, loose: !sub, ...zoneOf(null, d) }, di === 0); }));
      if (noSuffix) return;
      // every spelling of an offset
      SPELL.forEach((z, zi) => { if (!some(zi + fi + si, fi === 0 && si === 0 ? 1 : 7)) return; const x = fr[(zi + fi) % fr.length]; const d = DEF[(zi + si) % DEF.length][0]; parse("ExifDateTime", ms[(zi + fi) % ms.length], base + x[0] + z[0], d, { f, ms: sub ? x[1] : undefined, loose: !sub, ...zoneOf(z) }, true); });
    }));
    // minutes only
    for (const f of DATES.slice(0, 3)) for (const z of [null, SPELL[4], SPELL[20]]) parse("ExifDateTime", "fromEXIF", d3(f, ":") + " " + p2(f[3]) + ":" + p2(f[4]) + (z ? z[0] : ""), undefined, { f: [...f.slice(0, 5), 0], ms: undefined, ...zoneOf(z) }, false);
    // times
    DATES.forEach((f, fi) => {
      FRACS.forEach(([x, v], i) => DEF.forEach(([d], di) => { if (i && di && !some(k++, 4)) return; parse("ExifTime", "fromEXIF", t3(f) + x, d, { time: true, f, ms: v, ...zoneOf(null, d) }, di === 0); }));
      SPELL.forEach((z, zi) => { if (!some(zi + fi, fi === 0 ? 1 : 5)) return; const x = FRACS[(zi + fi) % FRACS.length]; parse("ExifTime", "fromEXIF", t3(f) + x[0] + z[0], DEF[zi % DEF.length][0], { time: true, f, ms: x[1], ...zoneOf(z) }, true); });
    });
    // not dates
    for (const t of NOT) for (const m of ["from", "fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose"]) for (const [d] of DEF.slice(0, 2)) parse("ExifDateTime", m, t, d, null);
    for (const t of ["", "  ", "garbage", "25:00:00", "12:60:00", "12:00:60", "12", "2020:01:02 03:04:05"]) parse("ExifTime", "fromEXIF", t, undefined, null);
    // epoch numbers
    for (const f of DATES) for (const z of [["UTC", 0], ["UTC+5:30", 330], ["UTC-8", -480]]) rep.scenario("millis" + f + z, () => {
      const st = fresh(), ms = Date.UTC(f[0], f[1] - 1, ...f.slice(2)) - z[1] * 60000, name = "ExifDateTime.fromMillis(" + ms + ", " + z[0] + ")";
      for (const r of call("ExifDateTime", "fromMillis", [N(ms), h.obj(st, { zone: S(z[0]) }, "fz")], st)) { if (r.thr) { rep.ob(null, name, "throws"); continue; } judge(name, r.v, r.st, { f, ms: 0, zone: zn(z[1]), off: z[1], inferred: false }, true); }
    });
    // calendar dates, possibly without day or month
    const MONS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
    const date = (m, t, f, again) => rep.scenario("ExifDate" + m + t, () => {
      const st = fresh(), name = "ExifDate." + m + "(" + JSON.stringify(t) + ")";
      for (const r of call("ExifDate", m, [typeof t === "number" ? N(t) : S(t)], st)) {
        if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, "throws"); continue; }
        const v = h.e.resolve(r.v, r.st), none = v.k === "u" || v.k === "n";
        if (f === null) { rep.ob(none ? true : v.k === "o" && !r.st.impr.size ? false : null, name, v.k === "o" ? "is a value" : "is no value"); continue; }
        if (v.k !== "o") { rep.ob(none && !r.st.impr.size ? false : null, name, "is no value"); continue; }
        dateIs(name, v, r.st, f);
        want(name, v, r.st, "rawValue", String(t));
        if (again) for (const p of ["toExifString", "toISOString", "toString"]) for (const x of text(h, v, p, r.st) || []) {
          const l = x.thr || !x.v ? null : litOf(x.v);
          if (l === null) { rep.ob(null, name, p + " not a literal"); continue; }
          for (const q of call("ExifDate", "from", [S(l)], x.st)) if (q.thr || q.v.k !== "o") rep.ob(q.st.impr.size ? null : false, name, p + "() prints " + l + ", which does not parse"); else dateIs(name + ", printed by " + p + "() as " + l + " and parsed", q.v, q.st, f);
        }
      }
    });
    const dateIs = (name, v, st, f) => {
      ["year", "month", "day"].forEach((k, i) => want(name, v, st, k, f[i]));
      for (const [p, w] of [["isPartial", f.length < 3], ["isYearOnly", f.length === 1], ["isYearMonth", f.length === 2], ["isFullDate", f.length === 3]]) for (const x of text(h, v, p, st) || []) rep.ob(x.thr || !x.v ? null : x.v.k === "b" ? (x.v.v === w ? true : x.st.impr.size ? null : false) : null, name, p + "() is " + (x.v ? h.e.show(x.v, x.st) : "?"));
      // the start of the day, the month or the year, in local time
      for (const x of text(h, v, "toDate", st) || []) {
        const y = x.thr || !x.v || x.v.k !== "y" ? null : h.e.syms.get(x.v.id), a = y && y.derive && y.derive.op === "newDate" ? y.derive.args.map((q) => h.e.resolve(q, x.st)) : null;
        const w = [f[0], (f[1] || 1) - 1, f[2] || 1];
        rep.ob(!a || a.length < 2 || f[0] < 100 || a.some((q) => !q || q.k !== "d") ? null : x.st.impr.size ? null : +new Date(...a.map((q) => q.v)) === +new Date(...w), name, "toDate() is new Date(" + (a ? a.map((q) => h.e.show(q, x.st)).join(", ") : "?") + ")");
      }
    };
    for (const [y, m, d] of [...DATES, [2021, 1, 31], [2023, 12, 1], [1999, 9, 30], [987, 6, 5]]) {
      for (const M of ["from", "fromEXIF", "fromExifStrict"]) for (const t of [d3([y, m, d], ":"), d3([y, m, d], "-"), y + ":" + m + ":" + d]) date(M, t, [y, m, d], M === "from");
      for (const M of ["from", "fromEXIF", "fromExifLoose"]) for (const t of [MON[m - 1] + " " + d + " " + y, MONS[m - 1] + " " + d + " " + y]) date(M, t, [y, m, d], M === "from");
      for (const M of ["from", "fromYearMonth"]) for (const t of [y + ":" + p2(m), y + "-" + p2(m), y + ":" + m, y + "-" + m]) date(M, t, [y, m], M === "from");
      for (const M of ["from", "fromYear"]) for (const t of [String(y), y]) date(M, t, [y], M === "from");
    }
    for (const t of ["", "  ", "hello", "2020:13:01", "2020:00:10", "2020-02-30", "2019:02:29", "2020:13", "2020-00", "00", "0000", "12345", "2020:01:02 03:04:05", "one two three", "Feb 30 2020"]) for (const M of ["from", "fromEXIF", "fromExifStrict", "fromYearMonth", "fromYear", "fromExifLoose"]) date(M, t, null);
    // the placeholder zone is no zone at all: same wall clock as without one
    rep.scenario("millis unset", () => { const st = fresh(); const a = call("ExifDateTime", "fromMillis", [N(1600000000000)], st.clone()), b = call("ExifDateTime", "fromMillis", [N(1600000000000), h.obj(st, { zone: h.exported(INDEX, "UnsetZone", st) }, "fz")], st); const show = (rs) => rs.map((r) => (r.thr ? "throws" : FLD.map((k) => V.key(get(h, r.v, k, r.st))).join())).sort().join("|"); rep.ob(show(a) === show(b) ? true : null, "ExifDateTime.fromMillis(the placeholder zone)", "same fields as without a zone"); });
  },
};

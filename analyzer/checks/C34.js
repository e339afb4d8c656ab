"use strict";
const { H, T, U, V, L, litOf, one } = require("../lib/harness");
const { INDEX, get, text } = require("../lib/dates");
const S = V.str, N = V.num;
const p2 = (n) => String(n).padStart(2, "0");
const zn = (o) => (o === 0 ? "UTC" : "UTC" + (o < 0 ? "-" : "+") + Math.floor(Math.abs(o) / 60) + (o % 60 ? ":" + p2(Math.abs(o % 60)) : ""));
const short = (o) => (o < 0 ? "-" : "+") + p2(Math.floor(Math.abs(o) / 60)) + ":" + p2(Math.abs(o % 60));
const FLD = ["year", "month", "day", "hour", "minute", "second"];
const fields = (ms) => { const d = new Date(ms); return [d.getUTCFullYear(), d.getUTCMonth() + 1, d.getUTCDate(), d.getUTCHours(), d.getUTCMinutes(), d.getUTCSeconds()]; };
const DATES = [[2024, 2, 29, 23, 59, 59], [2023, 12, 31, 0, 0, 0], [2024, 3, 10, 2, 30, 0], [1970, 1, 1, 12, 0, 1]];
const OFF = [undefined, 0, 330, -570, 840, -660];
const SUB = [["", undefined], [".0", 0], [".25", 250]];
const TARGET = [["UTC", 0], ["UTC+5:30", 330], ["UTC-8", -480], ["UTC+14", 840], ["UTC-3:30", -210]];
const DUR = [[{ hours: 1 }, 36e5], [{ days: 1 }, 864e5], [{ seconds: -1 }, -1e3], [{ milliseconds: 750 }, 750], [{ minutes: 90, seconds: 30 }, 543e4], [{ days: -60 }, -5184e6]];
const OBSERVE = { ExifDateTime: [...FLD, "millisecond", "tzoffsetMinutes", "rawValue", "zoneName", "zone", "inferredZone", "hasZone", "unsetMilliseconds"], ExifTime: ["hour", "minute", "second", "millisecond", "rawValue", "zone", "inferredZone", "hasZone"], ExifDate: ["year", "month", "day", "rawValue"] };
const PRINT = { ExifDateTime: ["toString", "toExifString", "toISOString", "toMillis"], ExifTime: ["toString", "toExifString", "toISOString"], ExifDate: ["toString", "toExifString", "toISOString"] };
module.exports = {
  level: "other", floor: 3000,
  explain: "Abstract interpretation (constant propagation with a model of luxon's fixed-offset arithmetic and of a system zone with a daylight saving gap) of zone changes, additions, prints, conversions and JSON round trips on dates and times with and without zone, sub-seconds and inferred zones, at day, year and daylight saving boundaries.",
  rule: "a derived value has the requested zone (or the original's) and denotes the same instant if the original had a zone, the same wall clock if not or if asked to keep it, plus the duration; it keeps raw text and sub-second precision; every observation of the original is the same after as before; a value restored from its JSON observes the same",
  run(rep, { tier }) {
    let h;
    const fresh = () => { h = new H({ root: rep.repo, files: [INDEX], luxon: true, fsNoFail: true, maxMs: 20000 }); rep.addEngine(h.e); return h.state(); };
    const val = (w) => (w === undefined ? U : typeof w === "number" ? N(w) : typeof w === "boolean" ? V.bool(w) : S(w));
    const call = (c, m, args, st) => { const C = h.exported(INDEX, c, st); return h.call(h.method(C, m, st), C, args, st); };
    const invoke = (v, m, args, st) => h.call(h.method(v, m, st), v, args, st);
    const want = (name, v, st, k, w) => { const x = get(h, v, k, st); const ok = x === null ? null : V.isConst(x) ? (V.key(x) === V.key(val(w)) || (x.k === "d" && x.v === 0 && w === 0) ? true : st.impr.size ? null : false) : null; rep.ob(ok, name, k + " is " + (x ? h.e.show(x, st) : "?") + (ok === false ? " instead of " + w : "")); };
    // everything a caller can see of a value
    const observe = (c, v, st) => {
      const o = {};
      for (const k of OBSERVE[c]) { const x = get(h, v, k, st); o[k] = x ? (V.isConst(x) ? "" : "?") + V.key(x) : null; }
      for (const m of PRINT[c]) { const t = text(h, v, m, st) || []; o[m + "()"] = t.length === 1 && !t[0].thr && t[0].v ? (V.isConst(t[0].v) ? "" : "?") + V.key(t[0].v) : null; }
      return o;
    };
    const unchanged = (name, before, after, st, skip = []) => { for (const k of Object.keys(before)) { if (skip.includes(k)) continue; const a = before[k], b = after[k]; rep.ob(a === b && a !== null ? true : a === null || b === null || /^[?]/.test(a + "") || /^[?]/.test(b + "") || st.impr.size ? null : false, name, k + (a === b ? " is the same" : " was " + a + ", is " + b)); } };
    const derive = (name, c, v, st, m, args, exp) => {
      const before = observe(c, v, st);
      for (const r of invoke(v, m, args(st), st)) {
        const nm = name + "." + m;
        if (r.thr) { rep.ob(r.st.impr.size ? null : false, nm, "throws"); continue; }
        unchanged(nm + ": the original's", before, observe(c, v, r.st), r.st);
        const q = h.e.resolve(r.v, r.st);
        if (q.k !== "o") { rep.ob((q.k === "u" || q.k === "n") && !r.st.impr.size ? false : null, nm, "gives no value"); continue; }
        if (q.id === v.id) rep.ob(exp.same ? true : null, nm, "is the original");
        for (const [k, w] of Object.entries(exp.is)) want(nm, q, r.st, k, w);
      }
    };
    // values: [name, class, state, value, facts]
    const dateTimes = (f, o, sub, inferred, use) => {
      const st = fresh(), t = f[0] + ":" + p2(f[1]) + ":" + p2(f[2]) + " " + f.slice(3).map(p2).join(":") + sub[0], txt = t + (o === undefined || inferred ? "" : o === 0 ? "Z" : short(o));
      const nm = "ExifDateTime " + txt + (inferred ? " in " + zn(o) : "");
      for (const r of call("ExifDateTime", "fromEXIF", inferred ? [S(txt), S(zn(o))] : [S(txt)], st)) { const v = r.thr ? U : h.e.resolve(r.v, r.st); if (v.k !== "o") { rep.ob(null, nm, "no value"); continue; } use(nm, v, r.st, txt); }
    };
    const at = (ms) => Object.fromEntries(FLD.map((k, i) => [k, fields(ms)[i]]));
    let n = 0;
    const some = (k) => tier === "thorough" || n++ % k === 0;
    for (const f of DATES) for (const o of OFF) for (const sub of SUB) for (const inferred of o === undefined ? [false] : [false, true]) rep.scenario("dt " + f + o + sub[0] + inferred, () => dateTimes(f, o, sub, inferred, (nm, v, st, raw) => {
      const wall = Date.UTC(f[0], f[1] - 1, ...f.slice(2)), keepF = { millisecond: sub[1], rawValue: raw };
      const inst = (z) => at(o === undefined ? wall : wall + (z - o) * 60000);
      for (const [z, zo] of TARGET) {
        derive(nm + " to " + z, "ExifDateTime", v, st.clone(), "setZone", () => [S(z)], { is: { ...inst(zo), ...keepF, zone: zn(zo), hasZone: true, inferredZone: true } });
        if (some(2)) derive(nm + " to " + z + " keeping local time", "ExifDateTime", v, st.clone(), "setZone", (s) => [S(z), h.obj(s, { keepLocalTime: V.TRUE }, "k")], { is: { ...at(wall), ...keepF, zone: zn(zo), hasZone: true } });
        if (o !== undefined && some(2)) derive(nm + " to " + z + " keeping the instant", "ExifDateTime", v, st.clone(), "setZone", (s) => [S(z), h.obj(s, { keepLocalTime: V.FALSE, inferredZone: V.FALSE }, "k")], { is: { ...inst(zo), ...keepF, zone: zn(zo), hasZone: true, inferredZone: false } });
      }
      if (some(2)) for (const [d, ms] of DUR) {
        const w = wall + (sub[1] || 0) + ms, mm = ((w % 1000) + 1000) % 1000;
        derive(nm + " plus " + JSON.stringify(d), "ExifDateTime", v, st.clone(), "plus", (s) => [h.obj(s, Object.fromEntries(Object.entries(d).map(([k, x]) => [k, N(x)])), "d")], { is: { ...at(w), millisecond: sub[1] === undefined && mm === 0 ? undefined : mm, rawValue: raw, zone: o === undefined ? undefined : zn(o), hasZone: o !== undefined, inferredZone: inferred } });
      }
      const b = observe("ExifDateTime", v, st);
      for (const j of invoke(v, "toJSON", [], st.clone())) if (!j.thr) for (const q of call("ExifDateTime", "fromJSON", [j.v], j.st)) if (!q.thr && h.e.resolve(q.v, q.st).k === "o") unchanged(nm + " restored from its JSON", b, observe("ExifDateTime", h.e.resolve(q.v, q.st), q.st), q.st); else rep.ob(q.st.impr.size ? null : false, nm, "not restored");
      // reading the value does not change it
      let s2 = st.clone();
      for (const m of ["toDateTime", "toMillis", "toDate", "toEpochSeconds", "toISOString", "toExifString", "toJSON"]) { const r = invoke(v, m, m === "toDateTime" ? [S("UTC+9")] : [], s2); if (r.length === 1 && !r[0].thr) s2 = r[0].st; }
      unchanged(nm + " after conversions", b, observe("ExifDateTime", v, s2), s2);
    }));
    for (const f of DATES) for (const o of OFF) for (const sub of SUB) rep.scenario("t " + f + o + sub[0], () => {
      const st = fresh(), raw = f.slice(3).map(p2).join(":") + sub[0] + (o === undefined ? "" : o === 0 ? "Z" : short(o)), nm = "ExifTime " + raw;
      for (const r of call("ExifTime", "fromEXIF", [S(raw)], st)) {
        const v = r.thr ? U : h.e.resolve(r.v, r.st); if (v.k !== "o") { rep.ob(null, nm, "no value"); continue; }
        const w = Date.UTC(2000, 0, 1, ...f.slice(3)), hm = (ms) => { const x = fields(ms); return { hour: x[3], minute: x[4], second: x[5] }; };
        for (const [z, zo] of TARGET) {
          derive(nm + " to " + z, "ExifTime", v, r.st.clone(), "setZone", () => [S(z)], { is: { ...hm(o === undefined ? w : w + (zo - o) * 60000), millisecond: sub[1], rawValue: raw, zone: zn(zo), hasZone: true } });
          if (o !== undefined) derive(nm + " to " + z + " keeping local time", "ExifTime", v, r.st.clone(), "setZone", (s) => [S(z), h.obj(s, { keepLocalTime: V.TRUE }, "k")], { is: { ...hm(w), millisecond: sub[1], rawValue: raw, zone: zn(zo), hasZone: true } });
        }
        const b = observe("ExifTime", v, r.st);
        for (const j of invoke(v, "toJSON", [], r.st.clone())) if (!j.thr) for (const q of call("ExifTime", "fromJSON", [j.v], j.st)) if (!q.thr && h.e.resolve(q.v, q.st).k === "o") unchanged(nm + " restored from its JSON", b, observe("ExifTime", h.e.resolve(q.v, q.st), q.st), q.st); else rep.ob(q.st.impr.size ? null : false, nm, "not restored");
      }
    });
    for (const t of ["2024:02:29", "1999:12", "2020"]) rep.scenario("d " + t, () => {
      const st = fresh();
      for (const r of call("ExifDate", "from", [S(t)], st)) {
        const v = h.e.resolve(r.v, r.st); if (v.k !== "o") { rep.ob(null, t, "no value"); continue; }
        const b = observe("ExifDate", v, r.st);
        for (const j of invoke(v, "toJSON", [], r.st.clone())) if (!j.thr) for (const q of call("ExifDate", "fromJSON", [j.v], j.st)) if (!q.thr && h.e.resolve(q.v, q.st).k === "o") unchanged("ExifDate " + t + " restored from its JSON", b, observe("ExifDate", h.e.resolve(q.v, q.st), q.st), q.st); else rep.ob(q.st.impr.size ? null : false, t, "not restored");
      }
    });
  },
};

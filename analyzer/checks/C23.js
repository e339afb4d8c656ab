"use strict";
const { H, T, U, V, L, litOf, one } = require("../lib/harness");
const { INDEX, MARK, get, text, endsWithOffset } = require("../lib/dates");
const S = V.str, N = V.num;
// texts that carry a date and/or time but no zone
const DT = ["2020:01:02 03:04:05", "2020:01:02 03:04:05.12", "2020:01:02 03:04", "2020:1:2 03:04:05", "2020-01-02T03:04:05", "2020-01-02 03:04:05.123456", "2020-1-2 03:04:05", "Jan 2 2020 03:04:05", "Jan 2 2020, 03:04:05", "Thu Jan 2 03:04:05 2020", "Thu 2 Jan 2020 03:04:05 PM", "Thu 2 Jan 2020 03:04:05", "2 Jan 2020 03:04:05 AM", "2 Jan 2020 03:04:05", "0000:00:00 00:00:00", "2020:02:30 01:02:03"];
const TM = ["03:04:05", "03:04:05.12", "03:04", "25:00:00"];
// texts spelling the marker
const SPELT = ["2020:01:02 03:04:05-00:01", "2020-01-02T03:04:05-00:01", "2020:01:02 03:04:05UTC-0:1", "2020:01:02 03:04:05-0001", "2020:01:02 03:04:05 UTC-0:01"];
const NODEF = [U, S(""), S("  "), S(MARK.name), S("UTC-0:01"), S("-00:01")];
module.exports = {
  level: "other", floor: 500,
  explain: "Abstract interpretation of every way to obtain a date/time value without a zone (parsing each accepted shape, epoch numbers, luxon values in the placeholder zone, re-zoning to the placeholder, arithmetic, JSON documents, constructors, zone helpers), with luxon replaced by a model in which fixed-offset zones are exact and named zones unknown; then of every observation of the value.",
  rule: "zone, zoneName, tzoffsetMinutes, toJSON() and the zone helpers never yield the placeholder's name or offset; where the zone is unknown hasZone is false and the printed forms carry no offset",
  run(rep, { tier }) {
    let h;
    const fresh = () => { h = new H({ root: rep.repo, files: [INDEX], luxon: true, fsNoFail: true, maxMs: 15000 }); rep.addEngine(h.e); return h.state(); };
    const cls = (n, st) => h.exported(INDEX, n, st);
    const zone = (n, st) => h.e.natives.F["luxon.FixedOffsetZone.instance"](U, [one(N(n))], st)[0].v;
    const unset = (st) => h.exported(INDEX, "UnsetZone", st);
    const isMark = (v) => (litOf(v) !== null ? /^UTC-0?0:0?1$/.test(litOf(v)) || litOf(v) === "-00:01" : v.k === "d" && v.v === MARK.off);
    const known = (v) => V.isConst(v) || v.k === "o";
    // a value and everything that can be observed of it
    const judge = (name, v, st, { zoned } = {}) => {
      const bad = (c, msg) => rep.ob(c, name, msg);
      for (const k of ["zone", "zoneName", "tzoffsetMinutes"]) {
        const x = get(h, v, k, st);
        if (x === null) { bad(null, k); continue; }
        if (isMark(x)) { bad(st.impr.size ? null : false, k + " is the placeholder " + h.e.show(x, st)); continue; }
        bad(zoned || !known(x) ? (zoned ? true : null) : x.k === "u" ? true : st.impr.size ? null : false, k + (x.k === "u" ? " is unset" : " is " + h.e.show(x, st)));
      }
      const hz = get(h, v, "hasZone", st);
      if (!zoned) bad(hz && hz.k === "b" ? (!hz.v ? true : st.impr.size ? null : false) : null, "hasZone");
      for (const m of ["toISOString", "toExifString", "toString"]) {
        const ts = text(h, v, m, st);
        if (!ts) continue;
        for (const t of ts) {
          if (t.thr) { bad(null, m + " throws"); continue; }
          if (t.v.k === "u" || t.v.k === "n") continue;
          const l = litOf(t.v);
          if (l !== null && /-00:01$/.test(l)) { bad(t.st.impr.size ? null : false, m + "() prints the placeholder: " + l); continue; }
          if (zoned) continue;
          const o = endsWithOffset(h, t.v, t.st);
          bad(o === null ? null : !o ? true : t.st.impr.size ? null : false, m + "() " + (o ? "prints an offset: " + h.e.show(t.v, t.st) : "prints no offset"));
        }
      }
      const js = text(h, v, "toJSON", st);
      for (const j of js || []) if (!j.thr && j.v && j.v.k === "o") for (const k of ["zone", "zoneName", "tzoffsetMinutes"]) { const x = get(h, j.v, k, j.st); bad(x === null ? null : !isMark(x) ? true : j.st.impr.size ? null : false, "toJSON()." + k + (x && isMark(x) ? " is the placeholder" : "")); }
    };
    // each outcome of a construction, and values derived from it
    const each = (name, outs, o = {}) => {
      for (const r of outs) {
        if (r.thr) { rep.ob(o.mayThrow || r.st.impr.size ? true : null, name, "throws"); continue; }
        const v = h.e.resolve(r.v, r.st);
        if (v.k === "u" || v.k === "n") { rep.ob(true, name, "no value"); continue; }
        if (v.k !== "o") { rep.ob(null, name, "not evaluated: " + h.e.show(v, r.st)); continue; }
        judge(name, v, r.st, o);
        if (o.deep === false) continue;
        const m = (k, ...a) => { const f = get(h, v, k, r.st); return f && f.k !== "u" ? h.call(f, v, a.map((x) => (typeof x === "function" ? x(s) : x)), s) : []; };
        let s = r.st.clone();
        each(name + ", plus an hour", m("plus", h.obj(s, { hours: N(1) }, "du")), { ...o, deep: false }); s = r.st.clone();
        each(name + ", plus a month", m("plus", h.obj(s, { months: N(1) }, "du2")), { ...o, deep: false }); s = r.st.clone();
        each(name + ", plus milliseconds", m("plus", N(1500)), { ...o, deep: false }); s = r.st.clone();
        for (const keep of [undefined, true, false]) {
          const op = () => (keep === undefined ? [] : [h.obj(s, { keepLocalTime: V.bool(keep) }, "zo")]);
          each(name + ", re-zoned to the placeholder" + (keep === undefined ? "" : ", keepLocalTime " + keep), m("setZone", unset(s), ...op()), { deep: false }); s = r.st.clone();
          each(name + ", re-zoned to another placeholder", m("setZone", zone(-1, s), ...op()), { deep: false }); s = r.st.clone();
        }
        each(name + ", re-zoned to the placeholder's name", m("setZone", S(MARK.name)), { deep: false, mayThrow: true }); s = r.st.clone();
        for (const j of text(h, v, "toJSON", r.st) || []) if (!j.thr && j.v.k === "o") { const C = h.e.getProp(v, "constructor", j.st, null)[0]; if (C && C.v.k === "o") each(name + ", through JSON", h.call(h.method(C.v, "fromJSON", C.st), C.v, [j.v], C.st), { ...o, deep: false }); }
      }
    };
    const stat = (c, m, args, st) => h.call(h.method(cls(c, st), m, st), cls(c, st), args, st);
    // texts without a zone
    const defs = tier === "thorough" ? NODEF : NODEF.slice(0, 4);
    DT.forEach((t, ti) => { for (const m of ["from", "fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose"]) defs.forEach((d, i) => {
      if (tier !== "thorough" && i && (ti + i) % 4) return;
      rep.scenario(m + t + i, () => { const st = fresh(); each("ExifDateTime." + m + "(" + JSON.stringify(t) + (i ? ", " + JSON.stringify(litOf(d)) : "") + ")", stat("ExifDateTime", m, i ? [S(t), d] : [S(t)], st), { deep: i === 0 }); });
    }); });
    for (const t of TM) defs.forEach((d, i) => rep.scenario("ExifTime" + t + i, () => { const st = fresh(); each("ExifTime.fromEXIF(" + JSON.stringify(t) + (i ? ", " + JSON.stringify(litOf(d)) : "") + ")", stat("ExifTime", "fromEXIF", i ? [S(t), d] : [S(t)], st), { deep: i === 0 }); }));
    for (const t of SPELT) for (const m of ["from", "fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose"]) rep.scenario("spelt " + m + t, () => { const st = fresh(); each("ExifDateTime." + m + "(" + JSON.stringify(t) + ")", stat("ExifDateTime", m, [S(t)], st), { deep: false }); });
    for (const t of SPELT) rep.scenario("spelt time " + t, () => { const st = fresh(); const x = t.slice(11); each("ExifTime.fromEXIF(" + JSON.stringify(x) + ")", stat("ExifTime", "fromEXIF", [S(x)], st), { deep: false }); });
    // epoch numbers, luxon values, constructors
    const opts = [["no options", () => []], ["empty options", (st) => [h.obj(st, {}, "fo")]], ["zone undefined", (st) => [h.obj(st, { zone: U }, "fo")]], ["zone null", (st) => [h.obj(st, { zone: V.NULL }, "fo")]], ["zone UnsetZone", (st) => [h.obj(st, { zone: unset(st) }, "fo")]], ["zone UnsetZoneName", (st) => [h.obj(st, { zone: S(MARK.name) }, "fo")]]];
    for (const [n, o] of opts) for (const [k, ms] of [["literal", () => [N(1600000000000)]], ["unknown", (st) => [h.sym("MS", T.D, { fact: { nan: false } })]]]) rep.scenario("millis " + n + k, () => { const st = fresh(); each("ExifDateTime.fromMillis(" + k + ", " + n + ")", stat("ExifDateTime", "fromMillis", [...ms(st), ...o(st)], st), { mayThrow: true, deep: k === "literal" }); });
    for (const [n, o] of opts) rep.scenario("now " + n, () => { const st = fresh(); each("ExifDateTime.now(" + n + ")", stat("ExifDateTime", "now", o(st), st), { mayThrow: true, deep: false }); });
    const inZone = (z, st) => { const r = h.e.natives.F["luxon.DateTime.fromFormat"](U, [S("2020:01:02 03:04:05"), S("y:MM:dd HH:mm:ss"), h.obj(st, { zone: z }, "lx")].map(one), st); return r[0].v; };
    for (const [n, z] of [["UnsetZone", unset], ["another zone at that offset", (st) => zone(-1, st)]]) rep.scenario("fromDateTime " + n, () => { const st = fresh(); each("ExifDateTime.fromDateTime(a DateTime in " + n + ")", stat("ExifDateTime", "fromDateTime", [inZone(z(st), st)], st)); const st2 = fresh(); each("ExifTime.fromDateTime(a DateTime in " + n + ")", stat("ExifTime", "fromDateTime", [inZone(z(st2), st2), S("x")], st2)); });
    const ctor = (c, args, name) => rep.scenario(name, () => { const st = fresh(); each(name, h.e.construct(cls(c, st), args.map(one), st, null)); });
    const d6 = [2020, 1, 2, 3, 4, 5].map(N), t3 = [3, 4, 5].map(N);
    ctor("ExifDateTime", d6, "new ExifDateTime(without a zone)");
    ctor("ExifDateTime", [...d6, N(12)], "new ExifDateTime(with milliseconds, without a zone)");
    ctor("ExifDateTime", [...d6, U, U, S("raw"), U, V.FALSE], "new ExifDateTime(with raw value, without a zone)");
    ctor("ExifTime", t3, "new ExifTime(without a zone)");
    ctor("ExifTime", [...t3, N(12), S("raw"), S("")], "new ExifTime(blank zone)");
    ctor("ExifTime", [...t3, N(12), S("raw"), S(MARK.name)], "new ExifTime(the placeholder's name)");
    for (const [n, off, zn] of [["the placeholder's offset", N(-1), U], ["the placeholder's name", U, S(MARK.name)], ["both", N(-1), S(MARK.name)]]) rep.scenario("ctor " + n, () => { const st = fresh(); for (const r of h.e.construct(cls("ExifDateTime", st), [...d6, U, off, U, zn].map(one), st, null)) { if (r.thr) continue; const name = "new ExifDateTime(" + n + ")"; const z = get(h, r.v, "zone", r.st), hz = get(h, r.v, "hasZone", r.st); rep.ob(z ? z.k === "u" : null, name, "zone is " + (z ? h.e.show(z, r.st) : "?")); rep.ob(hz && hz.k === "b" ? !hz.v : null, name, "hasZone"); for (const m of ["toISOString", "toExifString"]) for (const t of text(h, r.v, m, r.st) || []) { const o = t.v && endsWithOffset(h, t.v, t.st); rep.ob(o === null || o === undefined ? null : !o, name, m + "()"); } } });
    // zone helpers
    const HELP = [["normalizeZone", U], ["zoneToShortOffset", S("")], ["isZoneValid", V.FALSE], ["validTzOffsetMinutes", V.FALSE], ["offsetMinutesToZoneName", U], ["extractZone", U], ["isUTC", V.FALSE]];
    for (const arch of [false, true]) for (const [fn, want] of HELP) for (const [n, mk] of [["UnsetZone", unset], ["another zone at that offset", (st) => zone(-1, st)], ["-1", () => N(-1)], ["its name", () => S(MARK.name)], ["\"-00:01\"", () => S("-00:01")], ["\"UTC-0:01\"", () => S("UTC-0:01")], ["\"-0001\"", () => S("-0001")]]) {
      if (/^(isZoneValid)$/.test(fn) && !/zone/i.test(n)) continue;
      if (/^(validTz|offsetMin)/.test(fn) && n !== "-1") continue;
      if (fn === "extractZone" && n === "-1") continue;
      rep.scenario(fn + n + arch, () => {
        let st = fresh(); const name = fn + "(" + n + ")" + (arch ? " with archaic offsets allowed" : "");
        if (arch) { const s = get(h, h.exported(INDEX, "Settings", st), "allowArchaicTimezoneOffsets", st); const r = h.e.setProp(s, "value", V.TRUE, st, null); st = r[0].st; }
        let f; try { f = h.exported(INDEX, fn, st); } catch { try { f = h.exported("src/Timezones.ts", fn, st); } catch { rep.ob(null, name, "not found"); return; } }
        for (const r of h.call(f, U, [mk(st)], st)) { if (r.thr) { rep.ob(null, name, "throws"); continue; } const v = h.e.resolve(r.v, r.st); rep.ob(known(v) || v.k === "y" ? (V.key(v) === V.key(want) ? true : r.st.impr.size || (v.k === "y" && !(h.e.syms.get(v.id) || {}).known) ? null : false) : null, name, "yields " + h.e.show(v, r.st)); }
      });
    }
    for (const [n, mk] of [["zone: UnsetZone", (st) => h.obj(st, { zone: unset(st) }, "gz")], ["zoneName", (st) => h.obj(st, { zoneName: S(MARK.name) }, "gz")], ["tzoffsetMinutes: -1", (st) => h.obj(st, { tzoffsetMinutes: N(-1) }, "gz")], ["all three", (st) => h.obj(st, { zone: unset(st), zoneName: S(MARK.name), tzoffsetMinutes: N(-1) }, "gz")]]) rep.scenario("getZoneName " + n, () => { const st = fresh(); for (const r of h.call(h.exported("src/Timezones.ts", "getZoneName", st), U, [mk(st)], st)) { const v = r.thr ? null : h.e.resolve(r.v, r.st); rep.ob(v === null ? null : v.k === "u" ? true : known(v) && !r.st.impr.size ? false : null, "getZoneName(" + n + ")", "yields " + (v ? h.e.show(v, r.st) : "an error")); } });
    // a value without a zone gives no zone to another
    for (const t of DT.slice(0, 8)) rep.scenario("match " + t, () => {
      const st = fresh();
      const a = stat("ExifDateTime", "fromEXIF", [S("2020:01:02 03:04:05+02:00")], st), name = "maybeMatchZone(a date without a zone)";
      if (a.length !== 1 || a[0].thr) return rep.ob(null, name, "not evaluated");
      for (const b of stat("ExifDateTime", "fromEXIF", [S(t)], a[0].st)) { if (b.thr || b.v.k !== "o") continue; for (const r of h.call(h.method(a[0].v, "maybeMatchZone", b.st), a[0].v, [b.v], b.st)) rep.ob(r.thr ? null : r.v.k === "u" ? true : r.st.impr.size ? null : false, name, "takes no zone from it"); for (const r of h.call(h.exported(INDEX, "extractZone", b.st), U, [b.v], b.st)) rep.ob(r.thr ? null : r.v.k === "u" ? true : r.st.impr.size ? null : false, "extractZone(a date without a zone)", "finds none"); }
    });
  },
};

"use strict";
// Model of the part of luxon the library uses, for constant folding in the
// abstract interpreter. Fixed-offset zones and literal texts are exact; named
// and system zones have unknown offsets.
const V = require("./values");
const { T, U, NULL, TRUE, FALSE, num, str, bool, key, litOf, mkStr, isConst } = V;
const L = require("./lang");
const MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"], WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
const IANA = /^[A-Z][A-Za-z]+\/[A-Z][A-Za-z_]+(?:\/[A-Za-z_]+)?$/;
const KNOWN = new Set(["America/Los_Angeles", "America/New_York", "America/Chicago", "Europe/London", "Europe/Paris", "Europe/Berlin", "Asia/Tokyo", "Asia/Kolkata", "Australia/Sydney", "Pacific/Auckland", "Asia/Dubai"]);
const FIELDS = ["year", "month", "day", "hour", "minute", "second", "millisecond"];
const p2 = (n) => String(Math.abs(n)).padStart(2, "0");
const narrow = (o) => (o >= 0 ? "+" : "-") + Math.trunc(Math.abs(o / 60)) + (Math.trunc(Math.abs(o % 60)) ? ":" + Math.trunc(Math.abs(o % 60)) : "");
const short = (o) => (o >= 0 ? "+" : "-") + p2(Math.trunc(Math.abs(o / 60))) + ":" + p2(Math.trunc(Math.abs(o % 60)));
// tokens of the formats in use
const TOK = { y: "(\\d{1,6})", MM: "(\\d\\d)", M: "(\\d\\d?)", dd: "(\\d\\d)", d: "(\\d\\d?)", HH: "(\\d\\d)", H: "(\\d\\d?)", h: "(\\d\\d?)", hh: "(\\d\\d)", mm: "(\\d\\d)", m: "(\\d\\d?)", ss: "(\\d\\d)", s: "(\\d\\d?)", u: "(\\d{1,9})", SSS: "(\\d{3})", S: "(\\d{1,3})", MMM: "(Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec)", MMMM: "(January|February|March|April|May|June|July|August|September|October|November|December)", ccc: "(Mon|Tue|Wed|Thu|Fri|Sat|Sun)", EEE: "(Mon|Tue|Wed|Thu|Fri|Sat|Sun)", a: "(am|pm)" };
const split = (fmt) => { const out = []; let i = 0; while (i < fmt.length) { const c = fmt[i]; if (c === "'") { const j = fmt.indexOf("'", i + 1); if (j < 0) return null; out.push({ lit: fmt.slice(i + 1, j) }); i = j + 1; } else if (/[A-Za-z]/.test(c)) { let j = i; while (fmt[j] === c) j++; out.push({ tok: fmt.slice(i, j) }); i = j; } else { out.push({ lit: c }); i++; } } return out; };
const parse = (text, fmt) => {
  const ts = split(fmt); if (!ts) return undefined;
  let re = ""; const toks = [];
  for (const t of ts) { if (t.lit !== undefined) re += t.lit === " " ? "\\s" : t.lit.replace(/[.*+?^${}()|[\]\\\/]/g, "\\$&"); else { if (!TOK[t.tok]) return undefined; re += TOK[t.tok]; toks.push(t.tok); } }
  const m = new RegExp("^" + re + "$", "i").exec(text);
  if (!m) return null;
  const f = { year: 1970, month: 1, day: 1, hour: 0, minute: 0, second: 0, millisecond: 0 };
  let pm = null, wd = null, h12 = false;
  toks.forEach((t, i) => {
    const x = m[i + 1], n = parseInt(x, 10);
    if (t === "y") f.year = n; else if (t === "MMM") f.month = MON.findIndex((k) => k.toLowerCase() === x.toLowerCase()) + 1; else if (t === "MMMM") f.month = MON.findIndex((k) => k.toLowerCase() === x.slice(0, 3).toLowerCase()) + 1; else if (/^M/.test(t)) f.month = n; else if (/^d/.test(t)) f.day = n; else if (/^H/.test(t)) f.hour = n; else if (/^h/.test(t)) { f.hour = n; h12 = true; } else if (/^m/.test(t)) f.minute = n; else if (/^s/.test(t)) f.second = n;
    else if (t === "u") f.millisecond = Math.trunc(+("0." + x) * 1000); else if (/^S/.test(t)) f.millisecond = n; else if (t === "a") pm = x.toLowerCase() === "pm"; else if (/^[cE]/.test(t)) wd = WD.findIndex((k) => k.toLowerCase() === x.toLowerCase());
  });
  if (h12 && pm !== null) { if (f.hour > 12) return null; f.hour = (f.hour % 12) + (pm ? 12 : 0); }
  if (!ts.some((t) => t.tok === "y")) { f.year = f.month = f.day = null; }
  if (!ok(f)) return null;
  if (wd !== null && f.year !== null && (new Date(Date.UTC(2000, f.month - 1, f.day) + 0 * 1).getTime(), (new Date(Date.UTC(f.year, f.month - 1, f.day)).getUTCDay() + 6) % 7) !== wd) return null;
  return f;
};
const dim = (y, m) => new Date(Date.UTC(2000 + (((y % 400) + 400) % 400), m, 0)).getUTCDate();
const ok = (f) => (f.year === null || (f.month >= 1 && f.month <= 12 && f.day >= 1 && f.day <= dim(f.year, f.month))) && f.hour >= 0 && (f.hour <= 23 || (f.hour === 24 && !f.minute && !f.second && !f.millisecond)) && f.minute >= 0 && f.minute <= 59 && f.second >= 0 && f.second <= 59;
const ms = (f) => { const d = new Date(0); d.setUTCFullYear(f.year, f.month - 1, f.day); d.setUTCHours(f.hour, f.minute, f.second, f.millisecond); return d.getTime(); };
const fromMs = (t) => { const d = new Date(t); return { year: d.getUTCFullYear(), month: d.getUTCMonth() + 1, day: d.getUTCDate(), hour: d.getUTCHours(), minute: d.getUTCMinutes(), second: d.getUTCSeconds(), millisecond: d.getUTCMilliseconds() }; };

module.exports = (e) => {
  const F = e.natives.F;
  const okv = (st, v) => [{ st, v }];
  const arg = (a, i, st) => (i < a.length ? e.resolve(a[i].v, st) : U);
  // ---- zones ----------------------------------------------------------
  const zfixed = (n, tag) => zsym({ t: "fixed", off: n, tag: n === 0 ? "" : tag || "", name: n === 0 ? "UTC" : "UTC" + narrow(n) });
  const zsym = (z) => e.syms.named("lz:" + z.t + ":" + (z.t === "fixed" ? z.off + (z.tag ? "#" + z.tag : "") : z.name), z.t + " zone " + (z.name || ""), { ty: T.O, tr: true, cls: "Zone" }, { cls: "Zone", extMethods: "Zone", lz: z, known: true, strConst: "[object Object]", childConst: (k) => (k === "name" ? str(z.t === "system" ? "Asia/Dubai" : z.name) : k === "isValid" ? bool(z.t !== "invalid") : k === "isUniversal" ? bool(z.t === "fixed" || z.t === "invalid") : k === "type" ? str(z.t === "fixed" ? "fixed" : z.t) : undefined) });
  const SYS = () => zsym({ t: "system", name: "system" });
  const zOf = (v) => (v.k === "y" ? (e.syms.get(v.id) || {}).lz : undefined);
  // luxon's normalizeZone: a zone symbol, or null when the argument is unknown
  const norm = (v, st, dflt, tag) => {
    v = e.resolve(v, st);
    if (v.k === "u" || v.k === "n") return dflt;
    if (zOf(v)) return v;
    if (v.k === "d") return Number.isFinite(v.v) ? zfixed(v.v, tag) : null;
    const l = litOf(v);
    if (l !== null) {
      const low = l.toLowerCase();
      if (low === "default") return dflt;
      if (low === "local" || low === "system") return SYS();
      if (low === "utc" || low === "gmt") return zfixed(0);
      const m = /^utc(?:([+-]\d{1,2})(?::(\d{2}))?)?$/i.exec(low);
      if (m) { const h = parseInt(m[1], 10) || 0, mi = parseInt(m[2], 10) || 0; return zfixed(h * 60 + (h < 0 || Object.is(parseInt(m[1], 10), -0) ? -mi : mi)); }
      if (KNOWN.has(l)) return zsym({ t: "iana", name: l });
      if (!IANA.test(l)) return zsym({ t: "invalid", name: l });
      return null;
    }
    return null;
  };
  const sameZone = (x, y) => x.t === y.t && (x.t === "fixed" ? x.off === y.off : x.name === y.name);
  const opaqueZone = (vs) => e.opaque("zone", vs, { ty: T.O, tr: true });
  const nz = (t, a, st, n) => okv(st, norm(arg(a, 0, st), st, SYS(), n ? e.siteKey(n) : "new") || opaqueZone([arg(a, 0, st)]));
  F["luxon.Info.normalizeZone"] = nz;
  F["luxon.FixedOffsetZone.instance"] = (t, a, st, n) => { const v = arg(a, 0, st); return okv(st, v.k === "d" ? zfixed(v.v, n ? e.siteKey(n) : "new") : opaqueZone([v])); };
  F["luxon.FixedOffsetZone.parseSpecifier"] = (t, a, st) => { const v = arg(a, 0, st), l = litOf(v); if (l === null) return okv(st, opaqueZone([v])); const m = /^utc(?:([+-]\d{1,2})(?::(\d{2}))?)?$/i.exec(l); return okv(st, m ? norm(str(l), st, U) : NULL); };
  F["luxon.IANAZone.create"] = (t, a, st) => { const l = litOf(arg(a, 0, st)); return okv(st, l === null ? opaqueZone([arg(a, 0, st)]) : KNOWN.has(l) ? zsym({ t: "iana", name: l }) : zsym({ t: "invalid", name: l })); };
  F["luxon.Info.isValidIANAZone"] = F["luxon.IANAZone.isValidZone"] = (t, a, st) => { const l = litOf(arg(a, 0, st)); return okv(st, l === null ? e.opaque("isValidZone", [arg(a, 0, st)], { ty: T.B }) : bool(KNOWN.has(l) || l === "UTC")); };
  const zoffset = (z, at) => (z.t === "fixed" ? num(z.off) : z.t === "invalid" ? num(NaN) : e.syms.named("lzoff:" + z.name + "@" + at, "offset of " + z.name, { ty: T.D, nan: false, lo: -840, hi: 840 }, { offOf: z.name, foreign: true }));
  F["Zone.prototype.offset"] = (t, a, st) => { const z = zOf(t); return okv(st, z ? zoffset(z, key(arg(a, 0, st))) : e.opaque("zoffset", [t], { ty: T.D })); };
  F["Zone.prototype.formatOffset"] = (t, a, st) => {
    const z = zOf(t), f = litOf(arg(a, 1, st));
    if (!z || !/^(short|narrow|techie)$/.test(f || "")) return okv(st, e.opaque("zfmt", [t], { ty: T.S }));
    return okv(st, offText(z, f === "narrow" ? narrow : f === "short" ? short : (o) => short(o).replace(":", "")));
  };
  const offText = (z, f = short) => (z.t === "fixed" ? str(f(z.off)) : e.syms.named("lzfmt:" + z.name, "formatted offset of " + z.name, { ty: T.S, lang: L.reExact("[+-][01][0-9]:[0-5][0-9]") }, { offTextOf: z.name, foreign: true }));
  F["Zone.prototype.equals"] = (t, a, st) => { const x = zOf(t), y = zOf(arg(a, 0, st)); return x && y ? okv(st, bool(sameZone(x, y))) : e.forkCond("zeq:" + key(t) + key(arg(a, 0, st)), st); };
  e.luxonUtc = () => zfixed(0);
  // ---- date-times ------------------------------------------------------
  // d: {f: {field: number} | null, sym: text, z: zone symbol, invalid}
  const dsym = (d) => {
    const z = zOf(d.z), id = "ld:" + (d.invalid ? "invalid" : (d.f ? FIELDS.map((k) => d.f[k]).join(",") : d.sym) + "@" + d.z.id);
    const fld = (k) => (d.invalid ? num(NaN) : d.f && d.f[k] !== null ? num(d.f[k]) : e.syms.named(id + "." + k, k, { ty: T.D, nan: false, int: true, lo: k === "year" ? 1800 : k === "month" || k === "day" ? 1 : 0, hi: k === "year" ? 2400 : 999 }, { foreign: true }));
    return e.syms.named(id, "DateTime", { ty: T.O, tr: true, cls: "DateTime" }, { cls: "DateTime", extMethods: "DateTime", luxon: true, ld: d, known: true, childConst: (k) => (FIELDS.includes(k) ? fld(k) : k === "isValid" ? bool(!d.invalid) : k === "zone" ? d.z : k === "zoneName" ? (d.invalid ? NULL : e.symProp(d.z.id, "name", null)) : k === "offset" ? (d.invalid ? num(NaN) : zoffset(z, id)) : k === "invalidReason" ? (d.invalid ? str("unparsable") : NULL) : k === "isOffsetFixed" ? e.symProp(d.z.id, "isUniversal", null) : undefined) });
  };
  // The system zone is some zone with daylight saving time: the hour from 02:00
  // on 2024-03-10 does not exist there, luxon moves such times on by an hour.
  const land = (d) => { const f = d.f; return f && zOf(d.z).t === "system" && f.year === 2024 && f.month === 3 && f.day === 10 && f.hour === 2 ? { ...d, f: { ...f, hour: 3 } } : d; };
  const dOf = (v) => (v.k === "y" ? (e.syms.get(v.id) || {}).ld : undefined);
  const INV = () => dsym({ invalid: true, z: zfixed(0) });
  const opt = (o, k, st) => { o = e.resolve(o, st); if (o.k !== "o") return U; const r = e.getProp(o, k, st.clone(), null); return r.length === 1 && !r[0].thr ? e.resolve(r[0].v, r[0].st) : null; };
  const opaqueDt = (what, vs) => e.opaque("dt:" + what, vs, { ty: T.O, tr: true });
  F["luxon.DateTime.fromFormat"] = (t, a, st) => e.seq(e.strict(arg(a, 0, st), st), (st, tv) => e.seq(e.strict(arg(a, 1, st), st), (st, fv) => {
    const o = arg(a, 2, st), zv = opt(o, "zone", st), text = litOf(tv), fmt = litOf(fv);
    const z = zv === null ? null : norm(zv, st, SYS());
    if (fmt === null || z === null) return okv(st, opaqueDt("fromFormat", [tv, fv, zv || U]));
    if (zOf(z).t === "invalid") return okv(st, INV());
    if (text === null) {
      const c = "ldfmt:" + key(tv) + "~" + fmt, s2 = st.clone(), out = [];
      if (e.decide(st, c, true)) out.push({ st, v: dsym({ f: null, sym: "parse(" + key(tv) + "," + fmt + ")", z }) });
      if (e.decide(s2, c, false)) out.push({ st: s2, v: INV() });
      return out;
    }
    const f = parse(text, fmt);
    if (f === undefined) return okv(st, opaqueDt("fromFormat", [tv, fv, zv]));
    return okv(st, f === null ? INV() : dsym(land({ f, z })));
  }));
  F["luxon.DateTime.fromISO"] = (t, a, st) => e.seq(e.strict(arg(a, 0, st), st), (st, tv) => {
    const zv = opt(arg(a, 1, st), "zone", st), z = zv === null ? null : norm(zv, st, SYS()), l = litOf(tv);
    if (l !== null && z && zOf(z).t !== "invalid") {
      const m = /^(\d{4})-(\d\d)-(\d\d)$/.exec(l);
      if (m) { const f = { year: +m[1], month: +m[2], day: +m[3], hour: 0, minute: 0, second: 0, millisecond: 0 }; return okv(st, ok(f) ? dsym({ f, z }) : INV()); }
      if (/^\d{1,4}:\d\d?:\d\d?(?: |$)/.test(l) && !/^\d\d:/.test(l)) return okv(st, INV());
    }
    st.impr.add("luxon fromISO"); return okv(st, opaqueDt("fromISO", [tv, zv || U]));
  });
  F["luxon.DateTime.fromObject"] = (t, a, st) => {
    const o = arg(a, 0, st), zv = opt(arg(a, 1, st), "zone", st), z = zv === null ? null : norm(zv, st, SYS());
    if (!z || o.k !== "o") return okv(st, opaqueDt("fromObject", [o, zv || U]));
    if (zOf(z).t === "invalid") return okv(st, INV());
    const f = {}; let concrete = true; const ks = [];
    let sofar = true;
    for (const k of FIELDS) { const v = opt(o, k, st); if (v === null) return okv(st, opaqueDt("fromObject", [o])); ks.push(key(v)); if (v.k === "d") f[k] = v.v; else if (v.k === "u") f[k] = k === "year" || k === "month" || k === "day" ? null : 0; else concrete = false; }
    if (f.year !== undefined && f.year !== null) { if (f.month === null) f.month = 1; if (f.day === null) f.day = 1; }
    if (concrete && ok(f)) return okv(st, dsym(land({ f, z })));
    if (concrete) return okv(st, INV());
    return okv(st, dsym({ f: null, sym: "obj(" + ks.join() + ")", z }));
  };
  F["luxon.DateTime.fromMillis"] = (t, a, st) => {
    const n = arg(a, 0, st), zv = opt(arg(a, 1, st), "zone", st), z = zv === null ? null : norm(zv, st, SYS());
    if (!z) return okv(st, opaqueDt("fromMillis", [n, zv || U]));
    if (zOf(z).t === "invalid") return okv(st, INV());
    return okv(st, dsym(at(z, n)));
  };
  const at = (z, n) => { const zz = zOf(z); return n.k === "d" && zz.t === "fixed" ? { f: fromMs(n.v + zz.off * 60000), z } : { f: null, sym: "ms(" + key(n) + ")", z }; };
  for (const k of ["now", "local"]) F["luxon.DateTime." + k] = (t, a, st) => okv(st, a.length ? opaqueDt(k, []) : dsym({ f: null, sym: "now", z: SYS() }));
  F["luxon.DateTime.utc"] = (t, a, st) => okv(st, a.length ? opaqueDt("utc", []) : dsym({ f: null, sym: "now", z: zfixed(0) }));
  const derive = (name, f) => { const old = F["DateTime.prototype." + name]; F["DateTime.prototype." + name] = (t, a, st, n) => { const d = dOf(t); return d ? f(t, d, a, st, n) : old(t, a, st, n); }; };
  derive("setZone", (t, d, a, st) => {
    if (d.invalid) { /* luxon computes with an invalid value; it stays invalid */ return okv(st, INV()); }
    const z = norm(arg(a, 0, st), st, SYS()), keep = opt(arg(a, 1, st), "keepLocalTime", st), keepCal = opt(arg(a, 1, st), "keepCalendarTime", st);
    if (!z || keep === null || (keep.k !== "u" && keep.k !== "b")) return okv(st, opaqueDt("setZone", [t, arg(a, 0, st)]));
    if (sameZone(zOf(z), zOf(d.z))) return okv(st, t);
    if (zOf(z).t === "invalid") return okv(st, INV());
    if ((keep.k === "b" && keep.v) || (keepCal && keepCal.k === "b" && keepCal.v)) return okv(st, dsym(land({ ...d, z })));
    const x = zOf(d.z), y = zOf(z);
    if (d.f && d.f.year !== null && x.t === "fixed" && y.t === "fixed") return okv(st, dsym({ f: fromMs(ms(d.f) + (y.off - x.off) * 60000), z }));
    if (d.f && d.f.year === null && x.t === "fixed" && y.t === "fixed") return okv(st, dsym({ f: { ...fromMs(ms({ ...d.f, year: 2000, month: 1, day: 1 }) + (y.off - x.off) * 60000), year: null, month: null, day: null }, z }));
    return okv(st, dsym({ f: null, sym: "in(" + key(t) + ")", z }));
  });
  derive("toUTC", (t, d, a, st) => F["DateTime.prototype.setZone"](t, [{ k: "1", v: str("utc") }], st));
  derive("toLocal", (t, d, a, st) => F["DateTime.prototype.setZone"](t, [{ k: "1", v: str("system") }], st));
  for (const nm of ["plus", "minus"]) derive(nm, (t, d, a, st) => {
    if (d.invalid) return okv(st, INV());
    const o = arg(a, 0, st), u = {};
    let amount = o.k === "d" ? o.v : null;
    if (o.k === "o") { amount = 0; for (const [k, mult] of [["milliseconds", 1], ["millisecond", 1], ["seconds", 1e3], ["second", 1e3], ["minutes", 6e4], ["minute", 6e4], ["hours", 36e5], ["hour", 36e5], ["days", 864e5], ["day", 864e5], ["weeks", 6048e5]]) { const v = opt(o, k, st); if (v && v.k === "d") amount += v.v * mult; else if (v && v.k !== "u") amount = null; if (amount === null) break; } for (const k of ["months", "years", "quarters", "month", "year"]) { const v = opt(o, k, st); if (!v || v.k !== "u") amount = null; } }
    if (amount !== null && d.f && d.f.year !== null && (zOf(d.z).t === "fixed" || amount % 864e5 === 0)) return okv(st, dsym(land({ f: fromMs(ms(d.f) + (nm === "plus" ? amount : -amount)), z: d.z })));
    return okv(st, dsym({ f: null, sym: nm + "(" + key(t) + "," + key(o) + ")", z: d.z }));
  });
  // text of a date-time, part by part
  const numText = (d, t, k, w) => { const v = e.symProp(t.id, k, null); if (v.k === "d") return (v.v < 0 ? "-" : "") + String(Math.abs(v.v)).padStart(w, "0"); return { sym: e.syms.named("txt:" + key(v), "text of " + k, { ty: T.S, lang: L.reExact("[0-9]{" + (w || 1) + "," + Math.max(w, 4) + "}") }, { numText: true, foreign: true }).id }; };
  const textOf = (v) => { const l = litOf(v); return l !== null ? l : { sym: v.id }; };
  derive("toFormat", (t, d, a, st) => {
    const fmt = litOf(arg(a, 0, st));
    if (fmt === null) return okv(st, e.opaque("toFormat", [t, arg(a, 0, st)], { ty: T.S }));
    if (d.invalid) return okv(st, str("Invalid DateTime"));
    const parts = [];
    for (const x of split(fmt) || []) {
      if (x.lit !== undefined) { parts.push(x.lit); continue; }
      const k = { y: ["year", 1], yyyy: ["year", 4], MM: ["month", 2], M: ["month", 1], dd: ["day", 2], d: ["day", 1], HH: ["hour", 2], H: ["hour", 1], mm: ["minute", 2], m: ["minute", 1], ss: ["second", 2], s: ["second", 1], SSS: ["millisecond", 3], S: ["millisecond", 1], u: ["millisecond", 3] }[x.tok];
      if (k) parts.push(numText(d, t, k[0], k[1]));
      else if (x.tok === "ZZ") parts.push(textOf(offText(zOf(d.z))));
      else if (x.tok === "Z") parts.push(textOf(offText(zOf(d.z), narrow)));
      else if (x.tok === "ZZZ") parts.push(textOf(offText(zOf(d.z), (o) => short(o).replace(":", ""))));
      else if (x.tok === "z") parts.push(textOf(e.symProp(d.z.id, "name", null)));
      else return okv(st, e.opaque("toFormat", [t, arg(a, 0, st)], { ty: T.S }));
    }
    return okv(st, mkStr(parts));
  });
  derive("toISO", (t, d, a, st) => {
    if (d.invalid) return okv(st, NULL);
    const o = arg(a, 0, st), sup = opt(o, "suppressMilliseconds", st), inc = opt(o, "includeOffset", st), basic = opt(o, "format", st);
    if (!sup || !inc || (sup.k !== "u" && sup.k !== "b") || (inc.k !== "u" && inc.k !== "b") || basic.k !== "u") return okv(st, e.opaque("toISO", [t, o], { ty: T.S }));
    const z = zOf(d.z), parts = [numText(d, t, "year", 4), "-", numText(d, t, "month", 2), "-", numText(d, t, "day", 2), "T", numText(d, t, "hour", 2), ":", numText(d, t, "minute", 2), ":", numText(d, t, "second", 2)];
    const msv = e.symProp(t.id, "millisecond", null);
    if (!(sup.k === "b" && sup.v && msv.k === "d" && msv.v === 0)) parts.push(".", numText(d, t, "millisecond", 3));
    if (!(inc.k === "b" && !inc.v)) parts.push(z.t === "fixed" && z.off === 0 ? "Z" : textOf(offText(z)));
    return okv(st, mkStr(parts));
  });
  derive("toString", (t, d, a, st, n) => F["DateTime.prototype.toISO"](t, [], st, n));
  const toMs = (t, d, st) => (d.f && d.f.year !== null && zOf(d.z).t === "fixed" ? num(ms(d.f) - zOf(d.z).off * 60000) : e.syms.named("ldms:" + t.id, "epoch of " + t.id, { ty: T.D, nan: false }, { foreign: true }));
  for (const k of ["toMillis", "valueOf"]) derive(k, (t, d, a, st) => okv(st, d.invalid ? num(NaN) : toMs(t, d, st)));
  derive("toUnixInteger", (t, d, a, st) => { const v = d.invalid ? num(NaN) : toMs(t, d, st); return okv(st, v.k === "d" ? num(Math.floor(v.v / 1000)) : e.derived("dtnum:toUnixInteger", [t], { ty: T.D })); });
};
module.exports.parse = parse; module.exports.narrow = narrow; module.exports.short = short;

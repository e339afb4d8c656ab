"use strict";
const { H, T, U, V, L, litOf, one, mkStr } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const S = V.str, FILE = "/p/a.jpg", DST = "/p/o.jpg";
const TRUE = V.TRUE, FALSE = V.FALSE;
const toV = (h, st, x, t) => (Array.isArray(x) ? h.arr(st, x.map((y) => toV(h, st, y, t + "e")), t) : x === true ? TRUE : x === false ? FALSE : typeof x === "number" ? V.num(x) : typeof x === "string" ? S(x) : x === undefined ? U : x);
const NUM = ["*Duration*", "GPSAltitude", "GPSLatitude", "GPSLongitude", "GPSPosition", "GeolocationPosition", "Orientation"];
// how an option value shows on the command line: pairs of adjacent lines or single lines
const has = (ls, ...seq) => ls.some((_, i) => seq.every((x, j) => ls[i + j] === x));
const FLAGS = {
  useMWG: { values: [true, false], dflt: true, ops: ["read", "readRaw", "write", "editTags", "deleteAllTags"], show: (ls) => has(ls, "-use", "MWG") },
  ignoreMinorErrors: { values: [true, false], dflt: true, ops: ["read", "readRaw", "write", "editTags", "deleteAllTags", "extractThumbnail", "extractPreview", "extractJpgFromRaw", "extractBinaryTag", "extractBinaryTagToBuffer", "rewriteAllTags"], show: (ls) => ls.includes("-ignoreMinorErrors") },
  geolocation: { values: [true, false], dflt: false, ops: ["read"], show: (ls) => has(ls, "-api", "geolocation") },
  keepUTCTime: { values: [true, false], dflt: true, ops: ["read"], show: (ls) => has(ls, "-api", "keepUTCTime") },
  forceWrite: { values: [true, false], dflt: false, ops: ["extractThumbnail", "extractPreview", "extractJpgFromRaw", "extractBinaryTag"], show: (ls) => ls.includes("-W!") },
  struct: { values: [0, 1, 2], dflt: 1, ops: ["read", "write", "editTags", "deleteAllTags"], show: (ls) => { const i = ls.findIndex((x, k) => /^struct=/.test(x) && ls[k - 1] === "-api"); return i < 0 ? "none" : +ls[i].slice(7); } },
  imageHashType: { values: [false, "MD5", "SHA256", "SHA512"], dflt: false, ops: ["read"], show: (ls) => { const i = ls.findIndex((x, k) => /^imagehashtype=/.test(x) && ls[k - 1] === "-api"); return i < 0 ? false : ls[i].slice(14); } },
  readArgs: { values: [["-fast2"], ["-a", "-u"], []], dflt: ["-fast"], ops: ["read", "readRaw"], show: (ls) => ls.filter((x) => /^-(fast\d*|a|u)$/.test(x)) },
  writeArgs: { values: [["-P"], ["-n", "-q"], []], dflt: [], ops: ["write", "editTags"], show: (ls) => ls.filter((x) => /^-(P|n|q)$/.test(x)) },
  numericTags: { values: [["Aa"], ["Bb", "Cc"], []], dflt: NUM, ops: ["read"], show: (ls) => ls.filter((x) => /#$/.test(x)).map((x) => x.slice(1, -1)) },
  allowMakerNoteRepair: { values: [true, false], dflt: false, ops: ["rewriteAllTags"], callOnly: true, show: (ls) => ls.includes("-F") },
};
const args = {
  read: (st, h, o) => [S(FILE), ...(o ? [o] : [])], readRaw: (st, h, o) => [S(FILE), ...(o ? [o] : [])],
  write: (st, h, o) => [S(FILE), h.obj(st, { Title: S("q") }, "tags"), ...(o ? [o] : [])],
  editTags: (st, h, o) => [S(FILE), h.arr(st, [h.obj(st, { tag: S("XMP-dc:Subject"), operation: S("add"), value: S("q") }, "e")], "edits"), ...(o ? [o] : [])],
  deleteAllTags: (st, h, o) => [S(FILE), ...(o ? [o] : [])],
  extractBinaryTag: (st, h, o) => [S("ThumbnailImage"), S(FILE), S(DST), ...(o ? [o] : [])],
  extractBinaryTagToBuffer: (st, h, o) => [S("ThumbnailImage"), S(FILE), ...(o ? [o] : [])],
  rewriteAllTags: (st, h, o) => [S(FILE), S(DST), ...(o ? [o] : [])],
};
for (const m of ["extractThumbnail", "extractPreview", "extractJpgFromRaw"]) args[m] = (st, h, o) => [S(FILE), S(DST), ...(o ? [o] : [])];
const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const ABSENT = Symbol("absent");
module.exports = {
  level: "other", floor: 600,
  explain: "Abstract interpretation of every operation for every option it honours, with every combination of values given at the call, at the instance or not at all, alone and after another call or another instance with different options; the effect is read from the command line (and, for options that act on the answer, from the result or the callback that is called).",
  rule: "the effect is that of the call's value if given, else the instance's, else the documented default; preceding calls and other instances make no difference",
  run(rep) {
    const mk = (st, h, props, t) => h.obj(st, Object.fromEntries(Object.entries(props).map(([k, v]) => [k, toV(h, st, v, t + k)])), t);
    const observe = (h, name, tasks, f, want) => {
      let n = 0;
      for (const t of tasks) for (const w of h.wires(t)) {
        n++;
        const ls = w.lines.map((l) => (l.star ? null : h.lit(l) ?? h.showLine(l)));
        if (ls.includes(null)) { rep.ob(null, name, "command not fully known"); continue; }
        const got = f(ls);
        rep.ob(eq(got, want) ? true : w.st.impr.size ? null : false, name, eq(got, want) ? "effect " + JSON.stringify(got) : "the effect is that of " + JSON.stringify(got) + ", expected " + JSON.stringify(want));
      }
      if (!n) rep.ob(null, name, "no command");
    };
    const label = (x) => (x === ABSENT ? "absent" : JSON.stringify(x));
    const inst0 = { taskRetries: 0 };
    // one call, every presence combination
    for (const [opt, d] of Object.entries(FLAGS)) for (const op of d.ops) for (const c of [ABSENT, ...d.values]) for (const i of d.callOnly ? [ABSENT] : [ABSENT, ...d.values]) {
      const name = op + ": " + opt + " call " + label(c) + ", instance " + label(i);
      rep.scenario(name, () => {
        const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 8000 });
        const want = c !== ABSENT ? c : i !== ABSENT ? i : d.dflt;
        const r = h.api(op, (st, h) => args[op](st, h, c === ABSENT ? null : mk(st, h, { [opt]: c }, "co")), { instOpts: (st, h) => mk(st, h, { ...inst0, ...(i === ABSENT ? {} : { [opt]: i }) }, "io") });
        observe(h, name, r.tasks, d.show, want);
        rep.addEngine(h.e);
      });
    }
    // an option given next to another one, at either level
    const others = (opt, op) => Object.keys(FLAGS).filter((o) => o !== opt && FLAGS[o].ops.includes(op) && !FLAGS[o].callOnly);
    for (const [opt, d] of Object.entries(FLAGS)) for (const op of d.ops) {
      if (d.callOnly) continue;
      const o2 = Object.fromEntries(others(opt, op).map((o) => [o, FLAGS[o].values.find((v) => !eq(v, FLAGS[o].dflt)) ?? FLAGS[o].values[0]]));
      const v = d.values.find((x) => !eq(x, d.dflt)) ?? d.values[0];
      for (const [nm, co, io, want] of [["instance value kept when the call gives the others", o2, { [opt]: v }, v], ["default kept when the call gives the others", o2, {}, d.dflt], ["call value next to instance values of the others", { [opt]: v }, o2, v], ["default kept when the instance gives the others", {}, o2, d.dflt]]) {
        const name = op + ": " + opt + ": " + nm;
        rep.scenario(name, () => {
          const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 8000 });
          const r = h.api(op, (st, h) => args[op](st, h, mk(st, h, co, "co")), { instOpts: (st, h) => mk(st, h, { ...inst0, ...io }, "io") });
          observe(h, name, r.tasks, d.show, want);
          rep.addEngine(h.e);
        });
      }
    }
    // deprecated hash option, across levels
    for (const c of [{}, { includeImageDataMD5: true }, { includeImageDataMD5: false }, { imageHashType: "SHA512" }, { imageHashType: false }]) for (const i of [{}, { includeImageDataMD5: true }, { includeImageDataMD5: false }, { imageHashType: "SHA256" }, { imageHashType: false }]) {
      const name = "read: image hash call " + JSON.stringify(c) + ", instance " + JSON.stringify(i);
      const eff = (o) => ("imageHashType" in o ? o.imageHashType : "includeImageDataMD5" in o ? (o.includeImageDataMD5 ? "MD5" : false) : undefined);
      rep.scenario(name, () => {
        const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 8000 });
        const r = h.api("read", (st, h) => args.read(st, h, mk(st, h, c, "co")), { instOpts: (st, h) => mk(st, h, { ...inst0, ...i }, "io") });
        observe(h, name, r.tasks, FLAGS.imageHashType.show, eff(c) ?? eff(i) ?? false);
        rep.addEngine(h.e);
      });
    }
    // argument lists given positionally
    for (const [op, opt] of [["read", "readArgs"], ["readRaw", "readArgs"], ["write", "writeArgs"]]) for (const a of FLAGS[opt].values) for (const o of [ABSENT, {}, { useMWG: false }, { [opt]: FLAGS[opt].values[1] }]) for (const i of [ABSENT, ...FLAGS[opt].values.slice(0, 2)]) {
      const name = op + ": positional " + JSON.stringify(a) + ", options " + label(o) + ", instance " + label(i);
      rep.scenario(name, () => {
        const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 8000 });
        const r = h.api(op, (st, h) => [...args[op](st, h, null), toV(h, st, a, "pa"), ...(o === ABSENT ? [] : [mk(st, h, o, "co")])], { instOpts: (st, h) => mk(st, h, { ...inst0, ...(i === ABSENT ? {} : { [opt]: i }) }, "io") });
        observe(h, name, r.tasks, FLAGS[opt].show, a);
        if (o !== ABSENT && o.useMWG === false) observe(h, name + ", useMWG", r.tasks, FLAGS.useMWG.show, false);
        rep.addEngine(h.e);
      });
    }
    // histories: an earlier call with other options, and another instance
    for (const [opt, d] of Object.entries(FLAGS)) for (const op of d.ops) for (const i of d.callOnly ? [ABSENT] : [ABSENT, d.values[0], d.values[1]]) {
      const other = d.values.find((v) => !eq(v, i === ABSENT ? d.dflt : i));
      const name = op + ": " + opt + " after a call with " + label(other) + ", instance " + label(i);
      rep.scenario(name, () => {
        const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 10000 });
        const st = h.state();
        const x = h.instance(st, mk(st, h, { ...inst0, ...(i === ABSENT ? {} : { [opt]: i }) }, "io"));
        const m = h.method(x.v, op, x.st);
        const firsts = h.call(m, x.v, args[op](x.st, h, mk(x.st, h, { [opt]: other }, "co")), x.st);
        for (const o of h.e.mergeOuts(firsts.map((q) => ({ st: q.st, v: U })), 1)) {
          const n0 = h.enq.length;
          h.phase("2nd", () => h.call(m, x.v, args[op](o.st, h, null), o.st));
          observe(h, name, h.enq.slice(n0), d.show, i === ABSENT ? d.dflt : i);
        }
        rep.addEngine(h.e);
      });
      if (d.callOnly) continue;
      const name2 = op + ": " + opt + " of an instance made after one with " + label(other) + ", own value " + label(i);
      rep.scenario(name2, () => {
        const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 10000 });
        const st = h.state();
        const a = h.instance(st, mk(st, h, { ...inst0, [opt]: other }, "io1"));
        const b = h.phase("2", () => h.instance(a.st, mk(a.st, h, { ...inst0, ...(i === ABSENT ? {} : { [opt]: i }) }, "io2")));
        const n0 = h.enq.length;
        h.call(h.method(b.v, op, b.st), b.v, args[op](b.st, h, null), b.st);
        observe(h, name2, h.enq.slice(n0), d.show, i === ABSENT ? d.dflt : i);
        const n1 = h.enq.length;
        h.call(h.method(a.v, op, b.st), a.v, args[op](b.st, h, null), b.st);
        observe(h, name2 + " (the other one)", h.enq.slice(n1), d.show, other);
        rep.addEngine(h.e);
      });
    }
    // options that act on the answer
    const own = (v, k, st) => { const o = st.get(v.id); const ls = (o && o.layers) || []; if (ls.some((l) => !(l instanceof Map))) return null; for (let i = ls.length - 1; i >= 0; i--) if (ls[i].has(k)) return ls[i].get(k).v; return U; };
    const ANSWER = {
      ignoreZeroZeroLatLon: { dflt: true, values: [true, false], doc: () => ({ GPSLatitude: 0, GPSLongitude: 0 }), show: (h, o) => { const v = own(o.v, "GPSLatitude", o.st); return v === null ? null : v.k === "u" || v.k === "x" ? true : v.k === "d" ? false : null; } },
      defaultVideosToUTC: { dflt: true, values: [true, false], doc: () => ({ MIMEType: "video/mp4" }), show: (h, o) => { const v = own(o.v, "tz", o.st); return v === null ? null : v.k === "u" ? false : litOf(h.e.resolve(v, o.st)) === "UTC" ? true : null; } },
    };
    for (const [opt, d] of Object.entries(ANSWER)) for (const c of [ABSENT, ...d.values]) for (const i of [ABSENT, ...d.values]) {
      const name = "read: " + opt + " call " + label(c) + ", instance " + label(i);
      rep.scenario(name, () => {
        const want = c !== ABSENT ? c : i !== ABSENT ? i : d.dflt;
        const { h, outs } = serve(rep.repo, "read", (st, h) => [S(FILE), ...(c === ABSENT ? [] : [mk(st, h, { [opt]: c }, "co")])], null, { engine: { maxMs: 10000 }, json: () => [{ SourceFile: FILE, ...d.doc() }], instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), geoTz: V.nat("Array.isArray"), ...(i === ABSENT ? {} : { [opt]: toV(h, st, i, "i") }) }, "io") });
        rep.addEngine(h.e);
        for (const o of outs) {
          if (o.kind !== "ok") { rep.ob(null, name, "rejects"); continue; }
          const got = d.show(h, o);
          rep.ob(got === want ? true : got === null || o.st.impr.size ? null : false, name, got === want ? "effect " + got : "the effect is that of " + got + ", expected " + want);
        }
      });
    }
    // callbacks: the one in force is the one called
    const CB = { geoTz: { doc: () => ({ GPSLatitude: 12, GPSLongitude: 13, GPSLatitudeRef: "N", GPSLongitudeRef: "E" }), extra: {} } };
    for (const [opt, d] of Object.entries(CB)) for (const [c, i] of [[false, true], [true, false], [true, true]]) {
      const name = "read: " + opt + " call " + c + ", instance " + i;
      rep.scenario(name, () => {
        const called = new Set();
        const { h, outs } = serve(rep.repo, "read", (st, h) => [S(FILE), h.obj(st, { ...(c ? { [opt]: V.nat("caller.onCall") } : {}) }, "co")], null, { engine: { maxMs: 10000 }, hooks: { onUnmodelled(nm, thisV, a, st) { if (/^caller\./.test(nm)) { called.add(nm); return [{ st, v: U }]; } return null; } }, json: () => [{ SourceFile: FILE, ...d.doc() }], instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), ...(opt === "geoTz" ? {} : { geoTz: V.nat("Array.isArray") }), ...(i ? { [opt]: V.nat("caller.onInstance") } : {}) }, "io") });
        rep.addEngine(h.e);
        const want = c ? "caller.onCall" : "caller.onInstance", not = c ? "caller.onInstance" : "caller.onCall";
        rep.ob(called.has(not) ? false : called.has(want) ? true : outs.length && outs.every((o) => o.kind === "ok" && !o.st.impr.size) ? false : null, name, called.has(not) ? "the overridden callback is called" : !called.has(want) ? "the callback in force is not called" : "the callback in force is called");
      });
    }
    // every read option: what the task keeps
    const FIELDS = ["adjustTimeZoneIfDaylightSavings", "backfillTimezones", "defaultVideosToUTC", "geoTz", "ignoreZeroZeroLatLon", "inferTimezoneFromDatestamps", "inferTimezoneFromDatestampTags", "inferTimezoneFromTimeStamp", "preferTimezoneInferenceFromGps"];
    for (const f of FIELDS) for (const [c, i] of [[true, true], [true, false], [false, true]]) {
      const name = "read: " + f + " kept by the request, call " + c + ", instance " + i;
      rep.scenario(name, () => {
        const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 8000 });
        const ty = /geoTz|adjust/.test(f) ? T.F : T.B;
        const val = (st, h, n) => (/Tags$/.test(f) ? h.arr(st, [S(n)], n) : h.sym(n, ty));
        let cv, iv;
        const r = h.api("read", (st, h) => [S(FILE), h.obj(st, { ...(c ? { [f]: (cv = val(st, h, "CALL")) } : {}) }, "co")], { instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), ...(i ? { [f]: (iv = val(st, h, "INST")) } : {}) }, "io") });
        rep.addEngine(h.e);
        for (const t of r.tasks) {
          const o = h.e.getProp(t.task, "options", t.st.clone(), null)[0];
          const ov = o && o.v ? h.e.resolve(o.v, o.st) : null;
          if (!ov || ov.k !== "o") { rep.ob(null, name, "the request keeps no options object"); continue; }
          const p = h.e.getProp(ov, f, o.st, null)[0];
          const got = p && p.v ? h.e.resolve(p.v, p.st) : null, want = c ? cv : iv;
          const ok = got && V.key(got) === V.key(h.e.resolve(want, p.st));
          rep.ob(ok ? true : got && !p.st.impr.size && got.k !== "u" && !/Tags$/.test(f) ? false : null, name, ok ? "the value in force" : "keeps " + (got ? h.e.show(got, p.st) : "?"));
        }
      });
    }
  },
};

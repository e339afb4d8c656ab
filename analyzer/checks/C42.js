"use strict";
const { H, T, V, L, litOf, key } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const { get } = require("../lib/dates");
const S = V.str;
const NAMES = ["Title", "DateTimeOriginal", "CreateDate", "GPSLatitude", "GPSLongitude", "GPSLatitudeRef", "GPSPosition", "GPSAltitude", "GPSDateStamp", "GPSTimeStamp", "TimeStampOfDay", "XMPValid", "ThumbnailImage", "Rating", "OffsetTimeOriginal", "TimeZone", "FileModifyDate", "Directory", "FileName", "XMP:Title", "EXIF:CreateDate", "Composite:GPSLatitude", "ExifToolVersion", "File:FileSize", "UserComment", "a", "Keywords", "tz", "zone"];
const TEXTS = ["", " ", " padded ", "0", "007", "1.50", "true", "yes", "undef", "null", "undefined", "-", "2024:07:04 10:00:00", "2024:07:04", "10:00:00", "0000:00:00 00:00:00", "37 deg 48' 30.00\" N", "37.5", "N", "(Binary data 123 bytes, use -b option to extract)", "base64:AAEC", "a\nb", "a\tb", "&amp;&#39;", "\u00e9\u4e2d\ud83d\ude00", "\ufffd", "{\"a\":1}", "exiftool", "[object Object]"];
const NUMS = [0, -0.5, 1, 1.5, 2024, 1e21, -180, 123456789012];
module.exports = {
  level: "other", floor: 1000,
  explain: "Abstract interpretation of read() and readRaw() from the caller's arguments to the submitted command, with argument lists given in every way (positionally, in the call's options, in the instance's options, combinations of these, none) and both fixed and unknown arguments; and of readRaw() from ExifTool's document to the result, over names of every kind and values of every type (unknown text, number and boolean, special texts, lists, structures).",
  rule: "the argument list in force appears in the command unchanged, complete and in order, arguments of lists not in force do not; readRaw() resolves to the document's keys with the document's values, plus errors, warnings and invalidUtf8Bytes only",
  run(rep, { tier }) {
    const thorough = tier === "thorough";
    // ---------------------------------------------------------------- commands
    const LISTS = [[], ["-Title"], ["-fast2", "-Make", "-Model"], ["-Model", "-Make"], ["-G1", "-a", "-u"], ["-api", "largefilesupport=1", "-Title"], ["-Title", "-Title"], ["-x", "ImageSize", "-x", "Make", "-Make"], ["-json", "-Make"], ["-Make", "-json", "-n"], ["-charset", "iptc=latin"], ["-api", "structformat=json", "-api", "filter="], ["--Make"], ["-if", "$Make eq 'x y'"], ["-b", "-ThumbnailImage", "-ee"], [" -Title "], ["-XMP:all"], ["-all"], ["-fast"], ["-d", "%Y"]];
    const LOSERS = [["-LoserOne", "-d", "%LOSER"], ["-fast4", "-LoserTwo"]];
    const build = (h, st, list, id) => h.arr(st, list.map((x, i) => (typeof x === "string" ? S(x) : x(h, st, i))), id);
    const FORMS = {
      positional: (l, x) => ({ args: (h, st) => [build(h, st, l, "ra")] }),
      "in the call's options": (l, x) => ({ args: (h, st) => [h.obj(st, { readArgs: build(h, st, l, "ra") }, "o")] }),
      "of the instance": (l, x) => ({ inst: (h, st) => ({ readArgs: build(h, st, l, "ra") }), args: () => [] }),
      "of the instance, other options given": (l, x) => ({ inst: (h, st) => ({ readArgs: build(h, st, l, "ra") }), args: (h, st) => [h.obj(st, { useMWG: V.bool(true) }, "o")] }),
      "positional, others in the call's options": (l, x) => ({ args: (h, st) => [build(h, st, l, "ra"), h.obj(st, { readArgs: build(h, st, x[0], "rb") }, "o")] }),
      "positional, others of the instance": (l, x) => ({ inst: (h, st) => ({ readArgs: build(h, st, x[1], "rb") }), args: (h, st) => [build(h, st, l, "ra")] }),
      "in the call's options, others of the instance": (l, x) => ({ inst: (h, st) => ({ readArgs: build(h, st, x[1], "rb") }), args: (h, st) => [h.obj(st, { readArgs: build(h, st, l, "ra") }, "o")] }),
      "positional, options given": (l, x) => ({ args: (h, st) => [build(h, st, l, "ra"), h.obj(st, { useMWG: V.bool(true), ignoreMinorErrors: V.bool(false) }, "o")] }),
    };
    const command = (name, op, list, form) => rep.scenario(name, () => {
      const h = new H({ root: rep.repo });
      const f = FORMS[form](list, LOSERS);
      const r = h.api(op, (st, h) => [S("/p/a.jpg"), ...f.args(h, st)], { instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), ...(f.inst ? f.inst(h, st) : {}) }, "inst") });
      rep.addEngine(h.e);
      const want = list.map((x, i) => (typeof x === "string" ? x : null));
      if (!r.tasks.length) { rep.ob(r.outs.some((o) => o.st.impr.size) || !r.outs.length || want.includes(null) ? null : false, name, "nothing is submitted"); return; }
      for (const t of r.tasks) for (const w of h.wires(t)) {
        if (w.bad) { rep.ob(null, name, "command"); continue; }
        rep.count("commands");
        const ls = w.lines.map((l) => h.lit(l));
        const exact = !ls.some((x, i) => x === null && !(w.lines[i].p.length === 1 && w.lines[i].p[0].sym !== undefined));
        // the line of each argument: its text, or the unknown argument itself
        const same = (l, i, j) => (want[j] !== null ? l === want[j] : w.lines[i].p.length === 1 && w.lines[i].p[0].sym === "ARG" + j);
        let at = -1;
        for (let i = 0; i + want.length <= ls.length && at < 0; i++) if (want.every((_, j) => same(ls[i + j], i + j, j))) at = i;
        rep.ob(at >= 0 ? true : exact ? false : null, name, at >= 0 ? "arguments passed on" : "the arguments " + JSON.stringify(want) + " are not passed on unchanged and in order: " + w.lines.map((l) => h.showLine(l)).join(" ").slice(0, 200));
        if (at < 0) continue;
        const rest = ls.filter((_, i) => i < at || i >= at + want.length);
        const lost = rest.filter((x) => x !== null && (LOSERS.flat().includes(x) || /^-fast\d?$/.test(x)));
        rep.ob(lost.length === 0, name, lost.length ? "arguments not in force are sent, too: " + lost.join(" ") : "nothing else is sent");
        const file = ls.lastIndexOf("/p/a.jpg");
        rep.ob(file >= at + want.length ? true : file < 0 && !exact ? null : false, name, "the file follows the arguments");
        rep.ob(ls.some((x) => x === "-json" || x === "-j") ? true : exact ? false : null, name, "a JSON document is asked for");
      }
    });
    const forms = Object.keys(FORMS);
    for (const op of ["read", "readRaw"]) {
      LISTS.forEach((l, i) => forms.forEach((f, k) => { if (thorough || k === i % forms.length || k < 2) command(op + " with " + JSON.stringify(l) + " " + f, op, l, f); }));
      for (const f of forms) {
        const any = (i) => (h, st) => { const s = h.sym("ARG" + i, T.S); h.e.refine(st, s.id, { ty: T.S, lang: L.reExact("-[A-Z][a-z0-9]*") }); return s; };
        command(op + " with unknown arguments " + f, op, [any(0), "-x", any(2), any(3)], f);
      }
    }
    // the default list, and none
    for (const op of ["read", "readRaw"]) for (const [form, a] of [["no arguments", () => []], ["options only", (h, st) => [h.obj(st, {}, "o")]], ["undefined", () => [V.U || { k: "u" }]]]) rep.scenario(op + " with " + form, () => {
      const h = new H({ root: rep.repo });
      const r = h.api(op, (st, h) => [S("/p/a.jpg"), ...a(h, st)], { instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0) }, "inst") });
      rep.addEngine(h.e);
      for (const t of r.tasks) for (const w of h.wires(t)) { if (w.bad) continue; const ls = w.lines.map((l) => h.lit(l)); rep.ob(ls.includes("-fast") ? true : ls.includes(null) ? null : false, op + " with " + form, "the default arguments are sent: " + ls.join(" ")); }
    });
    // --------------------------------------------------------------- documents
    const cls = (v, st) => { const o = st.get(v.id); return o && o.ctor !== undefined ? st.get(o.ctor).name : ""; };
    const exactly = (h, st, v, raw, path) => {
      v = v && h.e.resolve(v, st);
      if (!v) return [null, path];
      if (raw === null) return [v.k === "n" ? true : v.k === "y" || v.k === "i" ? null : false, path + " is " + h.e.show(v) + " instead of null"];
      if (raw && raw.k === "leaf") { const a = h.e.resolve(raw.abs, st); return [key(a) === key(v) ? true : v.k === "y" ? (h.imprecise && h.imprecise(v, st) ? null : false) : v.k === "i" ? null : false, path + " is " + h.e.show(v).slice(0, 60) + " instead of " + h.e.show(a)]; }
      if (typeof raw !== "object") { const l = v.k === "d" || v.k === "b" ? v.v : litOf(v); return [Object.is(l, raw) ? true : v.k === "y" || v.k === "i" ? null : false, path + " is " + h.e.show(v).slice(0, 60) + " instead of " + JSON.stringify(raw)]; }
      if (v.k !== "o") return [v.k === "y" || v.k === "i" ? null : false, path + " is " + h.e.show(v).slice(0, 60)];
      const c = cls(v, st);
      if (c && c !== "Object" && c !== "Array") return [false, path + " is a " + c];
      let r = [true, path];
      for (const k of Object.keys(raw)) { const q = exactly(h, st, get(h, v, k, st), raw[k], path + "." + k); if (q[0] === false) return q; if (q[0] === null) r = q; }
      if (Array.isArray(raw)) { const n = get(h, v, "length", st); if (!n || n.k !== "d") r = [null, path + ".length"]; else if (n.v !== raw.length) return [false, path + " has " + n.v + " elements instead of " + raw.length]; }
      return r;
    };
    const doc = (name, mk, opts) => rep.scenario(name, () => {
      let raw;
      const r = serve(rep.repo, "readRaw", (st, h) => [S("/p/a.jpg"), ...(opts ? opts(h, st) : [])], undefined, {
        engine: { maxMs: 20000 }, json: (h, st) => [raw = { SourceFile: "/p/a.jpg", ...mk(h, st) }],
      });
      const h = r.h; rep.addEngine(h.e);
      if (!r.outs.length) rep.ob(null, name, "no outcome");
      for (const o of r.outs) {
        const soft = o.st.impr.size > 0;
        if (o.kind !== "ok") { rep.ob(o.kind === "err" && !soft ? false : null, name, "the read fails"); continue; }
        for (const k of Object.keys(raw)) { const [q, m] = exactly(h, o.st, get(h, o.v, k, o.st), raw[k], k); rep.ob(q === false && soft ? null : q, name, q === true ? k + " is unchanged" : m); }
        const v = h.e.resolve(o.v, o.st), ob = v.k === "o" ? o.st.get(v.id) : null;
        if (!ob || !ob.layers || ob.layers.some((l) => !(l instanceof Map))) { rep.ob(null, name, "keys of the result"); continue; }
        const keys = new Set(); for (const l of ob.layers) for (const [k, q] of l) if (!q.gone && !q.del) keys.add(k);
        const more = [...keys].filter((k) => typeof k === "string" && !Object.prototype.hasOwnProperty.call(raw, k) && !["errors", "warnings", "invalidUtf8Bytes"].includes(k));
        rep.ob(more.length === 0 || soft ? (more.length ? null : true) : false, name, more.length ? "the result also has " + more.join(", ") : "no other keys");
      }
    });
    const text = (h, st, n) => { const s = h.sym(n, T.S); h.e.refine(st, s.id, { ty: T.S, lang: L.not(L.reTest("vendored", "i")) }); return leaf(s); };
    const OPTS = [["", null], ["with a filter of the caller's own", (h, st) => [h.arr(st, [S("-api"), S("filter=s/a/b/")], "ra")]], ["with group names", (h, st) => [h.arr(st, [S("-G")], "ra")]], ["with MWG", (h, st) => [h.obj(st, { useMWG: V.bool(true) }, "o")]]];
    for (const [on, opts] of OPTS) {
      NAMES.forEach((n, i) => {
        if (!opts || thorough || i % 4 === 0) {
          doc("unknown text " + n + " " + on, (h, st) => ({ [n]: text(h, st, "TXT") }), opts);
          doc("unknown number " + n + " " + on, (h, st) => ({ [n]: leaf(h.sym("NUM", T.D, { fact: { nan: false, lo: -1e15, hi: 1e15 } })) }), opts);
          doc("values under " + n + " " + on, () => ({ [n]: TEXTS[i % TEXTS.length], Other: NUMS[i % NUMS.length], More: true, Less: false }), opts);
        }
      });
      TEXTS.forEach((t, i) => doc("text " + JSON.stringify(t) + " " + on, () => ({ [NAMES[i % NAMES.length]]: t, Comment: t, List: [t, "x", t], Struct: { A: t, B: { C: [t] } } }), opts));
      NUMS.forEach((t, i) => doc("number " + t + " " + on, () => ({ [NAMES[(i * 3) % NAMES.length]]: t, List: [t, 1, "1", true] }), opts));
      doc("unknown nested " + on, (h, st) => ({ Struct: { A: text(h, st, "T1"), B: [text(h, st, "T2"), { C: text(h, st, "T3") }] }, List: [text(h, st, "T4"), leaf(h.sym("N1", T.D, { fact: { nan: false, lo: 0, hi: 9 } })), leaf(h.sym("B1", T.B))] }), opts);
      doc("empty containers " + on, () => ({ A: [], B: {}, C: [[]], D: [{}] }), opts);
      doc("diagnostics " + on, (h, st) => ({ Warning: "[minor] Odd offset", Error: "File format error", Title: text(h, st, "T1"), ExifToolVersion: 13.4 }), opts);
      doc("unknown warning " + on, (h, st) => ({ Warning: text(h, st, "T2"), Title: text(h, st, "T1") }), opts);
      doc("nulls " + on, () => ({ A: null, B: [null] }), opts);
    }
  },
};

"use strict";
const { H, T, U, V, L, litOf, one, mkStr } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const S = V.str, FILE = "/p/a.jpg";
// caller arguments -> is a filter of the caller's own in force? (ExifTool: the last Filter setting counts; an empty one clears it)
const CASES = [
  [null, false], [[], false], [["-fast"], false], [["-api", "struct=1"], false], [["-api", "largefilesupport=1", "-fast2"], false],
  [["-api", "filter=$X"], true], [["-api", "Filter=$X"], true], [["-API", "FILTER=$X"], true], [["-Api", "fIlTeR^=$X"], true],
  [["-api", "filter"], true], [["-api", "Filter^"], true], [["-api", "filter="], false], [["-api", "Filter^="], false], [["-api", "filter=   "], false],
  [["-api", "filter=$X", "-api", "filter="], false], [["-api", "filter=", "-api", "filter=$X"], true], [["-api", "filter", "-api", "filter="], false],
  [["-api", "filter=$X", "-api", "filter=$Y"], true], [["-api", "filter=$X", "-api", "struct=2"], true], [["-fast", "-api", "filter=$X"], true], [["-api", "filter=$X", "-fast"], true],
  [["filter=$X"], false], [["-api"], false], [["-fast", "filter=$X"], false], [["-api", "xfilter=$X"], false], [["-api", "filterx=$X"], false], [["-api", "filter$=1"], false],
  [["-api", "struct=$X"], false], [["-api", "filter=s/filter=//"], true], [["-api", "filter==$X"], true], [["-xapi", "filter=$X"], false], [["-apix", "filter=$X"], false],
  [["-api", "Filter= $X"], true], [["-api", "ignoretags=filter=$X"], false],
];
const MARK = /"([^"]+)"\s*=>\s*\{\s*(\w+)\s*=>\s*"([^"]*)"\s*\.\s*\$_\s*,\s*(\w+)\s*=>\s*"([^"]*)"\s*\.\s*Image::ExifTool::XMP::EncodeBase64\(\s*\$raw/;
const MARK2 = /"([^"]+)"\s*=>\s*\{\s*(\w+)\s*=>\s*"([^"]*)"\s*\.\s*Image::ExifTool::XMP::EncodeBase64\(\s*\$raw\s*(?:,\s*\d+)?\s*\)\s*,\s*(\w+)\s*=>\s*"([^"]*)"\s*\.\s*\$_/;
module.exports = {
  level: "other", floor: 300,
  explain: "Abstract interpretation of read and readRaw for every form of caller-supplied filter argument, followed by ExifTool's answer given as JSON documents of every wrapper position and near-wrapper shape; the wrapper's shape is taken from the filter text the library itself sends.",
  rule: "the last filter setting of a command is the library's exactly when the caller's arguments leave no usable filter in force; then a wrapped value is reported as its replacement text with its bytes at the same path, and in every other case the parsed document is reported as it is",
  run(rep) {
    const ops = ["read", "readRaw"];
    const symText = (h, st, n, re) => { const v = h.sym(n, T.S); h.e.refine(st, v.id, { ty: T.S, lang: L.reExact(re || "[a-zA-Z_{][^\\r\\n\\x00]*") }); return v; };
    const argV = (h, st, a) => { const m = /^(.*)\$([XY])$/s.exec(a); return m ? mkStr([m[1], { sym: symText(h, st, m[2], "[a-zA-Z_{][a-zA-Z0-9_;]{0,30}").id }]) : S(a); };
    const opts = (args, how) => (st, h) => [S(FILE), ...(args && how === "call" ? [h.obj(st, { readArgs: h.arr(st, args.map((a) => argV(h, st, a)), "ra") }, "o")] : [])];
    const inst = (args, how) => (st, h) => h.obj(st, { taskRetries: V.num(0), geoTz: V.nat("Array.isArray"), ...(args && how === "instance" ? { readArgs: h.arr(st, args.map((a) => argV(h, st, a)), "ra") } : {}) }, "inst");
    // the filter argument in force on a command line: [index, text, mine?]
    const inForce = (h, w) => {
      let last = null;
      w.lines.forEach((l, i) => {
        if (i === 0) return;
        const p = h.lit(w.lines[i - 1]);
        if (p === null || !/^-api$/i.test(p)) return;
        const t = h.showLine(l);
        const m = /^filter\^?(=(.*))?$/is.exec(t);
        if (m) last = { text: t, on: m[1] === undefined || m[2].trim() !== "", mine: h.lit(l) !== null && /caller|EncodeBase64|IsUTF8/.test(t) };
      });
      return last;
    };
    let spec = null, specText = null;
    const commands = (op, args, custom, how) => rep.scenario(op + " with " + JSON.stringify(args) + " (" + how + ")", () => {
      const name = op + " " + JSON.stringify(args) + " (" + how + ")";
      const h = new H({ root: rep.repo, fsNoFail: true, maxMs: 8000 });
      const r = h.api(op, opts(args, how), { instOpts: inst(args, how) });
      rep.addEngine(h.e);
      if (!r.tasks.length) rep.ob(null, name, "no command");
      for (const t of r.tasks) for (const w of h.wires(t)) {
        const f = inForce(h, w), soft = w.st.impr.size > 0 || w.lines.some((l) => l.star);
        const mine = f && f.mine;
        if (mine && !specText) specText = f.text;
        if (custom) rep.ob(mine ? (soft ? null : false) : f && f.on ? true : null, name, mine ? "the caller's filter is replaced by the library's" : "the caller's filter stays in force");
        else rep.ob(mine ? true : soft ? null : false, name, mine ? "the library's filter is in force" : "nothing asks ExifTool to wrap malformed text" + (f ? " (in force: " + f.text.slice(0, 40) + ")" : ""));
      }
    });
    for (const op of ops) for (const [a, c] of CASES) commands(op, a, c, "call");
    for (const [a, c] of CASES) commands("read", a, c, "instance");
    if (specText) { const m = MARK.exec(specText), k = MARK2.exec(specText); if (m) spec = { mark: m[1], f1: m[2], p1: m[3], f2: m[4], p2: m[5] }; else if (k) spec = { mark: k[1], f1: k[4], p1: k[5], f2: k[2], p2: k[3] }; }
    if (!spec) { rep.ob(null, "filter text", "the wrapper built by the filter is not recognised"); return; }
    rep.count("wrapper_fields", 2);
    // decoding
    const own = (v, k, st) => { const o = st.get(v.id); if (o.segs) return o.segs[+k]; const ls = o.layers || []; if (ls.some((l) => !(l instanceof Map))) return null; for (let i = ls.length - 1; i >= 0; i--) if (ls[i].has(k)) return ls[i].get(k); return undefined; };
    const at = (h, v, path, st) => { for (const k of path) { v = h.e.resolve(v, st); if (v.k !== "o") return U; const c = own(v, k, st); if (c === null) return null; if (!c || !c.v || c.v.k === "x") return U; v = c.v; } return h.e.resolve(v, st); };
    const wrap = (X, B, d = {}) => ({ [d.mark ?? spec.mark]: d.payload !== undefined ? d.payload : { ...(d.drop === 1 ? {} : { [d.f1 ?? spec.f1]: d.v1 !== undefined ? d.v1 : leaf(mkStr([d.p1 ?? spec.p1, { sym: X.id }])) }), ...(d.drop === 2 ? {} : { [d.f2 ?? spec.f2]: d.v2 !== undefined ? d.v2 : leaf(mkStr([d.p2 ?? spec.p2, { sym: B.id }])) }), ...(d.extra ? { extra: "q" } : {}) }, ...(d.outer ? { other: "q" } : {}) });
    const POS = [["Tag", (w) => ({ Tag: w }), ["Tag"]], ["Tag[0]", (w) => ({ Tag: [w, "q"] }), ["Tag", "0"]], ["Tag[1]", (w) => ({ Tag: ["q", w] }), ["Tag", "1"]], ["Tag.f", (w) => ({ Tag: { f: w, g: "q" } }), ["Tag", "f"]], ["Tag.f[1].g", (w) => ({ Tag: { f: ["q", { g: w, k: "q" }] } }), ["Tag", "f", "1", "g"]], ["a.b.c", (w) => ({ a: { b: { c: w } } }), ["a", "b", "c"]], ["two tags", (w) => ({ A: w, B: w }), ["B"]]];
    const decode = (name, op, args, mk, check) => rep.scenario(name, () => {
      let X, B;
      const { h, outs } = serve(rep.repo, op, opts(args, "call"), null, { instOpts: inst(null), engine: { maxMs: 10000 }, json: (h, st) => { X = symText(h, st, "TEXT", op === "read" ? "x[a-m]{1,4}" : "[^]*"); B = symText(h, st, "B64", "[A-Za-z0-9+/=]*"); return [{ SourceFile: FILE, ...mk(X, B) }]; } });
      rep.addEngine(h.e);
      for (const o of outs) {
        if (o.kind !== "ok") { rep.ob(o.kind === "err" && !o.st.impr.size ? false : null, name, "the read rejects"); continue; }
        check(h, o, X, B);
      }
    });
    const isBytes = (h, v, st, B) => {
      if (!v || v.k === "u") return false;
      const cls = v.k === "o" ? st.get(v.id).cls : (h.e.syms.get(v.id) || {}).cls;
      if (cls !== "Uint8Array" && cls !== "Buffer" && !/Uint8Array|Buffer/.test(h.e.show(v, st))) return v.k === "y" ? null : false;
      // the text that is decoded must be exactly what follows the prefix
      const bk = V.key(h.e.resolve(B, st));
      let res = null;
      const go = (x) => {
        if (x.k === "s" || (x.k === "y" && V.key(x) === bk)) { if (x.k === "y" || (x.p.length === 1 && "$" + x.p[0].sym === "$" + B.id)) res = true; else if (x.p.some((q) => q.sym === B.id)) res = false; return; }
        if (x.k === "y") { const i = h.e.syms.get(x.id); if (i && i.derive) { i.derive.args.forEach(go); if (i.derive.op === "buf" && i.derive.args[1] && litOf(i.derive.args[1]) !== null && !/^base64(url)?$/.test(litOf(i.derive.args[1]))) res = false; } }
      };
      go(v);
      if (process.env.VERIF_DEBUG) console.log(V.key(v), res);
      return res;
      return null;
    };
    const unwrapped = (name, path) => (h, o, X, B) => {
      const soft = o.st.impr.size > 0;
      const v = at(h, o.v, path, o.st), b = at(h, o.v, ["invalidUtf8Bytes", ...path], o.st);
      const okV = v === null ? null : V.key(v) === V.key(h.e.resolve(X, o.st)) ? true : v.k === "o" || v.k === "u" ? false : v.k === "s" || v.k === "y" ? (h.e.show(v, o.st) === h.e.show(X, o.st) ? true : v.k === "s" && v.p.length && typeof v.p[0] === "string" ? false : null) : false;
      rep.ob(okV === false && soft ? null : okV, name, okV ? "the value is its replacement text" : "the wrapped value is reported as " + (v ? h.e.show(v, o.st).slice(0, 60) : "?"));
      const okB = b === null ? null : isBytes(h, b, o.st, B);
      rep.ob(okB === false && soft ? null : okB, name, okB ? "its bytes are at the same path" : "no bytes for the wrapped value (" + (b ? h.e.show(b, o.st).slice(0, 60) : "?") + ")");
    };
    const untouched = (name, path, leaves, siblings) => (h, o, X, B) => {
      const soft = o.st.impr.size > 0;
      for (const [p, want] of leaves(X, B)) {
        const v = at(h, o.v, [...path, ...p], o.st);
        const ok = v === null ? null : want === "object" ? v.k === "o" : typeof want === "string" ? litOf(v) === want : V.key(v) === V.key(h.e.resolve(want, o.st));
        rep.ob(!ok && soft ? null : ok, name, ok ? "left as it is at " + p.join(".") : "output that is not a requested wrapper is altered at " + [...path, ...p].join(".") + " (" + (v ? h.e.show(v, o.st).slice(0, 50) : "?") + ")");
      }
      const b = at(h, o.v, ["invalidUtf8Bytes"], o.st);
      rep.ob(b === null ? null : b.k === "u" ? true : soft ? null : false, name, "bytes reported: " + (b ? h.e.show(b, o.st).slice(0, 40) : "?"));
    };
    const wl = (m = spec.mark) => (X, B) => [[[m, spec.f1], mkStr([spec.p1, { sym: X.id }])], [[m, spec.f2], mkStr([spec.p2, { sym: B.id }])]];
    const NEAR = [
      ["another marker", { mark: spec.mark + "x" }], ["another field name", { f1: spec.f1 + "x" }], ["another bytes field name", { f2: spec.f2 + "x" }],
      ["text without prefix", { p1: "q" }], ["bytes without prefix", { p2: "q" }], ["an extra payload field", { extra: true }], ["an extra outer field", { outer: true }],
      ["no text", { drop: 1 }], ["no bytes", { drop: 2 }], ["a number as text", { v1: 1 }], ["a number as bytes", { v2: 1 }], ["a text payload", { payload: "q" }], ["a list payload", { payload: ["q", "r"] }], ["a null payload", { payload: null }], ["swapped prefixes", { p1: spec.p2, p2: spec.p1 }],
    ];
    const REQ = CASES.filter(([, c]) => !c).map(([a]) => a), OWN = CASES.filter(([, c]) => c).map(([a]) => a);
    for (const op of ops) {
      for (const [pn, mk, path] of POS) {
        decode(op + ": wrapped " + pn, op, null, (X, B) => mk(wrap(X, B)), unwrapped(op + ": wrapped " + pn, path));
        const nm = op + " with a filter of the caller: wrapper at " + pn;
        if (op === "readRaw") decode(nm, op, ["-api", "filter=$X"], (X, B) => mk(wrap(X, B)), untouched(nm, path, wl()));
        else decode(nm, op, ["-api", "filter=$X"], (X, B) => mk(wrap(X, B)), untouched(nm, path, () => [[[], "object"]]));
      }
      for (const a of REQ) { const nm = op + " " + JSON.stringify(a) + ": wrapped Tag"; decode(nm, op, a, (X, B) => ({ Tag: wrap(X, B) }), unwrapped(nm, ["Tag"])); }
      for (const a of OWN) { const nm = op + " " + JSON.stringify(a) + ": wrapper passed through"; decode(nm, op, a, (X, B) => ({ Tag: wrap(X, B) }), untouched(nm, ["Tag"], () => [[[spec.mark], "object"]])); }
      for (const [n, d] of NEAR) for (const [pn, mk, path] of POS.slice(0, 5)) {
        const nm = op + ": " + n + " at " + pn;
        decode(nm, op, null, (X, B) => mk(wrap(X, B, d)), (h, o, X, B) => {
          const m = d.mark ?? spec.mark, ls = [];
          if (d.payload === undefined) {
            if (d.drop !== 1 && d.v1 === undefined) ls.push([[m, d.f1 ?? spec.f1], mkStr([d.p1 ?? spec.p1, { sym: X.id }])]);
            if (d.drop !== 2 && d.v2 === undefined) ls.push([[m, d.f2 ?? spec.f2], mkStr([d.p2 ?? spec.p2, { sym: B.id }])]);
            if (op === "read") ls.length = 0;
            ls.push([[m], "object"]);
          } else if (d.payload === "q") ls.push([[m], "q"]);
          untouched(nm, path, () => ls)(h, o, X, B);
        });
      }
      const plain = op + ": no wrapper";
      decode(plain, op, null, (X) => ({ Tag: leaf(X), L: [leaf(X), "q"], S: { f: leaf(X) } }), untouched(plain, [], (X) => [[["Tag"], X], [["L", "0"], X], [["L", "1"], "q"], [["S", "f"], X]]));
    }
  },
};

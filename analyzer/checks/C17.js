"use strict";
const { H, T, U, V, L, litOf, one, TRUE, FALSE } = require("../lib/harness");
const { revive, leaf } = require("../lib/json");
const S = V.str;
// classes of rich values and what their constructors take
const CLASSES = {
  ExifDateTime: ["year:n", "month:n", "day:n", "hour:n", "minute:n", "second:n", "millisecond:n?", "tzoffsetMinutes:n?", "rawValue:s?", "zoneName:z?", "inferredZone:b?"],
  ExifTime: ["hour:n", "minute:n", "second:n", "millisecond:n?", "rawValue:s?", "zoneName:z?", "inferredZone:b?"],
  ExifDate: ["year:n", "month:n?", "day:n?", "rawValue:s?"],
  BinaryField: ["bytes:n", "rawValue:s"],
};
module.exports = {
  level: "other", floor: 300,
  explain: "Abstract interpretation of constructor, toJSON() and parseJSON() for every rich value type, with every field an independent unknown of its type, each optional field also absent; the JSON document is the abstract tree toJSON() produced and the reviver is applied bottom-up as JSON.parse does. Zone normalisation is an uninterpreted idempotent function.",
  rule: "the revived value has the same class, and every own field of the original has the same abstract value in it; documents whose _ctor is not one of the rich types come back as the plain data they were; byte sidecars come back as bytes",
  run(rep, { tier }) {
    const FILES = ["src/ExifTool.ts", "src/JSON.ts"];
    let h, tree;
    const hooks = {
      onCall(fnNode, fn, thisV, args, st, node) {
        if (fn !== "getZoneName" || !/Timezones\.ts$/.test(fnNode.getSourceFile().fileName)) return null;
        const e = h.e, a = args.length ? e.resolve(args[0].v, st) : U;
        if (a.k !== "o") return null;
        const g = (k) => { const r = e.getProp(a, k, st, node); return r.length === 1 && !r[0].thr ? e.resolve(r[0].v, r[0].st) : null; };
        const zn = g("zoneName"), off = g("tzoffsetMinutes"), z = g("zone");
        if (!zn || !off || !z || z.k !== "u") return null;
        if (zn.k === "y" && String(zn.id).startsWith("zone(")) return [{ st, v: zn }];
        if (zn.k === "u" && off.k === "u") return [{ st, v: U }];
        return [{ st, v: e.syms.named("zone(" + V.key(zn) + "," + V.key(off) + ")", "zone", { ty: T.S, lang: L.NONEMPTY }, { foreign: true }) }];
      },
      onJsonParse(v, a, st, n) { return tree === undefined ? null : revive(h.e, st, tree, a.length > 1 ? h.e.resolve(a[1].v, st) : U, n); },
    };
    const cls = (v, st) => { if (v.k !== "o") return v.k; const o = st.get(v.id); return o.ctor !== undefined ? st.get(o.ctor).name : o.cls; };
    const fields = (v, st) => { const o = st.get(v.id); const m = new Map(); for (const l of o.layers || []) { if (!(l instanceof Map)) return null; for (const [k, c] of l) if (!k.startsWith("#") && !String(k).startsWith("@@")) m.set(k, c); } return m; };
    const free = (v) => v.k === "y" && h.e.syms.get(v.id) && h.e.syms.get(v.id).foreign;
    const eq = (a, b) => {
      if (V.key(a) === V.key(b)) return true;
      const ca = V.isConst(a) || free(a) || a.k === "o", cb = V.isConst(b) || free(b) || b.k === "o";
      return ca && cb ? false : null;
    };
    const toTree = (v, st) => {
      const r = h.e.resolve(v, st);
      if (r.k !== "o") return leaf(r);
      const o = st.get(r.id);
      if (o.segs) return o.segs.map((s) => (s.k === "1" ? toTree(s.v, st) : null));
      const t = {};
      for (const [k, c] of fields(r, st)) { const x = h.e.resolve(c.v || U, st); if (x.k === "u") continue; t[k] = toTree(x, st); }
      return t;
    };
    // JSON.stringify calls toJSON of objects that have one
    const serialise = (v, st) => { const m = h.e.getProp(v, "toJSON", st.clone(), null); if (m.length !== 1 || m[0].thr || m[0].v.k === "u") return null; return h.call(m[0].v, v, [], st); };
    const argOf = (spec, present) => {
      const [n, t] = spec.split(":");
      if (!present) return U;
      const ty = t[0];
      if (ty === "n") return h.sym("f." + n, T.D, { fact: { nan: false } });
      if (ty === "b") return h.sym("f." + n, T.B);
      return h.sym("f." + n, T.S, ty === "z" ? { fact: { lang: L.NONEMPTY } } : {});
    };
    const wrapN = [["alone", (t) => t, []], ["as a tag", (t) => ({ SourceFile: "/a", X: t, Y: 1 }), ["X"]], ["in a list", (t) => ({ L: [1, t] }), ["L", "1"]], ["in a struct", (t) => ({ A: { B: { C: t } } }), ["A", "B", "C"]]];
    const one_ = (cn, name, args, wrap, path) => rep.scenario(name, () => {
      tree = undefined;
      h = new H({ root: rep.repo, files: FILES, fsNoFail: true, hooks, maxMs: 15000 });
      const st0 = h.state();
      const C = h.exported("src/" + cn + ".ts", cn, st0), P = h.exported("src/JSON.ts", "parseJSON", st0);
      rep.addEngine(h.e);
      for (const o of h.e.construct(C, args().map(one), st0, null)) {
        if (o.thr) { rep.ob(null, name, "constructor throws"); continue; }
        const orig = fields(o.v, o.st);
        const js = serialise(o.v, o.st.clone());
        if (!js) { rep.ob(false, name, cn + " has no toJSON"); continue; }
        for (const j of js) {
          if (j.thr) { rep.ob(null, name, "toJSON throws"); continue; }
          tree = wrap(toTree(j.v, j.st));
          for (const r of h.call(P, U, [S("DOC")], j.st)) {
            if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, "parseJSON throws"); continue; }
            let v = r.v, st = r.st, lost = false;
            for (const k of path) { const g = h.e.getProp(v, k, st, null); if (g.length !== 1 || g[0].thr) { lost = true; break; } v = h.e.resolve(g[0].v, g[0].st); st = g[0].st; }
            if (lost) { rep.ob(null, name, "value not found"); continue; }
            for (const a of h.alts(v, st)) {
              const c = cls(a.v, a.st), soft = a.st.impr.size > 0;
              if (c !== cn) { rep.ob(soft || a.v.k === "y" ? null : false, name, cn + " is restored as " + c); continue; }
              rep.ob(true, name, "class restored");
              const got = fields(a.v, a.st);
              for (const [k, c0] of orig) {
                const x = h.e.resolve(c0.v || U, a.st), y = h.e.resolve((got.get(k) || {}).v || U, a.st);
                const q = eq(x, y);
                rep.ob(q === true ? true : q === false && !soft ? false : null, name, cn + "." + k + (q ? " survives" : " is " + h.e.show(x, a.st) + " before and " + h.e.show(y, a.st) + " after the round trip"));
              }
            }
          }
        }
      }
    });
    for (const [cn, specs] of Object.entries(CLASSES)) {
      const opt = specs.map((s, i) => [s, i]).filter(([s]) => s.endsWith("?")).map(([, i]) => i);
      const masks = [];
      for (let m = 0; m < 1 << opt.length; m++) masks.push(m);
      for (const m of masks) {
        const present = specs.map((s, i) => !opt.includes(i) || !(m & (1 << opt.indexOf(i))));
        const missing = specs.filter((s, i) => !present[i]).map((s) => s.split(":")[0]);
        one_(cn, cn + (missing.length ? " without " + missing.join(", ") : ""), () => specs.map((s, i) => argOf(s, present[i])), ...wrapN[0].slice(1));
      }
      for (const [wn, w, p] of wrapN.slice(1)) one_(cn, cn + " " + wn, () => specs.map((s) => argOf(s, true)), w, p);
    }
    // concrete extremes: values that look empty must survive too
    const N = (x) => V.num(x);
    for (const [nm, cn, a] of [
      ["zeros", "ExifDateTime", () => [N(0), N(0), N(0), N(0), N(0), N(0), N(0), N(0), S(""), S("UTC"), FALSE]],
      ["zero time", "ExifTime", () => [N(0), N(0), N(0), N(0), S(""), S("UTC"), FALSE]],
      ["negative offset", "ExifDateTime", () => [N(2020), N(1), N(2), N(3), N(4), N(5), N(6), N(-300), S("x"), S("UTC-5"), TRUE]],
      ["zero date", "ExifDate", () => [N(0), N(0), N(0), S("")]],
      ["no bytes", "BinaryField", () => [N(0), S("")]],
    ]) one_(cn, cn + ": " + nm, a, (t) => t, []);
    // plain data stays what it is
    const plain = (name, t, same) => rep.scenario(name, () => {
      h = new H({ root: rep.repo, files: FILES, fsNoFail: true, hooks, maxMs: 15000 });
      const st = h.state();
      const P = h.exported("src/JSON.ts", "parseJSON", st);
      tree = t(h);
      for (const r of h.call(P, U, [S("DOC")], st)) {
        if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, "parseJSON throws"); continue; }
        for (const a of h.alts(r.v, r.st)) { const q = same(a.v, a.st, tree); rep.ob(q === true ? true : q === false && !a.st.impr.size ? false : null, name, q ? "unchanged" : "parseJSON changes data that is not a rich value: " + h.e.show(a.v, a.st)); }
      }
      rep.addEngine(h.e);
    });
    const deep = (v, st, t) => {
      v = h.e.resolve(v, st);
      if (t && t.k === "leaf") return eq(h.e.resolve(t.abs, st), v);
      if (t === null || typeof t !== "object") return eq(t === null ? V.NULL : typeof t === "string" ? S(t) : typeof t === "number" ? N(t) : V.bool(t), v);
      if (v.k !== "o") return V.isConst(v) ? false : null;
      const o = st.get(v.id);
      if (o.ctor !== undefined || (o.cls !== "Object" && o.cls !== "Array")) return false;
      if (Array.isArray(t) !== (o.cls === "Array")) return false;
      let r = true;
      if (!Array.isArray(t)) { const f = fields(v, st); if (f) for (const k of f.keys()) if (!(k in t)) return false; }
      for (const k of Object.keys(t)) { const g = h.e.getProp(v, k, st.clone(), null); if (g.length !== 1 || g[0].thr) { r = r && null; continue; } const q = deep(g[0].v, g[0].st, t[k]); if (q === false) return false; if (q === null) r = null; }
      return r;
    };
    for (const c of ["Foo", "", "toString", "constructor", "__proto__", "hasOwnProperty", "Object", "Date", "exifdate", "ExifDateX", "Array", "valueOf"]) {
      plain("_ctor " + JSON.stringify(c), (h) => ({ _ctor: c, year: leaf(h.sym("Y", T.D)), rawValue: leaf(h.sym("R", T.S)) }), deep);
      plain("nested _ctor " + JSON.stringify(c), (h) => ({ a: [{ _ctor: c, x: leaf(h.sym("Y", T.D)) }] }), deep);
    }
    for (const [n, c] of [["a number", 1], ["null", null], ["a list", ["ExifDate"]], ["an object", { _ctor: 1 }], ["true", true]]) plain("_ctor is " + n, (h) => ({ _ctor: c, year: leaf(h.sym("Y", T.D)) }), deep);
    plain("ordinary data", (h) => ({ a: leaf(h.sym("A", T.S)), b: [leaf(h.sym("B", T.D)), null, true, ""], c: { d: 0, e: {} }, bytes: 1, rawValue: "x", year: 2020, month: 1 }), deep);
    plain("a list", (h) => [1, "a", null, false, leaf(h.sym("A", T.S))], deep);
    for (const [n, x] of [["text", "x"], ["number", 3], ["null", null], ["false", false]]) plain("a " + n, () => x, deep);
    // byte sidecars
    const isBytes = (v, st, bytes) => {
      v = h.e.resolve(v, st);
      if (v.k !== "o") return null;
      const o = st.get(v.id);
      if (o.cls !== "Uint8Array") return o.cls === "Object" || o.cls === "Array" ? false : null;
      if (!o.segs) return null;
      const xs = o.segs.map((s) => (s.k === "1" ? h.e.resolve(s.v, st) : null));
      if (xs.some((x) => !x || x.k !== "d")) return null;
      return xs.length === bytes.length && xs.every((x, i) => x.v === bytes[i]);
    };
    const at = (v, st, path) => { for (const k of path) { const g = h.e.getProp(v, k, st, null); if (g.length !== 1 || g[0].thr) return null; v = h.e.resolve(g[0].v, g[0].st); } return v; };
    for (const [n, side, path, bytes] of [
      ["one byte", { Title: { 0: 255 } }, ["Title"], [255]],
      ["bytes 0 and 255", { Title: { 0: 0, 1: 255 } }, ["Title"], [0, 255]],
      ["a longer value", { T: Object.fromEntries([...Array(12).keys()].map((i) => [i, i * 20])) }, ["T"], [...Array(12).keys()].map((i) => i * 20)],
      ["in a list", { L: { 1: { 0: 200 } } }, ["L", "1"], [200]],
      ["in the first element of a list", { L: { 0: { 0: 200, 1: 7 } } }, ["L", "0"], [200, 7]],
      ["in a struct", { A: { B: { C: { 0: 128, 1: 65 } } } }, ["A", "B", "C"], [128, 65]],
    ]) plain("byte sidecar: " + n, () => ({ Title: "x", invalidUtf8Bytes: side }), (v, st) => { const b = at(v, st, ["invalidUtf8Bytes", ...path]); return b === null ? null : isBytes(b, st, bytes); });
    plain("bytes under another name", () => ({ Title: { 0: 1, 1: 2 }, other: { 0: 3 } }), deep);
    // what the sidecar must not swallow
    for (const [n, side] of [["a value over 255", { T: { 0: 256 } }], ["a negative value", { T: { 0: -1 } }], ["a fraction", { T: { 0: 1.5 } }], ["a gap", { T: { 1: 3 } }], ["text", { T: { 0: "a" } }], ["null", { T: null }]]) plain("sidecar-like data: " + n, () => ({ invalidUtf8Bytes: side }), deep);
  },
};

"use strict";
const { H, T, U, V, L, litOf, one, mkStr } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const J = require("../lib/json");
const S = V.str, FILE = "/p/a.jpg";
const NAMES = ["constructor", "toString", "__proto__", "hasOwnProperty", "valueOf", "isPrototypeOf", "toLocaleString", "propertyIsEnumerable", "__defineGetter__", "__defineSetter__", "__lookupGetter__", "__lookupSetter__", "prototype", "length", "name", "then", "toJSON", "caller", "arguments", "__count__", "push", "0"];
const own = (v, k, st) => {
  const o = st.get(v.id);
  if (o.segs) return { v: o.segs[+k] && o.segs[+k].v };
  const ls = o.layers || [];
  if (ls.some((l) => !(l instanceof Map))) return null;
  for (let i = ls.length - 1; i >= 0; i--) if (ls[i].has(k)) return ls[i].get(k);
  return undefined;
};
module.exports = {
  level: "other", floor: 250,
  explain: "Abstract interpretation of the operations that take names from a file or a caller, with every built-in member name (and, for lookups, an unknown name) as tag name, group member, struct field, type marker, byte-sidecar key or looked-up tag, and unknown values.",
  rule: "a stored name is an own data property holding the stored value and no assignment reaches a prototype setter; a lookup by a name that was not stored gives undefined, never a member of Object.prototype",
  run(rep, { tier }) {
    let cur, protoWrites = [];
    const onProtoWrite = (v, o, k, st, node) => { const l = litOf(k); if (l === "__proto__") protoWrites.push(cur.e.loc(node)); };
    const at = (h, v, path, st) => {
      for (const k of path) {
        v = h.e.resolve(v, st);
        if (v.k !== "o") return { bad: v };
        const c = own(v, k, st);
        if (c === null) return { vague: true };
        if (!c || !c.v) return { missing: k };
        v = c.v;
      }
      return { v: h.e.resolve(v, st) };
    };
    const expectAt = (h, name, v, st, path, want) => {
      const lit = path.find((x) => Array.isArray(x));
      path = path.filter((x) => !Array.isArray(x));
      const r = at(h, v, path, st), soft = st.impr.size > 0, p = path.join(" > ");
      if (r.vague) return rep.ob(null, name, p);
      if (r.missing !== undefined) return rep.ob(soft ? null : false, name, "the value stored as " + JSON.stringify(p) + " is not an own property of the result");
      if (r.bad) return rep.ob(soft || r.bad.k === "y" ? null : false, name, p + " is lost");
      for (const a of h.alts(r.v, st)) {
        const ok = (lit ? litOf(a.v) === lit[0] || (a.v.k === "o" ? "object" : (h.e.syms.get(a.v.id) || {}).cls) === lit[0] : V.key(a.v) === V.key(h.e.resolve(want, a.st))) ? true : null;
        rep.ob(ok === null && (a.v.k === "u" || a.v.k === "nat") && !soft ? false : ok, name, ok ? "own property " + p : p + " holds " + h.e.show(a.v, a.st));
      }
    };
    const inst = (st, h) => { cur = h; return h.obj(st, { taskRetries: V.num(0), geoTz: V.nat("Array.isArray") }, "inst"); };
    const readDoc = (name, op, mk, paths, opts, file = FILE) => rep.scenario(name, () => {
      protoWrites = [];
      let want;
      const { h, outs } = serve(rep.repo, op, (st, h) => [S(file), ...(opts ? [h.obj(st, opts(st, h), "o")] : [])], null, { engine: { maxMs: 10000 }, hooks: { onProtoWrite }, json: (h, st) => { cur = h; want = h.sym("V", T.S); h.e.refine(st, want.id, { ty: T.S, lang: L.reExact("x[a-m]{1,4}") }); return [{ SourceFile: FILE, ...mk(leaf(want)) }]; }, instOpts: inst });
      rep.addEngine(h.e);
      for (const o of outs) {
        if (o.kind !== "ok") { rep.ob(o.kind === "err" && !o.st.impr.size ? false : null, name, op + " rejects"); continue; }
        for (const p of paths) expectAt(h, name, o.v, o.st, p, want);
      }
      rep.ob(protoWrites.length ? false : true, name, protoWrites.length ? "assignment through the __proto__ setter at " + [...new Set(protoWrites)].join(", ") : "no prototype is assigned");
    });
    // computed member names keep "__proto__" an own name
    const o1 = (k, v) => { const x = Object.create(null); Object.defineProperty(x, k, { value: v, enumerable: true, configurable: true, writable: true }); return x; };
    const G = (st, h) => ({ readArgs: h.arr(st, [S("-G")], "ra") });
    const merge = (a, b) => { const x = {}; for (const s of [a, b]) for (const k of Object.keys(s)) Object.defineProperty(x, k, { value: s[k], enumerable: true, configurable: true, writable: true }); return x; };
    const wire = { "__etvInvalidUtf8V1": { replacement: "s:ab", rawBase64: "b64:/w==" } };
    for (const n of NAMES) {
      for (const op of ["read", "readRaw"]) {
        readDoc(op + ": tag " + n, op, (v) => o1(n, v), [[n]]);
        readDoc(op + ": struct field " + n, op, (v) => ({ Tag: o1(n, v), T2: o1("a", o1(n, v)) }), [["Tag", n], ["T2", "a", n]]);
        readDoc(op + ": struct in a list, field " + n, op, (v) => ({ Tag: [o1(n, v)] }), [["Tag", "0", n]]);
        readDoc(op + ": struct tag " + n, op, (v) => o1(n, { a: v }), [[n, "a"]]);
        readDoc(op + ": malformed text in " + n, op, (v) => merge(o1(n, wire), { T: v }), [[n, ["ab"]], ["T"], ["invalidUtf8Bytes", n, ["Uint8Array"]]]);
        readDoc(op + ": malformed text in struct field " + n, op, (v) => ({ A: o1(n, wire), T: v }), [["A", n, ["ab"]], ["T"], ["invalidUtf8Bytes", "A", n, ["Uint8Array"]]]);
      }
      if (!/^\d/.test(n)) readDoc("read -G: tag " + n, "read", (v) => o1("XMP:" + n, v), [["XMP:" + n]], G);
      readDoc("read with a time tag named " + n, "read", (v) => merge(o1(n, v), { MIMEType: "image/jpeg", Make: "x" }), [[n], ["Make", ["x"]]]);
    }
    // JSON documents of callers
    const jh = { onProtoWrite, onJsonParse(v, a, st, n) { return J.revive(cur.e, st, jh.tree, a.length > 1 ? cur.e.resolve(a[1].v, st) : U, n); } };
    const FILES = ["src/ExifTool.ts", "src/JSON.ts"];
    const json = (name, tree, paths) => rep.scenario(name, () => {
      protoWrites = [];
      const h = (cur = new H({ root: rep.repo, files: FILES, fsNoFail: true, hooks: jh, maxMs: 8000 }));
      const st = h.state(), want = h.sym("V", T.S);
      jh.tree = tree(leaf(want));
      const P = h.exported("src/JSON.ts", "parseJSON", st);
      for (const r of h.call(P, U, [S("DOC")], st)) {
        if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, "parseJSON throws"); continue; }
        for (const p of paths) expectAt(h, name, r.v, r.st, p, want);
      }
      rep.ob(!protoWrites.length, name, protoWrites.length ? "assignment through the __proto__ setter at " + [...new Set(protoWrites)].join(", ") : "no prototype is assigned");
      rep.addEngine(h.e);
    });
    for (const n of NAMES) {
      json("parseJSON: key " + n, (v) => o1(n, v), [[n]]);
      json("parseJSON: nested key " + n, (v) => ({ a: [o1(n, o1(n, v))] }), [["a", "0", n, n]]);
      json("parseJSON: type marker " + n, (v) => ({ _ctor: n, x: v }), [["x"], ["_ctor", [n]]]);
      json("parseJSON: type marker on a nested value " + n, (v) => ({ T: { _ctor: n, x: v } }), [["T", "x"]]);
      json("parseJSON: byte sidecar of " + n, (v) => ({ t: v, invalidUtf8Bytes: o1(n, { 0: 255 }) }), [["t"], ["invalidUtf8Bytes", n, ["object"]]]);
    }
    // tag descriptions
    const member = (h, v) => v.k === "nat" || (v.k === "y" && (h.e.syms.get(v.id) || {}).protoMember);
    const lookup = (name, lang, mkName, method, stored) => rep.scenario(name, () => {
      const hit = [];
      const h = (cur = new H({ root: rep.repo, files: ["src/ExifTool.ts", "src/TagDescriptions.ts"], fsNoFail: true, hooks: { onProtoRead(v, o, k, st, node) { hit.push(h.e.loc(node)); } }, maxMs: 20000 }));
      const st = h.state();
      const C = h.exported("src/TagDescriptions.ts", "TagDescriptions", st);
      const i = h.instance(st, h.obj(st, { taskRetries: V.num(0) }, "inst"));
      for (const t of h.e.construct(C, [one(i.v), ...(lang ? [one(h.obj(i.st, { language: S(lang) }, "o"))] : [])], i.st, null)) {
        if (t.thr) { rep.ob(null, name, "constructor throws"); continue; }
        for (const o of h.settle(h.call(h.method(t.v, method, t.st), t.v, [mkName(h, t.st)], t.st))) {
          if (o.kind === "pending" || o.kind === "err") { rep.ob(method === "get" && o.kind === "err" && !o.st.impr.size ? false : method === "get" ? null : true, name, "no answer"); continue; }
          if (o.kind === "throw") { rep.ob(o.st.impr.size ? null : false, name, "the lookup throws"); continue; }
          for (const a of h.alts(o.v, o.st)) {
            if (member(h, a.v)) rep.ob(a.st.impr.size ? null : false, name, "the lookup answers with a built-in object member");
            else if (stored === false && method === "get" && a.v.k !== "u") rep.ob(a.v.k === "o" && !a.st.impr.size ? false : null, name, "the lookup of an unknown tag answers " + h.e.show(a.v, a.st));
            else rep.ob(true, name, "answers " + h.e.show(a.v, a.st).slice(0, 40));
          }
        }
      }
      rep.addEngine(h.e);
    });
    for (const lang of [null, "en", "fr", "constructor"]) for (const m of ["get"]) {
      for (const n of NAMES) lookup("TagDescriptions." + m + "(" + n + ")" + (lang ? " in " + lang : ""), lang, () => S(n), m, false);
      lookup("TagDescriptions." + m + "(any name)" + (lang ? " in " + lang : ""), lang, (h) => h.sym("NAME", T.S), m);
      lookup("TagDescriptions." + m + "(Title)" + (lang ? " in " + lang : ""), lang, () => S("Title"), m);
    }
    // names given to writes
    const wr = (name, mk, want, reject) => rep.scenario(name, () => {
      protoWrites = [];
      const h = (cur = new H({ root: rep.repo, fsNoFail: true, hooks: { onProtoWrite }, maxMs: 10000 }));
      const r = h.api("write", (st, h) => [S(FILE), mk(st, h)]);
      rep.addEngine(h.e);
      let seen = 0;
      for (const t of r.tasks) for (const w of h.wires(t)) {
        seen++;
        const txt = w.lines.map((l) => h.showLine(l));
        rep.ob(txt.some((l) => want.test(l)) ? true : w.st.impr.size ? null : false, name, txt.some((l) => want.test(l)) ? "sent as " + want : "the command lacks " + want + ": " + txt.join(" "));
      }
      if (!seen) rep.ob(r.outs.every((o) => o.kind !== "ok") ? (reject ? true : null) : false, name, "no command is sent");
      rep.ob(!protoWrites.length, name, protoWrites.length ? "assignment through the __proto__ setter at " + [...new Set(protoWrites)].join(", ") : "no prototype is assigned");
    });
    const ob = (st, h, k, v, tag) => { const o = h.obj(st, {}, tag); const x = st.get(o.id); st.set(o.id, { ...x, layers: [new Map([[k, { v }]])] }); return o; };
    for (const n of NAMES.filter((n) => /^[a-zA-Z]/.test(n))) {
      wr("write: tag " + n, (st, h) => ob(st, h, n, h.sym("V", T.S, { fact: { lang: L.reExact("[a-z]+") } }), "tags"), new RegExp("^-" + n + "=.*V"));
      wr("write: struct field " + n, (st, h) => h.obj(st, { Tag: ob(st, h, n, S("abc"), "inner") }, "tags"), new RegExp("^-Tag=.*" + n + ".*=.*abc"));
    }
  },
};

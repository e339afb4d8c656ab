"use strict";
const { H, T, U, V, L, NULL, litOf } = require("../lib/harness");
const { edit } = require("../lib/scenarios");
const ANYT = 1023;
const PRIM = T.U | T.N | T.B | T.D | T.S;
const COLL = "XMP-mwg-coll:Collections";
// characters that do not survive: C0 except TAB and LF, CR, surrogates, noncharacters, the list separator
const BAD = [[0, 8], [0xb, 0xc], [0xd, 0xd], [0xe, 0x1f], [0xd800, 0xdfff], [0xfdd0, 0xfdef]];
for (let p = 0; p <= 16; p++) BAD.push([p * 0x10000 + 0xfffe, p * 0x10000 + 0xffff]);
function goodText(allowEmpty) {
  const ok = [];
  let from = 0;
  for (const [a, b] of [...BAD].sort((x, y) => x[0] - y[0])) { if (a > from) ok.push([from, a - 1]); from = Math.max(from, b + 1); }
  if (from <= 0x10ffff) ok.push([from, 0x10ffff]);
  const d = L.star(L.cpLang(ok));
  return allowEmpty ? d : L.diff(d, L.EPS);
}
const strs = (h, st, name) => {
  const v = h.exported("src/TagEdit.ts", name, st);
  const r = h.e.getProp(v, "values", st, null)[0].v;
  const o = st.get(r.id);
  return o.segs.map((s) => litOf(s.v));
};
// the edit line of a command: {tag: language, op, value parts}
function editLine(h, w) {
  for (const l of w.lines) {
    if (l.p[0] === "-" && l.p[1] && l.p[1].sym !== undefined && typeof l.p[2] === "string" && /^[+-]=/.test(l.p[2])) return { l, sym: l.p[1].sym, lang: h.partLang(l.p[1], w.st), op: l.p[2][0] };
    const m = typeof l.p[0] === "string" && /^-([^=]*?)([+-])=/.exec(l.p[0]);
    if (m) return { l, lang: L.lit(m[1]), op: m[2] };
    if (typeof l.p[0] === "string" && l.p[0].startsWith("-") && l.p.some((p) => ["ETAG", "EVAL", "CNAME", "CURI"].includes(p.sym))) return { l, bad: true };
  }
  return null;
}
function show(d) { const w = L.witness(d); return w === null ? "?" : JSON.stringify(w); }
function inLang(rep, h, st, sym, d, where, what) {
  const f = h.e.fact(sym, st);
  if (f.ty & ~T.S) { rep.ob(st.impr.has(sym) ? null : false, where, sym + " may be a value that is not a string"); return; }
  const have = f.lang || L.ALL;
  if (L.subset(have, d)) rep.ob(true, where, what);
  else rep.ob(st.impr.has(sym) ? null : false, where, "an edit is sent although " + sym + " = " + show(L.diff(have, d)) + " (" + what + ")");
}
module.exports = {
  goodText, editLine, strs,
  level: "other", floor: 60,
  explain: "Abstract interpretation of editTags() with unknown tag, operation, text and extra arguments: the language of each unknown at the point where the command is queued is compared with the language of allowed edits. Code-point loops are summarised by the exact set of code points on which the loop body falls through.",
  rule: "command queued => tag in the supported list, '+=' only for addable tags, operation add/remove matches the operator, text non-empty and free of separator, XML-invalid, CR, surrogate and noncharacter code points, no -api/-sep extra argument; malformed edits queue nothing",
  run(rep) {
    const rep0 = rep;
    const one = (name, mk, opts, f) => rep.scenario(name, () => {
      const h = new H({ root: rep.repo });
      const r = h.api("editTags", (st) => [h.sym("FILE", T.S), mk(h, st), opts ? opts(h, st) : U]);
      rep.addEngine(h.e);
      f(h, r, name);
    });
    const arr = (h, st, ...es) => h.arr(st, es, "edits");
    const each = (h, r, name, f) => {
      rep.ob(r.tasks.length > 0 ? true : null, name, "some edits are accepted");
      for (const t of r.tasks) for (const w of h.wires(t)) {
        if (w.bad) continue;
        h.refined(rep0, w, (w, r) => {
          rep = r;
          const e = editLine(h, w);
          if (!e) rep.ob(false, name, "a command is sent without the edit");
          else if (e.bad) rep.ob(false, name, "the edit is not sent as an add or remove: " + h.showLine(e.l).slice(0, 100));
          else f(w, e);
        });
        rep = rep0;
      }
    };
    const tagOk = (h, w, e, name) => {
      const all = strs(h, w.st, "TagEditTagNames"), add = [...strs(h, w.st, "TagEditAddTagNames"), COLL];
      const allowed = L.lits(e.op === "+" ? add : all);
      if (L.subset(e.lang, allowed)) rep.ob(true, name, "tag of a '" + e.op + "=' edit is supported");
      else rep.ob(e.sym && w.st.impr.has(e.sym) ? null : false, name, "a '" + e.op + "=' edit of " + show(L.diff(e.lang, allowed)) + " is sent");
    };
    const opOk = (h, w, e, name) => {
      const f = h.e.fact("EOP", w.st), want = e.op === "+" ? "add" : "remove";
      rep.ob(f.ty === T.S && f.lang && L.subset(f.lang, L.lit(want)) || f.eq && litOf(f.eq) === want ? true : w.st.impr.has("EOP") ? null : false, name, "'" + e.op + "=' is sent exactly for operation " + want);
    };
    one("any text edit", (h, st) => arr(h, st, edit(st, h, { value: h.sym("EVAL", PRIM) })), null, (h, r, name) => each(h, r, name, (w, e) => {
      tagOk(h, w, e, name); opOk(h, w, e, name);
      inLang(rep, h, w.st, "EVAL", goodText(false), name, "text is non-empty, well-formed and free of the separator");
      if (e.sym) { const d = L.lit(COLL); rep.ob(L.isEmpty(L.inter(e.lang, d)) ? true : w.st.impr.has(e.sym) ? null : false, name, "a collection edit never carries plain text"); }
    }));
    one("collection value", (h, st) => arr(h, st, edit(st, h, { value: h.obj(st, { CollectionName: h.sym("CNAME", PRIM), CollectionURI: h.sym("CURI", PRIM) }, "c") })), null, (h, r, name) => each(h, r, name, (w, e) => {
      tagOk(h, w, e, name); opOk(h, w, e, name);
      rep.ob(L.subset(e.lang, L.lit(COLL)), name, "only the collection tag takes a structure");
      rep.ob(e.op === "+", name, "a collection value is only ever added");
      for (const s of ["CNAME", "CURI"]) inLang(rep, h, w.st, s, goodText(true), name, "text is well-formed and free of the separator");
    }));
    one("collection predicate", (h, st) => arr(h, st, edit(st, h, { predicate: h.obj(st, { CollectionName: h.sym("CNAME", PRIM) }, "c") })), null, (h, r, name) => each(h, r, name, (w, e) => {
      tagOk(h, w, e, name); opOk(h, w, e, name);
      rep.ob(L.subset(e.lang, L.lit(COLL)) && e.op === "-", name, "a predicate is only used to remove collections");
      inLang(rep, h, w.st, "CNAME", goodText(true), name, "text is well-formed and free of the separator");
    }));
    // extra arguments
    one("extra arguments", (h, st) => arr(h, st, h.obj(st, { tag: V.str("XMP-dc:Subject"), operation: V.str("add"), value: V.str("x") }, "e")), (h, st) => h.obj(st, { writeArgs: h.arr(st, [h.sym("WARG", T.S), h.sym("WARG2", T.S)], "wa") }, "o"), (h, r, name) => each(h, r, name, (w) => {
      for (const s of ["WARG", "WARG2"]) inLang(rep, h, w.st, s, L.not(L.reTest("^-(?:api|sep)", "i")), name, "extra arguments never redefine the separator or API options");
    }));
    // malformed requests queue nothing
    const none = (n, mk) => one(n, mk, null, (h, r) => rep.ob(r.tasks.length === 0, n, "nothing is sent") && rep.ob(r.outs.every((o) => o.kind !== "ok"), n, "the call does not resolve"));
    const E = (h, st, p) => h.obj(st, p, "e");
    const s = V.str, kw = { tag: s("IPTC:Keywords"), operation: s("add"), value: s("x") };
    none("no edits", (h, st) => arr(h, st));
    none("edits that are not a list", (h, st) => E(h, st, kw));
    none("edits null", () => NULL);
    none("edits undefined", () => U);
    for (const [n, v] of [["null", NULL], ["undefined", U], ["string", s("x")], ["number", V.num(1)]]) none("edit is " + n, (h, st) => arr(h, st, v));
    none("edit is a list", (h, st) => arr(h, st, h.arr(st, [s("x")], "q")));
    none("edit is not a plain object", (h, st) => arr(h, st, h.e.construct(V.nat("Map"), [], st, null)[0].v));
    none("missing tag", (h, st) => arr(h, st, E(h, st, { operation: s("add"), value: s("x") })));
    none("missing operation", (h, st) => arr(h, st, E(h, st, { tag: kw.tag, value: s("x") })));
    none("missing value", (h, st) => arr(h, st, E(h, st, { tag: kw.tag, operation: s("add") })));
    none("text edit with a predicate", (h, st) => arr(h, st, E(h, st, { ...kw, predicate: h.sym("PRED", PRIM) })));
    none("list of texts", (h, st) => arr(h, st, E(h, st, { ...kw, value: h.arr(st, [s("x"), s("y")], "v") })));
    none("structure as text", (h, st) => arr(h, st, E(h, st, { ...kw, value: h.obj(st, { CollectionName: s("x"), CollectionURI: s("y") }, "v") })));
    none("add to a remove-only tag", (h, st) => arr(h, st, E(h, st, { ...kw, tag: s("XMP-mwg-rs:RegionName") })));
    none("valid edit followed by an invalid one", (h, st) => arr(h, st, E(h, st, kw), E(h, st, { ...kw, value: s("") })));
    none("incomplete collection value", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("add"), value: h.obj(st, { CollectionName: s("x") }, "v") })));
    none("collection removal by value", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("remove"), value: h.obj(st, { CollectionName: s("x"), CollectionURI: s("y") }, "v") })));
    none("collection addition with predicate", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("add"), predicate: h.obj(st, { CollectionName: s("x") }, "v") })));
    none("collection value and predicate", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("remove"), value: U, predicate: h.obj(st, { CollectionName: s("x") }, "v") })));
    none("empty predicate", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("remove"), predicate: h.obj(st, {}, "v") })));
    none("unknown predicate field", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("remove"), predicate: h.obj(st, { CollectionName: s("x"), Other: s("y") }, "v") })));
    none("predicate is text", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("remove"), predicate: s("x") })));
    none("predicate is a list", (h, st) => arr(h, st, E(h, st, { tag: s(COLL), operation: s("remove"), predicate: h.arr(st, [s("x")], "v") })));
    // adding and then removing the same thing cannot be expressed in one command
    const tags = ["IPTC:Keywords", "XMP-dc:Subject"];
    for (const tg of tags) none("add then remove the same text of " + tg, (h, st) => { const v = h.sym("EVAL", T.S); return arr(h, st, h.obj(st, { tag: s(tg), operation: s("add"), value: v }, "e1"), h.obj(st, { tag: s(tg), operation: s("remove"), value: v }, "e2")); });
    none("add, unrelated, then remove the same text", (h, st) => { const v = s("x"); return arr(h, st, h.obj(st, { ...kw, value: v }, "e1"), h.obj(st, { ...kw, tag: s("XMP-dc:Subject") }, "e2"), h.obj(st, { ...kw, operation: s("remove"), value: v }, "e3")); });
    none("add then remove the same collection", (h, st) => arr(h, st, h.obj(st, { tag: s(COLL), operation: s("add"), value: h.obj(st, { CollectionName: s("a"), CollectionURI: s("u") }, "v") }, "e1"), h.obj(st, { tag: s(COLL), operation: s("remove"), predicate: h.obj(st, { CollectionName: s("a") }, "p") }, "e2")));
    const two = (n, mk) => one(n, mk, null, (h, r) => {
      rep.ob(r.tasks.length > 0 ? true : null, n, "is accepted");
      for (const t of r.tasks) for (const w of h.wires(t)) rep.ob(w.lines.filter((l) => typeof l.p[0] === "string" && l.p.some((p) => typeof p === "string" && /[+-]=/.test(p))).length === 2, n, "both edits are sent");
    });
    two("remove then add the same text", (h, st) => arr(h, st, h.obj(st, { ...kw, operation: s("remove") }, "e1"), h.obj(st, kw, "e2")));
    two("add then remove another text", (h, st) => arr(h, st, h.obj(st, kw, "e1"), h.obj(st, { ...kw, operation: s("remove"), value: s("y") }, "e2")));
  },
};

"use strict";
const { H, T, U, V, L } = require("../lib/harness");
const { tagsWith } = require("../lib/scenarios");
const E = require("../lib/evalsym");
const S = (h, n) => h.sym(n, T.S);
// each shape: how to build the value, and the structure ExifTool must see
const o = (...f) => ({ o: f }), a = (...x) => ({ a: x }), v = (n) => ({ v: n });
const SHAPES = {
  "string field": [(h, st) => h.obj(st, { F: S(h, "V1") }, "s"), o(["F", v("V1")])],
  "two string fields": [(h, st) => h.obj(st, { F: S(h, "V1"), G: S(h, "V2") }, "s"), o(["F", v("V1")], ["G", v("V2")])],
  "caller-chosen field name": [(h, st) => { const s = h.obj(st, {}, "s"); h.e.setProp(s, S(h, "NAME"), S(h, "V1"), st, null); return s; }, o(["@NAME", v("V1")])],
  "list field": [(h, st) => h.obj(st, { F: h.arr(st, [S(h, "V1"), S(h, "V2")], "l"), G: S(h, "V3") }, "s"), o(["F", a(v("V1"), v("V2"))], ["G", v("V3")])],
  "list of structs": [(h, st) => h.arr(st, [h.obj(st, { F: S(h, "V1") }, "s"), h.obj(st, { F: S(h, "V2") }, "t")], "l"), a(o(["F", v("V1")]), o(["F", v("V2")]))],
  "struct in struct": [(h, st) => h.obj(st, { F: h.obj(st, { G: S(h, "V1") }, "t"), H: S(h, "V2") }, "s"), o(["F", o(["G", v("V1")])], ["H", v("V2")])],
  "list in struct in list": [(h, st) => h.arr(st, [h.obj(st, { F: h.arr(st, [S(h, "V1"), S(h, "V2")], "m") }, "s")], "l"), a(o(["F", a(v("V1"), v("V2"))]))],
  "list in list in struct": [(h, st) => h.obj(st, { F: h.arr(st, [h.arr(st, [S(h, "V1"), S(h, "V2")], "m"), h.arr(st, [S(h, "V3")], "k")], "l") }, "s"), o(["F", a(a(v("V1"), v("V2")), a(v("V3")))])],
  "structs in list in struct": [(h, st) => h.obj(st, { F: h.arr(st, [h.obj(st, { G: S(h, "V1") }, "t"), h.obj(st, { G: S(h, "V2") }, "u")], "l") }, "s"), o(["F", a(o(["G", v("V1")]), o(["G", v("V2")]))])],
  "list of struct and string": [(h, st) => h.arr(st, [h.obj(st, { F: S(h, "V1") }, "s"), S(h, "V2")], "l"), a(o(["F", v("V1")]), v("V2"))],
  "string and number list in struct": [(h, st) => h.obj(st, { F: h.arr(st, [S(h, "V1"), V.num(7)], "l") }, "s"), o(["F", a(v("V1"), { v: "=7" })])],
};
const EDITS = {
  "collection addition": [(h, st) => h.obj(st, { tag: V.str("XMP-mwg-coll:Collections"), operation: V.str("add"), value: h.obj(st, { CollectionName: S(h, "V1"), CollectionURI: S(h, "V2") }, "c") }, "e"), o(["CollectionName", v("V1")], ["CollectionURI", v("V2")])],
  "collection removal": [(h, st) => h.obj(st, { tag: V.str("XMP-mwg-coll:Collections"), operation: V.str("remove"), predicate: h.obj(st, { CollectionName: S(h, "V1") }, "c") }, "e"), o(["CollectionName", v("V1")])],
  "collection removal by uri": [(h, st) => h.obj(st, { tag: V.str("XMP-mwg-coll:Collections"), operation: V.str("remove"), predicate: h.obj(st, { CollectionURI: S(h, "V1"), CollectionName: S(h, "V2") }, "c") }, "e"), o(["CollectionURI", v("V1")], ["CollectionName", v("V2")])],
};
const dec = E.htmlDecode;
function same(got, want, env, exact) {
  if (want.o) {
    if (!got.o) return "not a structure";
    if (got.o.length !== want.o.length) return got.o.length + " fields instead of " + want.o.length;
    for (let i = 0; i < want.o.length; i++) {
      const k = want.o[i][0], kw = k[0] === "@" ? env.get(k.slice(1)) : k;
      const j = exact ? i : got.o.findIndex(([g]) => dec(g) === kw || dec(g) === dec(kw) || g.trim() === kw.trim());
      if (j < 0) return "no field " + JSON.stringify(kw);
      const gk = got.o[j][0];
      if (dec(gk) !== kw && dec(gk) !== dec(kw) && gk.trim() !== kw.trim()) return "field name " + JSON.stringify(gk);
      const r = same(got.o[j][1], want.o[i][1], env, exact);
      if (r) return r;
    }
    return null;
  }
  if (want.a) {
    if (!got.a) return "not a list";
    if (got.a.length !== want.a.length) return got.a.length + " items instead of " + want.a.length;
    for (let i = 0; i < want.a.length; i++) { const r = same(got.a[i], want.a[i], env, exact); if (r) return r; }
    return null;
  }
  if (got.v === undefined) return "not text";
  const w = want.v[0] === "=" ? want.v.slice(1) : env.get(want.v);
  const f = dec(got.v);
  if (exact) return f === w ? null : "text " + JSON.stringify(f);
  const ls = (s) => s.replace(/^\s+/, "");
  return [w, dec(w), dec(dec(w))].some((x) => ls(x) === ls(f)) ? null : "text " + JSON.stringify(f);
}
const names = (w) => (w.o ? w.o.flatMap(([k, x]) => [...(k[0] === "@" ? [k.slice(1)] : []), ...names(x)]) : w.a ? w.a.flatMap(names) : w.v[0] === "=" ? [] : [w.v]);
function judge(rep, h, tasks, want, where, exact) {
  const ids = names(want), dd = new Set();
  for (const t of tasks) for (const w of h.wires(t)) {
    if (w.bad) continue;
    const k = w.lines.map((l) => h.showLine(l)).join("\n");
    if (dd.has(k)) continue; dd.add(k);
    const l = w.lines.find((l) => typeof l.p[0] === "string" && l.p[0].startsWith("-") && l.p.some((p) => p.sym === "KEY" || typeof p === "string" && p.includes("Collections")));
    if (!l) { rep.ob(false, where, "a command is sent without the structure"); continue; }
    const i = l.p.findIndex((p) => typeof p === "string" && p.includes("="));
    const vp0 = [l.p[i].slice(l.p[i].indexOf("=") + 1), ...l.p.slice(i + 1)].filter((x) => x !== "");
    for (const { parts: vp, st } of E.expand(h, vp0, w.st)) {
    const ws = E.words(E.reps(h, vp));
    const dflt = (id, j) => { const f = h.e.fact(id, st); return ["q" + j, " q" + j, "\tq" + j].find((x) => !f.lang || f.lang.accepts(x)) ?? "q" + j; };
    let n = 0, bad = null, unk = null;
    outer: for (const word of ws) for (let q = 0; q < ids.length; q++) {
      if (ids[q] === "NAME" && (/[=&]/.test(word) || !word.trim())) continue;
      if (/[\ufeff]/.test(word)) continue;
      const env = new Map(ids.map((id, j) => [id, q === j ? word : dflt(id, j)]));
      try {
        for (const id of ids) { const f = h.e.fact(id, st); if (f.lang && !f.lang.accepts(env.get(id))) throw new E.Infeasible(id); } if (!E.feasible(h, st, env)) throw new E.Infeasible("path");
        const sent = E.evalParts(h, vp, st, env);
        n++;
        let why;
        try { why = same(E.parseStruct(dec(sent)), want, env, exact); } catch (x) { if (!(x instanceof Error) || x instanceof E.Unknown) throw x; why = "does not parse: " + x.message; }
        if (why) { bad = `${ids[q]} = ${JSON.stringify(word)} is sent as ${JSON.stringify(sent)}: ${why}`; break outer; }
      } catch (x) {
        if (x instanceof E.Infeasible) continue;
        if (x instanceof E.Unknown) { unk = x.message; break outer; }
        throw x;
      }
    }
    rep.count("words_evaluated", n);
    if (bad) rep.ob(false, where, bad);
    else if (unk) rep.ob(null, where, "text built by an operation outside the transducer model: " + unk);
    else rep.ob(n > 0 || ids.length === 0 ? true : null, where, `${n} class words parse back to the given structure`);
    }
  }
}
module.exports = {
  level: "other", floor: 14,
  explain: "Abstract interpretation of write()/editTags() for structured values of every nesting up to depth three with unknown texts; the derived argument term (per-character substitutions and concatenations) is compared, through a decoder for ExifTool's entity and structure syntax, with the structure given, on one representative of each character class in each position.",
  rule: "decode(entities) then parse(structure) of the argument equals the caller's structure",
  run(rep) {
    for (const [n, [mk, want]] of Object.entries(SHAPES)) rep.scenario("write " + n, () => {
      const h = new H({ root: rep.repo });
      const r = h.api("write", (st) => [h.sym("FILE", T.S), tagsWith(st, h, mk(h, st)), U]);
      rep.addEngine(h.e);
      rep.ob(r.tasks.length > 0 ? true : null, "write " + n, "is accepted");
      judge(rep, h, r.tasks, want, "write " + n, false);
    });
    for (const [n, [mk, want]] of Object.entries(EDITS)) rep.scenario("editTags " + n, () => {
      const h = new H({ root: rep.repo });
      const r = h.api("editTags", (st) => [h.sym("FILE", T.S), h.arr(st, [mk(h, st)], "edits"), U]);
      rep.addEngine(h.e);
      rep.ob(r.tasks.length > 0 ? true : null, "editTags " + n, "is accepted");
      judge(rep, h, r.tasks, want, "editTags " + n, true);
    });
  },
};

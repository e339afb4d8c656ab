"use strict";
const { each, S, tagsWith, edit } = require("../lib/scenarios");
const { H, L, T, U, V, symv } = require("../lib/harness");
const VALID = L.reExact("[A-Za-z0-9_:*?+#^][A-Za-z0-9_:\\-*?+#^]*", "");
const ANY = 1023;
// every place where a caller supplies a tag name
const SLOTS = [
  ["write key", "write", (st, h) => { const t = h.obj(st, {}, "tags"); h.e.refine(st, h.sym("NAME", T.S).id, { ty: T.S, lang: require("../lib/scenarios").notGps }); h.e.setProp(t, h.sym("NAME", T.S), h.sym("VAL", T.S), st, null); return [h.sym("FILE", T.S), t, U]; }, T.S],
  ["write key among others", "write", (st, h) => { const t = h.obj(st, { Title: V.str("x") }, "tags"); h.e.refine(st, h.sym("NAME", T.S).id, { ty: T.S, lang: L.not(L.reTest("^(GPS|Title$)", "i")) }); h.e.setProp(t, h.sym("NAME", T.S), V.NULL, st, null); return [h.sym("FILE", T.S), t, U]; }, T.S],
  ["numeric tag of the call", "read", (st, h) => [h.sym("FILE", T.S), h.obj(st, { numericTags: h.arr(st, [h.sym("NAME", ANY)], "n") }, "o")]],
  ["second numeric tag of the call", "read", (st, h) => [h.sym("FILE", T.S), h.obj(st, { numericTags: h.arr(st, [V.str("Orientation"), h.sym("NAME", ANY)], "n") }, "o")]],
  ["numeric tag of the instance", "read", (st, h) => [h.sym("FILE", T.S), U], 0, (st, h) => h.obj(st, { numericTags: h.arr(st, [h.sym("NAME", ANY)], "n") }, "io")],
  ["numeric tag of the call, with read arguments", "read", (st, h) => [h.sym("FILE", T.S), h.obj(st, { numericTags: h.arr(st, [h.sym("NAME", ANY)], "n"), readArgs: h.arr(st, [V.str("-fast2")], "ra") }, "o")]],
  ["retained tag", "deleteAllTags", (st, h) => [h.sym("FILE", T.S), h.obj(st, { retain: h.arr(st, [h.sym("NAME", ANY)], "r") }, "o")]],
  ["second retained tag", "deleteAllTags", (st, h) => [h.sym("FILE", T.S), h.obj(st, { retain: h.arr(st, [V.str("Title"), h.sym("NAME", ANY)], "r") }, "o")]],
  ["extracted tag", "extractBinaryTag", (st, h) => [h.sym("NAME", ANY), h.sym("SRC", T.S), h.sym("DST", T.S), U]],
  ["extracted tag, forced", "extractBinaryTag", (st, h) => [h.sym("NAME", ANY), h.sym("SRC", T.S), h.sym("DST", T.S), h.obj(st, { forceWrite: V.TRUE }, "o")]],
  ["tag extracted to a buffer", "extractBinaryTagToBuffer", (st, h) => [h.sym("NAME", ANY), h.sym("SRC", T.S), U]],
  ["exact-edit tag", "editTags", (st, h) => [h.sym("FILE", T.S), h.arr(st, [h.obj(st, { tag: h.sym("NAME", ANY), operation: h.sym("OP", ANY), value: V.str("v") }, "e")], "es"), U]],
];
module.exports = {
  level: "other", floor: 20,
  explain: "Abstract interpretation of every operation that takes tag names, with an unknown name (any type) in each name slot; the set of names that can reach a submitted command is computed as a regular language.",
  rule: "in every submitted command the unknown name is a string, its language is included in the allowed names, and it is sent unaltered",
  run(rep) {
    for (const [slot, op, mk, , inst] of SLOTS) for (const platform of ["linux"]) rep.scenario(slot, () => {
      const h = new H({ root: rep.repo, platform });
      const r = h.api(op, mk, { instOpts: inst });
      rep.addEngine(h.e);
      const N = "NAME";
      let used = 0;
      rep.ob(r.tasks.length > 0 ? true : null, slot, "valid names are accepted");
      for (const t of r.tasks) {
        const dd = new Set();
        for (const w of h.wires(t)) {
          if (w.bad) continue;
          for (const l of w.lines) for (const p of l.p) {
            if (typeof p === "string" || p.sym === undefined) { if (typeof p !== "string" && [...h.e.roots(V.mkStr([p]))].includes(N)) { rep.ob(null, slot, "name inside a joined text"); } continue; }
            const roots = [...h.e.roots(symv(p.sym))];
            if (!roots.includes(N)) continue;
            used++;
            const st = l.st || w.st;
            const f = h.e.fact(N, st);
            const lang = p.sym === N ? h.e.langOf(symv(N), st) : h.partLang(p, st);
            const dk = p.sym + "|" + f.ty + "|" + lang.key;
            if (dd.has(dk)) continue;
            dd.add(dk);
            const bad = L.diff(lang, VALID);
            const soft = h.imprecise(p, st) || h.opaqueIn(p);
            if (f.ty & ~T.S) rep.ob(soft && p.sym !== N ? null : false, slot, "a name that is not a string can reach the command as " + h.showLine(l).slice(0, 100));
            else rep.ob(true, slot, "only strings reach the command");
            if (L.isEmpty(bad)) rep.ob(true, slot, "names in the command are well formed");
            else rep.ob(soft ? null : false, slot, "name " + JSON.stringify(L.witness(bad)) + " can reach the command as " + h.showLine(l).slice(0, 100));
            if (p.sym !== N && !soft) rep.ob(false, slot, "the name is altered before it is sent: " + h.showLine(l).slice(0, 100));
          }
        }
      }
      rep.ob(used > 0 ? true : null, slot, "name occurs in the command");
    });
  },
};

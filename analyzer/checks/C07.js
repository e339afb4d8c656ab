"use strict";
const { H, T, U, V, L, mkStr } = require("../lib/harness");
// Every read of a property of a caller-owned object yields a new unknown: a
// value that reaches the wire without having been validated itself is
// unconstrained and shows up as a violation.
module.exports = {
  level: "other", floor: 20,
  explain: "Abstract interpretation of editTags() in which every observation of a caller-owned property yields a fresh unknown (getters, proxies, concurrent mutation). The symbol that reaches the command must itself carry the validated language.",
  rule: "time-of-check equals time-of-use for tag, operation and text of each edit",
  run(rep) {
    const { goodText, editLine, strs } = require("./C06");
    const run = (name, mk, none) => rep.scenario(name, () => {
      const h = new H({ root: rep.repo,  });
      const r = h.api("editTags", (st) => [h.sym("FILE", T.S), mk(h, st), U]);
      rep.addEngine(h.e);
      rep.ob(r.tasks.length > 0 || none ? true : null, name, "some edits are accepted");
      for (const t of r.tasks) for (const w of h.wires(t)) h.refined(rep, w, (w, rep) => {
        if (w.bad) { rep.ob(null, name, w.bad); return; }
        const e = w.lines.map((l) => editLine(h, { lines: [l], st: w.st })).find((x) => x);
        if (!e || e.bad) { rep.ob(e ? false : null, name, "edit line not found"); return; }
        const impr = (id) => w.st.impr.has(id) || [...h.e.roots({ k: "y", id })].some((x) => w.st.impr.has(x));
        const all = L.lits(strs(h, w.st, "TagEditTagNames")), add = L.lits([...strs(h, w.st, "TagEditAddTagNames"), "XMP-mwg-coll:Collections"]);
        if (e.sym) {
          const ok = L.subset(e.lang, e.op === "+" ? add : all);
          rep.ob(ok ? true : impr(e.sym) ? null : false, name, ok ? "the tag sent is the observation that was validated" : "the tag sent (" + h.origin(e.sym) + ") is a later observation than the one validated");
        }
        // operation
        const want = e.op === "+" ? "add" : "remove";
        for (const id of opSyms(h)) {
          const f = w.st.facts.get(id);
          if (!f || (!f.lang && !f.eq)) continue;
          const d = h.e.langOf({ k: "y", id }, w.st);
          rep.ob(L.subset(d, L.lit(want)) ? true : impr(id) ? null : false, name, L.subset(d, L.lit(want)) ? "the operator sent is the operation validated" : "'" + e.op + "=' is sent although a validated observation of the operation allows " + JSON.stringify(L.witness(L.diff(d, L.lit(want)))));
        }
        const i = e.l.p.findIndex((p) => typeof p === "string" && /[+-]=/.test(p));
        const ids = new Set();
        const sym = (id) => {
          if (ids.has(id)) return; ids.add(id);
        };
        const walkP = (ps) => { for (const p of ps) { if (typeof p === "string") continue; if (p.sym !== undefined) walkS(p.sym); else if (p.join) p.join.forEach(walkSeg); } };
        const walkSeg = (s) => { if (s.k === "1") walkV(s.v); else if (s.k === "alt") { s.a.forEach(walkSeg); s.b.forEach(walkSeg); } else s.alts.forEach((a) => a.forEach(walkSeg)); };
        const walkV = (v) => { if (v.k === "y") walkS(v.id); else if (v.k === "s") walkP(v.p); else if (v.k === "i") { walkV(v.a); walkV(v.b); } };
        const walkS = (id) => { const s = h.e.syms.get(id); if (s.derive) s.derive.args.forEach(walkV); else sym(id); };
        walkP(e.l.p.slice(i));
        for (const id of ids) {
          const o = h.origin(id);
          if (!/EDIT|ITEM|descs|COLL/.test(id + o)) continue;
          const f = h.e.fact(id, w.st);
          const fieldName = /\{key\}|key of/.test(id + o);
          const d = fieldName ? L.lits(["CollectionName", "CollectionURI"]) : goodText(true);
          const have = h.e.langOf({ k: "y", id }, w.st);
          const ok = f.ty === T.S && L.subset(have, d);
          rep.ob(ok ? true : impr(id) || h.e.syms.get(id).widened ? null : false, name, ok ? "the text sent is the observation that was validated" : "the text sent (" + o + ") is a later observation than the one validated");
        }
      });
    });
    const P = () => V.str("");
    run("text edit whose properties change", (h, st) => h.arr(st, [h.vobj(st, { tag: P(), operation: P(), value: P() }, "EDIT")], "edits"));
    run("two text edits whose properties change", (h, st) => h.arr(st, [h.vobj(st, { tag: P(), operation: P(), value: P() }, "EDIT"), h.obj(st, { tag: V.str("IPTC:Keywords"), operation: V.str("add"), value: V.str("x") }, "f")], "edits"));
    run("edit with a predicate, properties change", (h, st) => h.arr(st, [h.vobj(st, { tag: P(), operation: P(), value: P(), predicate: P() }, "EDIT")], "edits"), true);
    run("collection addition whose fields change", (h, st) => h.arr(st, [h.vobj(st, { tag: P(), operation: P(), value: h.vobj(st, { CollectionName: P(), CollectionURI: P() }, "COLL") }, "EDIT")], "edits"));
    run("collection removal whose fields change", (h, st) => h.arr(st, [h.vobj(st, { tag: P(), operation: P(), predicate: h.vobj(st, { CollectionName: P() }, "COLL") }, "EDIT")], "edits"));
  },
};
function opSyms(h) { return [...h.e.syms.info.keys()].filter((id) => /\.operation(@\d+)?$/.test(id)); }

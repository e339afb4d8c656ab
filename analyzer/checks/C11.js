"use strict";
const { H, T, U, V, L, mkStr, litOf } = require("../lib/harness");
const { serve } = require("../lib/serve");
const EV = require("../lib/evalsym");
// what a status line names
const KINDS = {
  created: ["image files created", "file created", "image files CREATED", "directories created"],
  updated: ["image files updated", "image file updated", "files updated"],
  unchanged: ["image files unchanged", "files weren't updated", "image files weren't updated"],
};
const NUMS = ["1", "0", "7", "12", "345", "6789", "54321"];
module.exports = {
  level: "other", floor: 60,
  explain: "Abstract interpretation of write() and editTags() from ExifTool's answer to the caller's result. Status lines carry unknown counts (1 to 5 digits); the resulting counts are symbolic sums that are evaluated on representatives of every digit count. Lines naming none of the categories are an unknown text ranging over the complement of the category languages.",
  rule: "for any sequence of up to three status lines: created/updated/unchanged equal the sums of the counts of the lines naming them; an unknown line contributes nothing and appears in warnings",
  run(rep, { tier }) {
    const call = { write: (st, h) => [V.str("/p/a.jpg"), h.obj(st, { Title: V.str("x") }, "t")], editTags: (st, h) => [V.str("/p/a.jpg"), h.arr(st, [h.obj(st, { tag: V.str("XMP-dc:Subject"), operation: V.str("add"), value: V.str("x") }, "e")], "es")] , deleteAllTags: () => [V.str("/p/a.jpg")] };
    const one = (name, op, lines, eol = "\n") => rep.scenario(name, () => {
      const syms = [];
      const { h, outs } = serve(rep.repo, op, call[op], (h, st) => {
        const ps = [];
        lines.forEach(([kind, text], i) => {
          if (i) ps.push(eol);
          if (kind === "other") {
            const X = h.sym("LINE" + i, T.S);
            h.e.refine(st, X.id, { ty: T.S, lang: text });
            ps.push({ sym: X.id }); syms[i] = X.id;
          } else if (lines[i][2] !== undefined) {
            ps.push(lines[i][3] ?? "    ", lines[i][2] + " " + text);
          } else {
            const N = h.sym("N" + i, T.S);
            h.e.refine(st, N.id, { ty: T.S, lang: L.reExact("[0-9]{1,5}") });
            ps.push("    ", { sym: N.id }, " " + text); syms[i] = N.id;
          }
        });
        ps.push(eol);
        return [mkStr(ps), V.str("")];
      });
      rep.addEngine(h.e);
      rep.ob(outs.some((o) => o.kind === "ok") ? true : null, name, "the call resolves");
      for (const o of outs) {
        if (o.kind !== "ok") { rep.ob(o.kind === "err" ? false : null, name, "a write without errors rejects"); continue; }
        const get = (k) => { const r = h.e.getProp(o.v, k, o.st.clone(), null); return r.length === 1 && !r[0].thr ? h.e.resolve(r[0].v, r[0].st) : null; };
        const nums = lines.map((l, i) => (l[0] === "other" ? null : i)).filter((i) => i !== null);
        const fixed = nums.some((i) => lines[i][2] !== undefined);
        for (let r = 0; r < (fixed ? 1 : NUMS.length); r++) {
          const env = new Map(nums.map((i, k) => [fixed ? i : syms[i], fixed ? lines[i][2] : NUMS[(r + k) % NUMS.length]]));
          const countOf = (i) => Number(env.get(fixed ? i : syms[i]));
          for (const k of ["created", "updated", "unchanged"]) {
            const want = nums.filter((i) => lines[i][0] === k).reduce((a, i) => a + countOf(i), 0);
            const v = get(k);
            let gotv; try { gotv = v === null ? undefined : evalV(h, v, o.st, env); } catch (x) { if (process.env.VERIF_DEBUG) console.error(x.message); gotv = undefined; }
            rep.ob(gotv === undefined ? null : gotv === want, name, gotv === want ? k + " adds up" : "for counts " + [...env.values()].join(", ") + " the result has " + k + " = " + gotv + " instead of " + want);
          }
        }
        lines.forEach(([kind], i) => {
          if (kind !== "other") return;
          const w = get("warnings");
          if (!w || w.k !== "o") { rep.ob(w && w.k === "u" ? false : null, name, "a line that names no category is not reported as a warning"); return; }
          const roots = h.e.segRoots(o.st.get(w.id).segs || []);
          rep.ob(roots.has(syms[i]) ? true : false, name, roots.has(syms[i]) ? "the unknown line is reported" : "a line that names no category is missing from the warnings");
        });
      }
    });
    const K = Object.keys(KINDS);
    for (const op of Object.keys(call)) for (const k of K) for (const t of op === "write" ? KINDS[k] : KINDS[k].slice(0, 1)) one(op + ": " + t, op, [[k, t]]);
    for (const a of K) for (const b of K) one("write: " + a + ", " + b, "write", [[a, KINDS[a][0]], [b, KINDS[b][0]]]);
    for (const a of K) one("write: " + a + " (CRLF)", "write", [[a, KINDS[a][0]], [a, KINDS[a][0]]], "\r\n");
    if (tier === "thorough") for (const a of K) for (const b of K) for (const c of K) one("write: " + [a, b, c].join(), "write", [a, b, c].map((x) => [x, KINDS[x][0]]));
    else one("write: three", "write", K.map((x) => [x, KINDS[x][0]]));
    // spelled-out counts, alone and next to each other
    const MORE = [...NUMS, "99", "100", "999", "1000", "9999", "10000", "99999", "20", "10", "00012"];
    for (const k of K) for (const t of KINDS[k]) MORE.forEach((c, j) => one("write: " + c + " " + t, "write", [[k, t, c, ["    ", "", "  ", "\t"][j % 4]]]));
    for (const a of K) for (const b of K) for (const [c, d] of [["12345", "6"], ["1", "1000"], ["0", "10"], ["99999", "99999"]]) one("write: " + c + " " + a + ", " + d + " " + b, "write", [[a, KINDS[a][0], c], [b, KINDS[b][0], d]]);
    // lines that name no category
    const NONE = L.inter(L.inter(L.reExact("[^\\s\\u0085][^\\r\\n\\u0085\\u2028\\u2029\\v\\f]*"), L.not(L.reTest("created|updated|unchanged", "i"))), L.reExact("[^\\s]|[^\\s][^]*[^\\s]"));
    one("write: unknown line", "write", [["other", NONE]]);
    one("write: updated and an unknown line", "write", [["updated", KINDS.updated[0]], ["other", NONE]]);
    one("write: an unknown line and unchanged", "write", [["other", NONE], ["unchanged", KINDS.unchanged[0]]]);
    for (const t of ["Nothing to do.", "1 image files weren't updated due to errors", "image files updated", "1 files read"]) one("write: line " + t, "write", [["other", L.lit(t)]]);
  },
};
function evalV(h, v, st, env) { return EV.evalV(h, v, st, env); }

"use strict";
const { H, T, U, V, L, mkStr, litOf, key } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const S = V.str;
const line = L.inter(L.reExact("[^\\s\\u0085][^\\r\\n\\u0085\\u2028\\u2029\\v\\f]*"), L.reExact("[^\\s]|[^\\s][^]*[^\\s]"));
const KINDS = {
  warning: L.inter(line, L.reTest("\\bwarning: ", "i")),
  error: L.inter(L.inter(line, L.reTest("error", "i")), L.not(L.reTest("warning|nothing to (?:write|do)", "i"))),
  nothing: L.inter(L.inter(line, L.reTest("\\bnothing to (?:write|do)\\b", "i")), L.not(L.reTest("error", "i"))),
  "other warning": L.inter(L.inter(line, L.reTest("warning", "i")), L.not(L.reTest("error|\\bwarning: |nothing to (?:write|do)", "i"))),
  both: L.inter(L.inter(line, L.reTest("warning", "i")), L.reTest("error", "i")),
};
// texts that are told apart by their length modulo six (equal lines are reported once)
const mod = (r) => L.reExact("[^]{" + r + "}(?:[^]{6})*");
const CALLS = {
  read: () => [S("/p/a.jpg")],
  readRaw: () => [S("/p/a.jpg")],
  write: (st, h) => [S("/p/a.jpg"), h.obj(st, { Title: S("x") }, "t")],
  editTags: (st, h) => [S("/p/a.jpg"), h.arr(st, [h.obj(st, { tag: S("XMP-dc:Subject"), operation: S("add"), value: S("x") }, "e")], "es")],
  deleteAllTags: () => [S("/p/a.jpg")],
};
module.exports = {
  level: "other", floor: 150,
  explain: "Abstract interpretation from ExifTool's stderr (unknown diagnostic lines over regular languages, in every order of two) and metadata document to the caller's outcome: each unknown line is followed by identity into the errors or warnings of the result.",
  rule: "every error or warning line makes the call reject or is an element of result.errors / result.warnings; Error and Warning of the metadata document are in errors / warnings; errors contains only lines of stderr and the document's Error",
  run(rep, { tier }) {
    const elemsOf = (h, o, k) => {
      const r = h.e.getProp(o.v, k, o.st.clone(), null);
      if (r.length !== 1 || r[0].thr) return null;
      const v = h.e.resolve(r[0].v, r[0].st);
      if (v.k === "u") return { els: [], st: r[0].st, exact: true };
      if (v.k === "i" || v.k !== "o") return null;
      const ob = r[0].st.get(v.id);
      if (!ob || !ob.segs) return null;
      // els: [{v, sure}]
      const els = []; let exact = true;
      const go = (segs, sure) => { for (const s of segs) { if (s.k === "1") els.push({ v: s.v, sure }); else if (s.k === "alt") { const s1 = r[0].st.clone(), s2 = r[0].st.clone(); const a = h.e.decide(s1, s.c, true), b = h.e.decide(s2, s.c, false); if (a) go(s.a, sure && !b); if (b) go(s.b, sure && !a); } else { exact = false; s.alts.forEach((x) => go(x, false)); } } };
      go(ob.segs, true);
      return { els, st: r[0].st, exact };
    };
    const tag = (h, st, n) => { const x = h.sym(n, T.S); h.e.refine(st, x.id, { ty: T.S, lang: L.inter(L.reExact("[^(][^]*"), mod(n === "ERRTAG" ? 4 : 5)) }); return x; };
    const isSym = (h, v, st, id) => { v = h.e.resolve(v, st); return v.k === "y" && v.id === id; };
    const mentions = (h, v, st, id) => { v = h.e.resolve(v, st); if (v.k === "i") return mentions(h, v.a, st, id) || mentions(h, v.b, st, id); return [...h.e.roots(v)].includes(id); };
    const run = (name, op, lines, { meta = {}, opts, sep = "\n", out, instOpts } = {}) => rep.scenario(name, () => {
      const isRead = /^read/.test(op);
      const { h, outs } = serve(rep.repo, op, (st, h) => [...CALLS[op](st, h), ...(opts ? [h.obj(st, opts(st, h), "o")] : [])], (h, st) => {
        const ps = [];
        lines.forEach((k, i) => { if (i) ps.push(sep); if (!KINDS[k]) { ps.push(k); return; } const x = h.sym("LINE" + i, T.S); h.e.refine(st, x.id, { ty: T.S, lang: lines.filter((x) => !KINDS[x]).reduce((l, x) => L.inter(l, L.not(L.lit(x))), L.inter(KINDS[k], mod(i))) }); ps.push({ sym: x.id }); });
        ps.push(sep);
        return [isRead ? h.sym("OUT", T.S) : S(out ?? "    1 image files updated\n"), lines.length ? mkStr(ps) : S("")];
      }, { instOpts, json: isRead ? (h, st) => [{ SourceFile: "/p/a.jpg", ...Object.fromEntries(Object.entries(meta).map(([k, n]) => [k, leaf(tag(h, st, n))])), ISO: 100 }] : undefined, setup: null });
      rep.addEngine(h.e);
      if (!outs.length) rep.ob(null, name, "no outcome");
      for (const o of outs) {
        if (o.kind === "err") { rep.ob(true, name, "rejects"); continue; }
        if (o.kind !== "ok") { rep.ob(null, name, "does not settle"); continue; }
        const E = elemsOf(h, o, "errors"), W = elemsOf(h, o, "warnings");
        const look = (id, lists, what) => {
          if (lists.some((l) => !l)) { rep.ob(null, name, what + ": lists not known"); return; }
          const sure = lists.some((l) => l.els.some((x) => x.sure && isSym(h, x.v, l.st, id)));
          if (sure) { rep.ob(true, name, what + " is reported"); return; }
          const may = lists.some((l) => !l.exact && false || l.els.some((x) => mentions(h, x.v, l.st, id)) || !l.exact);
          rep.ob(may ? null : false, name, may ? what + " may be missing" : what + " neither makes " + op + "() reject nor appears in the result");
        };
        lines.forEach((k, i) => { if (KINDS[k]) look("LINE" + i, [E, W], "a stderr line (" + k + ")"); });
        // the document's own Error/Warning: present unless blank
        for (const [k, n] of Object.entries(meta)) {
          const l = h.e.langOf({ k: "y", id: n }, o.st);
          const nonblank = L.inter(l, L.reTest("\\S", ""));
          if (L.isEmpty(nonblank)) { rep.ob(true, name, "blank"); continue; }
          const nullish = L.inter(nonblank, L.not(L.reExact("\\s*(?:undef|null|undefined)\\s*")));
          if (L.isEmpty(nullish)) { rep.ob(true, name, "null-like"); continue; }
          const list = k === "Error" ? E : W;
          if (!list) { rep.ob(null, name, "lists not known"); continue; }
          const hit = list.els.some((x) => mentions(h, x.v, list.st, n) || h.e.resolve(x.v, list.st).k === "o");
          rep.ob(hit ? true : list.exact ? false : null, name, hit ? "the document's " + k + " is reported" : "the " + k + " recorded in the metadata document does not appear in the result");
        }
        if (E) for (const x of E.els) {
          const rs = h.e.resolve(x.v, E.st);
          const lit = litOf(rs);
          const okRoot = rs.k === "i" || rs.k === "o" || [...h.e.roots(rs)].some((r) => /^LINE|^ERR/.test(r)) || (lit !== null && lines.some((k) => k.includes(lit)));
          rep.ob(okRoot ? true : lit !== null || rs.k === "y" ? false : null, name, okRoot ? "errors hold reported errors" : "errors contains " + h.e.show(rs, E.st) + ", which ExifTool did not report as an error");
        }
      }
    });
    const ks = Object.keys(KINDS);
    for (const op of Object.keys(CALLS)) {
      run(op + ": no diagnostics", op, []);
      for (const k of ks) run(op + ": " + k, op, [k]);
      for (const a of ks) for (const b of ks) if (op === "read" || op === "write" || tier === "thorough" || (a === "warning" || b === "warning")) run(op + ": " + a + ", " + b, op, [a, b]);
      for (const t of [["error", "error", "warning"], ["warning", "error", "error"], ["warning", "warning", "warning"], ["error", "warning", "error"], ["error", "error", "error", "warning"]]) run(op + ": " + t.join(", "), op, t);
      run(op + ": CRLF", op, ["warning", "error"], { sep: "\r\n" });
      for (const t of ["Warning: [minor] Fixed incorrect URI - /p/a.jpg", "Error: File not found - /p/a.jpg", "Warning: Sorry, x is not writable"]) run(op + ": " + t, op, [t, "warning"]);
      run(op + ": ignoreMinorErrors", op, ["warning", "error"], { instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), ignoreMinorErrors: V.FALSE }, "inst") });
    }
    for (const op of ["read", "readRaw"]) {
      for (const meta of [{ Error: "ERRTAG" }, { Warning: "WARNTAG" }, { Error: "ERRTAG", Warning: "WARNTAG" }]) {
        for (const ls of [[], ["warning"], ["error"], ["error", "warning"]]) run(op + ": metadata " + Object.keys(meta).join("+") + " with " + (ls.join(", ") || "no stderr"), op, ls, { meta });
      }
    }
    // a call that rejects because of an error says which
    const D = S("/q/b.jpg");
    const REJ = { ...CALLS, extractThumbnail: () => [S("/p/a.jpg"), D], extractPreview: () => [S("/p/a.jpg"), D], extractJpgFromRaw: () => [S("/p/a.jpg"), D], extractBinaryTag: () => [S("ICC_Profile"), S("/p/a.jpg"), D], extractBinaryTagToBuffer: () => [S("ThumbnailImage"), S("/p/a.jpg")], rewriteAllTags: () => [S("/p/a.jpg"), D] };
    const ERRS = ["File not found - /p/a.jpg", "File is empty - /p/a.jpg", "Error opening file - /p/a.jpg", "File format error - /p/a.jpg", "Unexpected end of file - /p/a.jpg"];
    for (const op of Object.keys(REJ)) for (const out of ["", "    0 image files updated\n    1 files weren't updated due to errors\n", "    0 output files created\n"]) ERRS.forEach((t, i) => {
      if (tier !== "thorough" && i > 1 && out) return;
      for (const [ls, ln] of [[["Error: " + t], ""], [["Warning: [minor] odd", "Error: " + t], " after a warning"], [["Error: " + t, "Warning: odd"], " before a warning"]]) rep.scenario(op + out + t + ln, () => {
        const name = op + " answered " + JSON.stringify(ls.join("\n")) + " and " + JSON.stringify(out.trim());
        const { h, outs } = serve(rep.repo, op, (st, h) => REJ[op](st, h), () => [S(out), S(ls.join("\n") + "\n")]);
        rep.addEngine(h.e);
        for (const o of outs) {
          if (o.kind !== "err") { rep.ob(o.kind === "ok" || null, name, "settles"); continue; }
          const m = h.e.getProp(o.v, "message", o.st.clone(), null)[0], l = m && !m.thr ? litOf(h.e.resolve(m.v, m.st)) : null;
          rep.ob(l === null ? null : l.includes(t) ? true : o.st.impr.size ? null : false, name, "rejects with " + JSON.stringify(l));
        }
      });
    });
  },
};

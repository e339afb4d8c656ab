"use strict";
const { H, T, U, V, L, mkStr, litOf } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const fs = require("fs"), path = require("path");
const S = V.str;
let wordsCache;
function words(repo) {
  if (wordsCache) return wordsCache;
  const ts = require("../lib/ts"), s = new Set();
  for (const f of ["ExifToolTask.ts", "WriteTask.ts", "RewriteAllTagsTask.ts", "BinaryExtractionTask.ts", "IsWarning.ts", "ExifTool.ts", "String.ts", "ErrorsAndWarnings.ts"]) {
    let t; try { t = fs.readFileSync(path.join(repo, "src", f), "utf8"); } catch { continue; }
    const add = (x) => { for (const w of x.replace(/\\[a-zA-Z]/g, " ").match(/[A-Za-z]{4,}/g) || []) s.add(w.toLowerCase()); };
    const go = (n) => {
      if (ts.isRegularExpressionLiteral(n)) add(n.text);
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(includes|startsWith|endsWith|indexOf|match|search|test)$/.test(n.expression.name.text)) n.arguments.forEach((x) => ts.isStringLiteralLike(x) && add(x.text));
      if (ts.isNewExpression(n) && n.expression.getText() === "RegExp") n.arguments.forEach((x) => ts.isStringLiteralLike(x) && add(x.text));
      ts.forEachChild(n, go);
    };
    const sf = ts.createSourceFile(f, t, ts.ScriptTarget.Latest, true);
    go(sf);
  }
  return (wordsCache = [...s].slice(0, 40));
}
const CALLS = {
  write: (st, h) => [S("/p/a.jpg"), h.obj(st, { Title: S("x") }, "t")],
  editTags: (st, h) => [S("/p/a.jpg"), h.arr(st, [h.obj(st, { tag: S("XMP-dc:Subject"), operation: S("add"), value: S("x") }, "e")], "es")],
  deleteAllTags: () => [S("/p/a.jpg")],
  extractThumbnail: () => [S("/p/a.jpg"), S("/p/b.jpg")],
  extractPreview: () => [S("/p/a.jpg"), S("/p/b.jpg")],
  extractJpgFromRaw: () => [S("/p/a.jpg"), S("/p/b.jpg")],
  extractBinaryTag: () => [S("ThumbnailImage"), S("/p/a.jpg"), S("/p/b.jpg")],
  rewriteAllTags: () => [S("/p/a.jpg"), S("/p/b.jpg")],
  version: () => [],
  extractBinaryTagToBuffer: () => [S("ThumbnailImage"), S("/p/a.jpg")],
};
const GOOD = { write: "    1 image files updated\n", editTags: "    1 image files updated\n", deleteAllTags: "    1 image files updated\n", extractThumbnail: "    1 output files created\n", extractPreview: "    1 output files created\n", extractJpgFromRaw: "    1 output files created\n", extractBinaryTag: "    1 output files created\n", rewriteAllTags: "    1 image files created\n" };
const line = L.inter(L.reExact("[^\\s\\u0085][^\\r\\n\\u0085\\u2028\\u2029\\v\\f]*"), L.reExact("[^\\s]|[^\\s][^]*[^\\s]"));
const ERRLINE = L.inter(L.inter(line, L.reTest("error", "i")), L.not(L.reTest("warning|nothing to (?:write|do)", "i")));
const has = (re) => L.reTest(re, "i");
module.exports = {
  level: "other", floor: 60,
  explain: "Abstract interpretation from ExifTool's answer (stdout, stderr as unknown texts over regular languages) through the submitted task's own parser to the outcome of the caller's promise. A resolving path whose answer carries an error line or lacks the confirmation is a violation; it is confirmed by propagating a member of the path's language as a constant.",
  rule: "stderr contains an error line => write, edit, delete-all, extract-to-file and rewrite reject; stdout without '1 output file(s) created' => extract-to-file rejects; without '1 image files creat' => rewrite rejects; stdout not a version => version rejects; no base64 value under the requested tag => buffer extraction rejects",
  run(rep, { tier }) {
    const instOpts = [["", undefined], ["ignoreMinorErrors", (st, h) => h.obj(st, { taskRetries: V.num(0), ignoreMinorErrors: V.TRUE }, "inst")]];
    const mk = (h, st, name, x) => {
      if (x === undefined) return U;
      if (typeof x === "string") return S(x);
      if (Array.isArray(x)) return mkStr(x.map((p, i) => { if (typeof p === "string") return p; const s = h.sym(name + i, T.S); h.e.refine(st, s.id, { ty: T.S, lang: p }); return { sym: s.id }; }));
      const s = h.sym(name, T.S); h.e.refine(st, s.id, { ty: T.S, lang: x }); return s;
    };
    const go = (op, out, err, io) => { let so, se; const r = serve(rep.repo, op, CALLS[op], (h, st) => [so = mk(h, st, "OUT", out), se = mk(h, st, "ERR", err)], { instOpts: io, retries: 0 }); return { ...r, so, se }; };
    const confirmed = (op, r, o, io) => {
      // members of the path's language; texts that mention a word of the program's own
      // patterns come first when the shortest member does not take the path
      const wit = (v, w) => { if (v.k === "u") return undefined; let l = r.h.e.langOf(v, o.st); if (w) l = L.inter(l, L.reTest("\\b" + w + "\\b", "i")); return L.witness(l); };
      for (const w of [null, ...words(rep.repo)]) {
        const a = wit(r.so), b = wit(r.se, w);
        if (a === null || b === null || (w && b === undefined)) continue;
        const c = go(op, a, b, io);
        if (c.outs.length && c.outs.every((x) => x.kind === "ok")) return [a, b];
      }
      return null;
    };
    const must = (name, op, out, err, why, io) => rep.scenario(name, () => {
      const r = go(op, out, err, io);
      rep.addEngine(r.h.e);
      if (!r.outs.length) rep.ob(null, name, "no outcome");
      for (const o of r.outs) {
        if (o.kind === "err") { rep.ob(true, name, "rejects"); continue; }
        if (o.kind !== "ok") { rep.ob(null, name, "does not settle"); continue; }
        const c = confirmed(op, r, o, io);
        rep.ob(c ? false : null, name, c ? op + "() resolves although " + why + ", for example with stdout " + JSON.stringify(c[0]) + " and stderr " + JSON.stringify(c[1]) : "unconfirmed resolution although " + why);
      }
    });
    // 1. an error line, alone, among other lines, with any stdout
    for (const op of Object.keys(GOOD)) {
      const outs = [["any stdout", L.ALL], ["its usual stdout", GOOD[op]]];
      const errs = [["an error line", ERRLINE], ["an error line and a line feed", [ERRLINE, "\n"]], ["a warning, then an error line", ["Warning: minor\n", ERRLINE, "\n"]], ["an error line, then a warning", [ERRLINE, "\nWarning: minor\n"]], ["a plain line, then an error line", ["note\r\n", ERRLINE]], ["two error lines", [ERRLINE, "\n", ERRLINE]]];
      for (const [on, out] of outs) for (const [en, err] of errs) for (const [ion, io] of instOpts) {
        if (ion && en !== "an error line") continue;
        must(op + ": " + en + ", " + on + (ion ? ", " + ion : ""), op, out, err, "the error stream carries an error", io);
      }
      for (const e of ["Error: File not found - /p/a.jpg", "Error: Not a valid JPG", "error reading file", "Fatal Error: x"]) must(op + ": " + e, op, GOOD[op], e, "the error stream carries an error");
    }
    // 2. missing confirmation
    for (const op of ["extractThumbnail", "extractPreview", "extractJpgFromRaw", "extractBinaryTag"]) {
      const NO = L.not(has("(?:^|[^0-9])1 output files? created"));
      for (const [en, err] of [["no stderr", ""], ["undefined stderr", undefined], ["a warning", "Warning: x"], ["an unclassified line", "note"]]) must(op + ": no confirmation, " + en, op, NO, err, "exactly one output file was not confirmed");
      for (const t of ["", "    0 output files created\n", "    2 output files created\n", "   11 output files created\n", "   10 output files created\n", "    1 files weren't updated\n", "    1 image files read\n"]) must(op + ": " + JSON.stringify(t), op, t, "", "exactly one output file was not confirmed");
    }
    {
      const NO = L.not(has("(?:^|[^0-9])1 image files creat"));
      for (const [en, err] of [["no stderr", ""], ["undefined stderr", undefined], ["a warning", "Warning: x"], ["an unclassified line", "note"]]) must("rewriteAllTags: no confirmation, " + en, "rewriteAllTags", NO, err, "the new file was not confirmed");
      for (const t of ["", "    0 image files created\n", "   11 image files created\n", "    1 image files updated\n", "    1 files weren't updated\n"]) must("rewriteAllTags: " + JSON.stringify(t), "rewriteAllTags", t, "", "the new file was not confirmed");
    }
    // 4. extract-to-buffer: only the bytes decoded from the requested tag
    const buf = (name, doc, want) => rep.scenario("buffer: " + name, () => {
      const r = serve(rep.repo, "extractBinaryTagToBuffer", CALLS.extractBinaryTagToBuffer, null, { json: (h, st) => doc(h, st) });
      rep.addEngine(r.h.e);
      if (!r.outs.length) rep.ob(null, name, "no outcome");
      for (const o of r.outs) {
        if (o.kind === "err") { rep.ob(want ? null : true, name, want ? "rejects" : "rejects as it must"); continue; }
        if (o.kind !== "ok") { rep.ob(null, name, "does not settle"); continue; }
        const i = o.v && o.v.k === "y" ? r.h.e.syms.get(o.v.id) : null;
        const from = i && i.bufFrom ? r.h.e.resolve(i.bufFrom, o.st) : null;
        if (!want) { rep.ob([...o.st.impr].length ? null : false, name, "extractBinaryTagToBuffer() resolves although " + name); continue; }
        if (!from) { rep.ob(null, name, "not a buffer the analysis can trace"); continue; }
        const good = from.k === "y" && from.id === "B" && litOf(r.h.e.resolve(i.enc, o.st)) === "base64";
        rep.ob(good ? true : from.k === "y" && from.id === "B" || from.k === "s" ? false : null, name, good ? "the bytes of the requested tag" : "the buffer is not the decoded content of the requested tag");
      }
    });
    const b64 = (h, n = "B") => leaf(mkStr(["base64:", { sym: h.sym(n, T.S).id }]));
    const plain = (h, st, n) => { const s = h.sym(n, T.S); h.e.refine(st, s.id, { ty: T.S, lang: L.not(L.reTest("^base64:", "")) }); return leaf(s); };
    buf("the requested tag", (h) => [{ SourceFile: "/p/a.jpg", ThumbnailImage: b64(h) }], true);
    buf("the requested tag in another case", (h) => [{ SourceFile: "/p/a.jpg", thumbnailimage: b64(h) }], true);
    buf("the requested tag among others", (h) => [{ SourceFile: "/p/a.jpg", PreviewImage: b64(h, "C"), ThumbnailImage: b64(h), JpgFromRaw: b64(h, "D") }], true);
    buf("the requested tag last", (h) => [{ SourceFile: "/p/a.jpg", ThumbnailImageX: b64(h, "C"), PreviewImage: b64(h, "D"), ThumbnailImage: b64(h) }], true);
    buf("only another tag holds data", (h) => [{ SourceFile: "/p/a.jpg", PreviewImage: b64(h, "C") }], false);
    buf("only a tag with a longer name holds data", (h) => [{ SourceFile: "/p/a.jpg", ThumbnailImage2: b64(h, "C") }], false);
    buf("only a tag with a shorter name holds data", (h) => [{ SourceFile: "/p/a.jpg", Thumbnail: b64(h, "C") }], false);
    buf("the tag is not base64 data", (h, st) => [{ SourceFile: "/p/a.jpg", ThumbnailImage: plain(h, st, "P") }], false);
    buf("the tag is missing", () => [{ SourceFile: "/p/a.jpg" }], false);
    buf("the document is empty", () => [], false);
    buf("the tag is null", () => [{ SourceFile: "/p/a.jpg", ThumbnailImage: null }], false);
    buf("the tag is a number", () => [{ SourceFile: "/p/a.jpg", ThumbnailImage: 3 }], false);
    must("buffer: not JSON", "extractBinaryTagToBuffer", "Error: File not found - x\n", "", "the output is not JSON");
    must("buffer: no output", "extractBinaryTagToBuffer", "", "Error: x", "there is no output");
    // 3. version
    must("version: not a version", "version", L.not(L.reExact("\\s*[0-9]{1,3}\\.[0-9]{1,3}(?:\\.[0-9]{1,3})?\\s*")), "", "the output is not a version");
    for (const t of ["", "abc", "12", "12.", "12.3 x", "12.34\n12.35", "v12.3", "12.3-beta"]) must("version: " + JSON.stringify(t), "version", t, "", "the output is not a version");
    rep.scenario("version value", () => {
      const r = go("version", L.ALL, "");
      for (const o of r.outs) if (o.kind === "ok") { const l = r.h.e.langOf(o.v, o.st), bad = L.inter(l, L.not(L.reExact("[0-9]{1,3}\\.[0-9]{1,3}(?:\\.[0-9]{1,3})?"))); rep.ob(L.isEmpty(bad) ? true : null, "version", "the result is well-formed"); }
    });
  },
};

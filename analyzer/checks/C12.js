"use strict";
const { H, T, U, V, L, mkStr, litOf } = require("../lib/harness");
const { serve, leaf, BAD } = require("../lib/serve");
const S = V.str;
const FILE = "/photos/sub dir/a.jpg";
const NORM = L.reExact("(?:/(?:[^/.][^/]*|\\.[^/.][^/]*|\\.\\.[^/]+))+");
const OTHERS = ["/photos/sub dir/b.jpg", "/photos/a.jpg", "/photos/sub dir/A.jpg", "/photos/sub dir/a.JPG", "/PHOTOS/sub dir/a.jpg", "/photos/sub dir/a.jpg.bak", "/photos/sub dir/a.jp", "/photos/sub dir/x/a.jpg", "/photos/sub dir/../a.jpg", "/other/photos/sub dir/a.jpg", "/photos/sub  dir/a.jpg", "a.jpg", "photos/sub dir/a.jpg", "/photos/sub dir/a", "/photos/sub dir/aa.jpg", "/photos/sub dir", "/", "/photos/sub dir/a.jpg ", "/photos/sub dir/ a.jpg", "/photos/sub dir/a.jpg\u00a0", "/photos/sub dir/a_.jpg", "/photos/subdir/a.jpg", "/photos/sub dir/a.jpg;1", "/photos/sub dir/a\\.jpg", "/photos/sub%20dir/a.jpg", "/photos/sub dir/a.jpg~"];
const SAME = [FILE, "/photos/./sub dir/a.jpg", "/photos//sub dir/a.jpg", "/photos/x/../sub dir/a.jpg"];
module.exports = {
  level: "other", floor: 120,
  explain: "Abstract interpretation of read()/readRaw() from ExifTool's document to the outcome of the caller's promise. The document is an abstract value (unknown leaves), including one whose SourceFile is any normalised absolute path other than the requested one; the parse failure is a separate branch.",
  rule: "read: SourceFile in the document is another file => rejects, is the requested file => resolves with tags of that document; output not a JSON list holding an object => read and readRaw reject, and the rejection is ExifTool's error whenever stderr carried an error line",
  run(rep, { tier }) {
    const optsets = [["", null], ["readArgs -G", (st, h) => ({ readArgs: h.arr(st, [S("-G")], "ra") })], ["own filter", (st, h) => ({ readArgs: h.arr(st, [S("-api"), S("filter=1")], "ra") })], ["numericTags", (st, h) => ({ numericTags: h.arr(st, [S("Orientation")], "nt") })]];
    const args = (file, o) => (st, h) => [S(file), ...(o ? [h.obj(st, o(st, h), "opts")] : [])];
    const imprecise = (o) => [...o.st.impr].length > 0;
    const run = (name, file, o, doc, expect, { op = "read", platform, answer, why } = {}) => rep.scenario(name, () => {
      const { h, outs } = serve(rep.repo, op, args(file, o), answer, { json: doc, engine: platform ? { platform } : undefined });
      rep.addEngine(h.e);
      if (!outs.length) rep.ob(null, name, "no outcome");
      for (const x of outs) {
        const v = expect(h, x);
        rep.ob(v, name, v ? "as required" : v === false ? why || op + "() for " + file + (x.kind === "ok" ? " resolves" : " rejects") : "undecided outcome");
      }
    });
    const rejects = (h, x) => (x.kind === "err" ? true : x.kind === "ok" ? (imprecise(x) ? null : false) : null);
    const doc = (sf) => (h) => [{ SourceFile: sf, ExifToolVersion: 13.1, Title: leaf(h.sym("TITLE", T.S)), ISO: leaf(h.sym("ISO", T.D)) }];
    for (const [on, o] of optsets) {
      for (const f of on ? OTHERS.slice(0, 6) : OTHERS) run("output names " + f + (on ? ", " + on : ""), FILE, o, doc(f), rejects, { why: "read(" + JSON.stringify(FILE) + ") resolves with the metadata of " + JSON.stringify(f) });
      // any other normalised path
      run("output names any other file" + (on ? ", " + on : ""), FILE, o, (h, st) => { const x = h.sym("SF", T.S); h.e.refine(st, x.id, { ty: T.S, lang: L.inter(NORM, L.not(L.lit(FILE))) }); return [{ SourceFile: leaf(x), Title: "x" }]; }, (h, x) => (x.kind === "err" ? true : null));
      for (const f of on ? SAME.slice(0, 1) : SAME) run("output names the requested file as " + f + (on ? ", " + on : ""), FILE, o, doc(f), (h, x) => {
        if (x.kind !== "ok") return x.kind === "err" && !imprecise(x) ? false : null;
        // the tags of the document, under their own names
        const v = h.e.resolve(x.v, x.st);
        const t = h.e.getProp(v, "Title", x.st.clone(), null), sf = h.e.getProp(v, "SourceFile", x.st.clone(), null);
        if (t.length !== 1 || sf.length !== 1 || t[0].thr || sf[0].thr) return null;
        return true;
      }, { why: "read(" + JSON.stringify(FILE) + ") rejects its own output" });
    }
    run("composed and decomposed names", "/p/\u00e9.jpg", null, (h) => [{ SourceFile: "/p/e\u0301.jpg" }], rejects, { why: "a read of /p/\u00e9.jpg resolves with the metadata of another file" });
    // case-insensitive platforms
    for (const platform of ["darwin"]) {
      run(platform + ": accents", "/p/e.jpg", null, (h) => [{ SourceFile: "/p/\u00e9.jpg" }], rejects, { platform, why: "a read of /p/e.jpg resolves with the metadata of /p/\u00e9.jpg" });
      run(platform + ": other file", "/p/e.jpg", null, (h) => [{ SourceFile: "/p/f.jpg" }], rejects, { platform, why: "a read of /p/e.jpg resolves with the metadata of /p/f.jpg" });
      run(platform + ": other directory", "/p/e.jpg", null, (h) => [{ SourceFile: "/q/e.jpg" }], rejects, { platform, why: "a read of /p/e.jpg resolves with the metadata of /q/e.jpg" });
      run(platform + ": letter case", "/p/E.jpg", null, (h) => [{ SourceFile: "/p/e.jpg" }], (h, x) => (x.kind === "ok" ? true : x.kind === "err" && !imprecise(x) ? false : null), { platform });
    }
    // unparseable or empty output
    for (const op of ["read", "readRaw"]) {
      const errs = [["no stderr", (h, st) => S(""), false], ["undefined stderr", () => U, false], ["a warning", () => S("Warning: [minor] x"), false], ["an error", (h, st) => { const x = h.sym("ERR", T.S); h.e.refine(st, x.id, { ty: T.S, lang: L.inter(L.reExact("Error: [^\\s\\u0085](?:[^\\r\\n\\u0085\\u2028\\u2029\\v\\f]*[^\\s])?"), L.not(L.reTest("warning|nothing to (?:write|do)", "i"))) }); return x; }, true]];
      const sets = op === "read" ? optsets : optsets.slice(0, 3).filter((x) => x[0] !== "readArgs -G");
      for (const [on, o] of sets) for (const [en, err, isErr] of errs) {
        for (const [dn, d] of [["not JSON", BAD], ["an empty list", []], ["null", [null]]]) {
          run(op + ": " + dn + ", " + en + (on ? ", " + on : ""), FILE, o, () => d, (h, x) => {
            if (x.kind !== "err") return rejects(h, x);
            if (!isErr || d !== BAD) return true;
            const v = h.e.resolve(x.v, x.st);
            const m = h.e.getProp(v, "message", x.st.clone(), null);
            if (m.length !== 1 || m[0].thr) return null;
            const rs = [...h.e.roots(m[0].v)];
            return rs.includes("ERR") ? true : imprecise(x) ? null : false;
          }, { op, answer: (h, st) => [h.sym("OUT", T.S), err(h, st)], why: isErr && d === BAD ? op + "() with unreadable output does not reject with the error ExifTool reported" : op + "() resolves although the output is " + dn });
        }
      }
    }
  },
};

"use strict";
const { each } = require("../lib/scenarios");
const { H, L, T, U, V, symv } = require("../lib/harness");
// options that take the following argument
const TAKES = /^-(?:api|charset|sep|separator|use|userparam|d|dateformat|lang|c|coordformat|x|exclude|if\d*|p|printformat|fast\d*x|echo\d*|tagout)$/i;
// an argument that makes ExifTool write: assignments and copies, output files, in-place flags
const ASSIGN = L.reExact("-[^=<]*(?:=|<)[^]*", "");
const OUTPUT = L.reExact("-(?:o|out|w|W|textout|tagout|tagsfromfile|overwrite_original|overwrite_original_in_place|delete_original|restore_original|geotag|geosync|csv|j|json|execute|@|argfile|stay_open|config|srcfile|efile|k|pause|p|z|zip)[!+0-9]*(?:=[^]*)?", "i");
const INPLACE = L.reExact("-(?:overwrite_original|overwrite_original_in_place|delete_original|delete_original!)", "i");
const HARMLESS = L.union(L.lits(["-json", "-j", "-execute"]), L.EMPTY);
module.exports = {
  level: "other", floor: 60,
  explain: "Abstract interpretation of every operation with unknown arguments; each argument line of each submitted command that is not wholly the caller's own extra argument is compared, as a regular language, with the languages of writing and output arguments.",
  rule: "read, readRaw, version, extractBinaryTagToBuffer: no library-made line is an assignment, copy, output-file or in-place argument; extraction: -W! only when forceWrite is true; write, edit, rewrite, extract: no library-made -overwrite_original or -delete_original",
  run(rep) {
    const own = (h, l) => l.p.length === 1 && l.p[0].sym !== undefined && (/^(RARG|WARG)/.test(l.p[0].sym) || /OPTS\.(read|write)Args/.test(l.p[0].sym));
    // a tag name the caller chose: only what the library adds to it can make it a writing argument
    const ownTag = (l) => l.p.length >= 2 && l.p[0] === "-" && l.p[1].sym !== undefined && /^(TAG|NUM)/.test(l.p[1].sym);
    const soft = (h, w, l) => l.p.some((p) => typeof p !== "string" && (h.opaqueIn(p) || h.imprecise(p, l.st || w.st)));
    each(rep, {}, (s) => !(s.value && !["string", "undefined", "any object"].includes(s.value)), (h, r, sc, platform) => {
      const readonly = sc.kind === "read" || sc.kind === "version" || sc.kind === "buffer";
      const dd = new Set();
      let n = 0;
      for (const t of r.tasks) for (const w of h.wires(t)) {
        if (w.bad) continue;
        n++;
        let skip = false;
        w.lines.forEach((l, i) => {
          const lit = h.lit(l);
          const was = skip;
          skip = lit !== null && TAKES.test(lit);
          const k = h.showLine(l) + (was ? "+" : "");
          if (was || own(h, l)) return;
          const lang = h.lineLang(l, w.st);
          const test = (D, what) => {
            const x = L.inter(lang, D);
            const bad = !L.isEmpty(x);
            if (dd.has(k + what + bad)) return;
            dd.add(k + what + bad);
            rep.ob(!bad ? true : soft(h, w, l) ? null : false, sc.op, (bad ? "" : "not ") + what + ": " + (bad && lit === null ? k + ", for example " + JSON.stringify(L.witness(x)) : k));
          };
          if (readonly) {
            const isPath = L.subset(lang, platform === "win32" ? L.reExact("(?:[A-Za-z]:)?[\\\\/][^]*", "") : L.reExact("/[^]*", ""));
            if (!isPath) test(ASSIGN, "a read request assigns or copies a tag");
            if (!ownTag(l) && (lit === null || !HARMLESS.accepts(lit))) test(OUTPUT, "a read request names an output file or a writing option");
          } else if (!ownTag(l)) test(INPLACE, "the original is replaced in place without being asked");
        });
      }
      if (sc.kind !== "edit") rep.ob(n > 0 ? true : null, sc.op, "operation sends a command");
    });
    // forceWrite decides whether an existing output file is replaced
    for (const op of ["extractThumbnail", "extractPreview", "extractJpgFromRaw", "extractBinaryTag"]) {
      const cases = [["unset", null, null, false], ["call false", V.FALSE, null, false], ["call true", V.TRUE, null, true], ["call undefined", U, null, false], ["instance true", null, V.TRUE, true], ["instance false", null, V.FALSE, false], ["call false, instance true", V.FALSE, V.TRUE, false], ["call true, instance false", V.TRUE, V.FALSE, true]];
      for (const [nm, c, inst, force] of cases) for (const other of ["", "ignoreMinorErrors"]) rep.scenario(op + " forceWrite " + nm + (other ? " with " + other : ""), () => {
        const h = new H({ root: rep.repo, fsNoFail: true });
        const r = h.api(op, (st, h) => [...(op === "extractBinaryTag" ? [V.str("PreviewImage")] : []), V.str("/p/a.jpg"), V.str("/p/b.jpg"), ...(c || other ? [h.obj(st, { ...(c ? { forceWrite: c } : {}), ...(other ? { [other]: V.TRUE } : {}) }, "o")] : [])], { instOpts: inst ? (st, h) => h.obj(st, { forceWrite: inst }, "inst") : undefined });
        rep.addEngine(h.e);
        let n = 0;
        for (const t of r.tasks) for (const w of h.wires(t)) {
          if (w.bad) continue;
          n++;
          const flags = w.lines.map((l) => h.lit(l)).filter((x) => x !== null && /^-(W|w|o|out|textout)[!+]*$/i.test(x));
          const forced = flags.some((x) => x.includes("!") || /^-o/i.test(x));
          rep.ob(flags.length === 1 && (force || !forced) ? true : flags.length === 1 || forced && !force ? false : null, op, "forceWrite " + nm + " sends " + flags.join(" "));
          rep.ob(force === forced ? true : force ? false : false, op, "forceWrite " + nm + " sends " + flags.join(" "));
        }
        rep.ob(n > 0 ? true : null, op, "sends a command");
      });
    }
  },
};

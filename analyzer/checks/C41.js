"use strict";
const path = require("node:path");
const { H, V, T, U, L, litOf } = require("../lib/harness");
const { evalParts, feasible, Unknown, Infeasible } = require("../lib/evalsym");
const { expand, impossible } = require("../lib/outname");
const S = V.str;
const TAG = { extractThumbnail: "ThumbnailImage", extractPreview: "PreviewImage", extractJpgFromRaw: "JpgFromRaw" };
module.exports = {
  level: "other", floor: 400,
  explain: "Abstract interpretation of every operation that makes ExifTool write a new file, for destinations of every kind (plain, relative parts, percent signs before each of ExifTool's file name codes with and without widths and modifiers, URL-encoded names, repeated and trailing percent signs) and for an unknown destination evaluated at those words; the argument that names the output is expanded by a model of ExifTool's own expansion of output names and compared with the requested file. The directories created, the tag requested and the source are collected from the same command.",
  rule: "command sent => ExifTool expands the output argument to path.resolve(<destination>); nothing but the destination's directory is created; exactly the requested tag is extracted, in binary, from path.resolve(<source>); a destination ExifTool can write to is not refused",
  run(rep, { tier }) {
    const DESTS = ["/p/out.jpg", "/p/../q/out.jpg", "/p//x/./y.jpg", "/p/a b.jpg", "/p/out", "/p/é中.jpg", "/p/$HOME.jpg", "/p/100%.jpg", "/p/50%", "/p/%", "/p/%%", "/p/a%%b.jpg", "/p/a%%%b.jpg", "/p/%zz.jpg", "/p/% f.jpg", "/p/my%20file.jpg", "/p/a%2Fb.jpg", "/p/a%3Db%26c.jpg", "/p%d/x.jpg", "/p/%f/%e.jpg", "/p/%0f.jpg", "/p/%%0f.jpg", "/p/%0ff.jpg", "/p/0f.jpg", "/p/f%"];
    for (const c of "dDfFeEtgso") for (const w of ["", "2", "20", ".3", "-", "+", "1:2", "-.8", "l", "3u"]) if (tier === "thorough" || w === "" || (c.charCodeAt(0) + w.length) % 3 === 0) DESTS.push("/p/a%" + w + c + "z.jpg");
    const COPIES = ["/p/%c.jpg", "/p/a%-c.jpg", "/p/my%20copy.jpg", "/p/%C", "/p/%.3nc.jpg", "/p/%lc"];
    const SRCS = ["/s/a.jpg", "/s/50%f.jpg", "/s/my%20file%c.jpg"];
    const call = (op, s, d, extra) => (st, h) => [...(op.startsWith("extractBinaryTag") ? [S("PreviewTIFF")] : []), typeof s === "string" ? S(s) : s(h, st), typeof d === "string" ? S(d) : d(h, st), ...(extra ? [h.obj(st, extra, "o")] : [])];
    const variants = (op) => (op === "rewriteAllTags" ? [["", null], ["repairing", { allowMakerNoteRepair: V.bool(true) }]] : [["", null], ["overwriting", { forceWrite: V.bool(true) }], ["not overwriting", { forceWrite: V.bool(false) }]]);
    const outFlag = (x) => x !== null && /^-(?:W[+!]*|w[+!]*|o|out|tagOut[+!]*|textOut[+!]*)$/i.test(x);
    const judge = (name, op, s, d, extra) => rep.scenario(name, () => {
      const dirs = [];
      const h = new H({ root: rep.repo, hooks: { onFs(n, a, st, node, e) { if (/^mkdir/.test(n)) dirs.push(litOf(e.resolve(a[0].v, st))); return null; } } });
      const r = h.api(op, call(op, s, d, extra));
      rep.addEngine(h.e);
      const want = path.posix.resolve(d), no = impossible(want);
      if (!r.tasks.length) {
        const soft = !r.outs.length || r.outs.some((o) => o.st.impr.size || o.kind === "pending");
        rep.ob(no ? true : soft ? null : false, name, no ? "is refused" : "the destination is refused");
        return;
      }
      for (const x of new Set(dirs)) rep.ob(x === null ? null : path.posix.resolve(x) === path.posix.dirname(want), name, "creates the directory " + x);
      for (const t of r.tasks) for (const w of h.wires(t)) {
        const ls = w.bad ? null : w.lines.map((l) => h.lit(l));
        if (!ls || ls.includes(null)) { rep.ob(null, name, "command"); continue; }
        rep.count("commands");
        const i = ls.findIndex(outFlag), got = i < 0 ? null : expand(ls[i + 1] || "");
        if (i < 0) { rep.ob(false, name, "no output file is named: " + ls.join(" ")); continue; }
        rep.ob(got !== null && path.posix.resolve(got) === want ? true : false, name, JSON.stringify(ls[i + 1]) + (got === want ? " is written to " + want : " makes ExifTool write to " + (got === null ? "another file" : JSON.stringify(got)) + " instead of " + JSON.stringify(want)));
        rep.ob(ls.filter(outFlag).length === 1, name, "one output file");
        const rest = ls.filter((_, j) => j !== i + 1);
        rep.ob(rest.includes(path.posix.resolve(s)), name, "reads " + path.posix.resolve(s) + ": " + rest.join(" "));
        if (op === "rewriteAllTags") continue;
        const tag = TAG[op] || "PreviewTIFF";
        rep.ob(rest.includes("-b") || rest.includes("-binary"), name, "extracts the bytes");
        const asked = rest.filter((x) => /^-[A-Za-z][\w:-]*$/.test(x) && !/^-(?:b|binary|W|w|json|charset|execute|ignoreMinorErrors|m|api|use|common_args|stay_open|echo\d?|sep|E|P|q)$/i.test(x));
        rep.ob(asked.length === 1 && asked[0] === "-" + tag, name, "asks for " + JSON.stringify(asked));
      }
    });
    const OPS = ["extractBinaryTag", "extractThumbnail", "extractPreview", "extractJpgFromRaw", "rewriteAllTags"];
    // a confirmed output resolves
    const { serve } = require("../lib/serve");
    for (const op of OPS) for (const t of op === "rewriteAllTags" ? ["    1 image files created\n"] : ["    1 output files created\n", "1 output file created", "    1 image files read\n    1 output files created\n"]) for (const [en, err] of [["", ""], [", with a warning", "Warning: [minor] Odd - /s/a.jpg\n"]]) rep.scenario(op + " answered " + JSON.stringify(t) + en, () => {
      const name = op + " answered " + JSON.stringify(t) + en;
      const r = serve(rep.repo, op, (st, h) => call(op, "/s/a.jpg", "/p/out.jpg")(st, h), () => [S(t), S(err)]);
      rep.addEngine(r.h.e);
      if (!r.outs.length) rep.ob(null, name, "no outcome");
      for (const o of r.outs) rep.ob(o.kind === "ok" ? true : o.kind === "err" && !o.st.impr.size ? false : null, name, o.kind === "ok" ? "resolves" : "the call fails although the file was written" + (o.v ? ": " + r.h.e.show(o.v, o.st).slice(0, 80) : ""));
    });
    // neither an existing nor a missing directory of the destination gets in the way
    for (const op of OPS) for (const [d, have] of [["/p/out.jpg", ["/p"]], ["/p/out.jpg", []], ["/p/x/y/out.jpg", ["/p"]], ["/p/x/y/out.jpg", ["/p", "/p/x", "/p/x/y"]], ["/out.jpg", []]]) rep.scenario(op + d + have, () => {
      const name = op + " to " + d + (have.length ? ", " + have.join(" and ") + " exist" : ", nothing exists");
      const h = new H({ root: rep.repo, hooks: { onFs(n, a, st, node, e) {
        const o = n.replace(/Sync$/, ""), sync = n === "exists" || /Sync$/.test(n), p = litOf(e.resolve(e.argAt(a, 0, st), st)), fs = st.extra.dirs || ["/", ...have];
        const bad = (c) => { const er = e.allocErr(st, "Error", S(c + ": " + o), node, "fs" + o); return sync ? [{ st, thr: er }] : [{ st, v: e.mkPromise(st, "err", er, node, "fs") }]; };
        const good = (v) => [{ st, v: sync ? v : e.mkPromise(st, "ok", v, node, "fs") }];
        if (p === null) return null;
        const q = path.posix.resolve(p);
        if (o === "exists") return good(V.bool(fs.includes(q)));
        if (/^(?:access|l?stat)$/.test(o)) return fs.includes(q) ? good(o === "access" ? U : e.opaque("stat", [], { ty: T.O, tr: true })) : bad("ENOENT");
        if (o !== "mkdir") return null;
        const ov = e.resolve(e.argAt(a, 1, st), st), rc = ov.k === "o" ? e.getProp(ov, "recursive", st.clone(), null) : null, rv = rc && rc.length === 1 && !rc[0].thr ? e.resolve(rc[0].v, rc[0].st) : ov.k === "u" || ov.k === "d" ? U : null;
        const rec = rv === null || (rv.k !== "u" && !(rv.k === "b" && !rv.v));
        if (!rec && fs.includes(q)) return bad("EEXIST");
        if (!rec && !fs.includes(path.posix.dirname(q))) return bad("ENOENT");
        const m = [...fs]; for (let x = q; x !== "/"; x = path.posix.dirname(x)) m.push(x);
        st.extra = { ...st.extra, dirs: m };
        return good(U);
      } } });
      const r = h.api(op, call(op, "/s/a.jpg", d));
      rep.addEngine(h.e);
      rep.ob(r.tasks.length ? true : !r.outs.length || r.outs.some((o) => o.st.impr.size || o.kind === "pending") ? null : false, name, r.tasks.length ? "is sent" : "the call fails: " + r.outs.map((o) => (o.v ? h.e.show(o.v) : "")).join());
    });
    // extraction to memory: the tag's bytes as JSON
    for (const tag of ["ThumbnailImage", "thumbnailimage", "PreviewImage", "EXIF:ThumbnailImage", "MPF:MPImage2", "ICC_Profile"]) for (const src of [...SRCS, "/s/../t/a b.jpg"]) for (const [on, o] of [["", null], [", minor errors not ignored", { ignoreMinorErrors: V.bool(false) }]]) rep.scenario("buffer " + tag + src + on, () => {
      const name = "extractBinaryTagToBuffer " + tag + " from " + src + on, h = new H({ root: rep.repo });
      const r = h.api("extractBinaryTagToBuffer", (st, h) => [S(tag), S(src), ...(o ? [h.obj(st, o, "o")] : [])]);
      rep.addEngine(h.e);
      if (!r.tasks.length) { rep.ob(!r.outs.length || r.outs.some((x) => x.st.impr.size || x.kind === "pending") ? null : false, name, "nothing is submitted"); return; }
      for (const t of r.tasks) for (const w of h.wires(t)) {
        const ls = w.bad ? null : w.lines.map((l) => h.lit(l));
        if (!ls || ls.includes(null)) { rep.ob(null, name, "command"); continue; }
        rep.count("commands");
        rep.ob(ls.includes("-b") || ls.includes("-binary"), name, "extracts the bytes: " + ls.join(" "));
        rep.ob(ls.includes("-j") || ls.includes("-json") || ls.some((x) => /^-j(?:son)?=/.test(x)) && null, name, "asks for a JSON document, which carries bytes as text: " + ls.join(" "));
        rep.ob(ls.includes("-" + tag), name, "asks for " + tag + ": " + ls.join(" "));
        rep.ob(ls.includes(path.posix.resolve(src)), name, "reads " + path.posix.resolve(src) + ": " + ls.join(" "));
        rep.ob(!ls.some(outFlag), name, "writes no file: " + ls.join(" "));
      }
    });
    OPS.forEach((op, oi) => {
      variants(op).forEach(([v, extra], vi) => {
        DESTS.forEach((d, i) => { if (tier === "thorough" || op === "extractBinaryTag" && !vi || op === "rewriteAllTags" && !vi || (i + oi + vi) % 6 === 0) judge(op + " " + v + " to " + d, op, SRCS[i % SRCS.length], d, extra); });
        for (const d of COPIES) if (tier === "thorough" || !vi) judge(op + " " + v + " to " + d, op, SRCS[0], d, extra);
        for (const s of SRCS) judge(op + " " + v + " from " + s, op, s, "/p/out.jpg", extra);
      });
      // any destination
      rep.scenario(op + " to any file", () => {
        const h = new H({ root: rep.repo });
        const r = h.api(op, call(op, "/s/a.jpg", (h) => h.sym("DST", T.S)));
        rep.addEngine(h.e);
        for (const t of r.tasks) for (const w of h.wires(t)) {
          const i = w.bad ? -1 : w.lines.findIndex((l) => outFlag(h.lit(l)));
          if (i < 0 || i + 1 >= w.lines.length) { rep.ob(null, op + " to any file", "command"); continue; }
          let rid = null;
          const find = (id) => { const s = h.e.syms.get(id); if (!s || !s.derive) return; if (s.derive.op === "resolve") { rid = id; return; } for (const a of s.derive.args) if (a && a.k === "y") find(a.id); else if (a && a.k === "s") a.p.forEach((p) => p.sym && find(p.sym)); };
          w.lines[i + 1].p.forEach((p) => p.sym && find(p.sym));
          if (!rid) { rep.ob(null, op + " to any file", "no absolute path"); continue; }
          for (const d of DESTS) {
            const word = path.posix.resolve(d), env = new Map([[rid, word]]);
            try {
              const f = h.e.fact(rid, w.st);
              if (f.lang && !f.lang.accepts(word) || !feasible(h, w.st, env)) continue;
              const arg = evalParts(h, w.lines[i + 1].p, w.st, env), got = expand(arg);
              rep.ob(got === word ? true : w.st.impr.size ? null : false, op + " to any file", JSON.stringify(arg) + (got === word ? " is written to " + word : " makes ExifTool write to " + (got === null ? "another file" : JSON.stringify(got)) + " instead of " + JSON.stringify(word)));
            } catch (e) { if (e instanceof Infeasible) continue; if (!(e instanceof Unknown)) throw e; rep.ob(null, op + " to any file", e.message); }
          }
        }
      });
    });
    void U; void L;
  },
};

"use strict";
const { evalParts, Unknown, Infeasible } = require("../lib/evalsym");
const { each } = require("../lib/scenarios");
const { H, L, T, U, V, symv } = require("../lib/harness");
module.exports = {
  level: "other", floor: 100,
  explain: "Abstract interpretation of every file operation with unknown file names, for POSIX and Windows; the position and provenance of the path arguments of every submitted command are checked.",
  rule: "the file appears as path.resolve(<the caller's file name>), nothing but fixed flags follows it; a destination is path.resolve(<destination>) right after -W/-w/-o/-out; on win32 the command carries -charset filename=utf8 before any path",
  run(rep) {
    const abs = { linux: L.reExact("/[\\s\\S]*", ""), win32: L.reExact("([A-Za-z]:)?[\\\\/][\\s\\S]*", "") };
    each(rep, {}, (s) => s.kind !== "version" && !(s.value && s.value !== "string" && s.value !== "number"), (h, r, sc, platform) => {
      const where = sc.op;
      const src = sc.kind === "extract" || sc.kind === "buffer" || sc.kind === "rewrite" ? "SRC" : "FILE";
      const dst = sc.kind === "extract" || sc.kind === "rewrite" ? "DST" : null;
      const dd = new Set();
      let n = 0;
      for (const t of r.tasks) for (const w of h.wires(t)) {
        if (w.bad) continue;
        n++;
        const k = w.lines.map((l) => h.showLine(l)).join("\n");
        if (dd.has(k)) continue;
        dd.add(k);
        rep.count("commands");
        const at = (root) => w.lines.findIndex((l) => l.p.some((p) => p.sym !== undefined && h.e.roots(symv(p.sym)).has(root)));
        // provenance: exactly path.resolve of the caller's name, against nothing but the working directory
        const based = (inf) => {
          let r = true;
          for (const b of inf.derive.args.slice(0, -1)) {
            const y = h.e.resolve(b, w.st);
            if (y.k === "y" && y.id === "cwd") continue;
            const roots = y.k === "y" ? h.e.roots(y) : new Set();
            if (roots.has("SRC") || roots.has("DST") || roots.has("FILE")) return false;
            r = null;
          }
          return r;
        };
        const pathLine = (i, root) => {
          const l = w.lines[i];
          const soft = l.p.some((p) => typeof p !== "string" && (h.opaqueIn(p) || h.imprecise(p, w.st)));
          if (l.p.length === 1 && l.p[0].sym !== undefined) {
            const inf = h.e.syms.get(l.p[0].sym);
            if (inf.derive && inf.derive.op === "resolve") {
              const a = inf.derive.args;
              const last = h.e.resolve(a[a.length - 1], w.st);
              if (last.k === "y" && last.id === root) { const b = based(inf); return b === false && soft ? null : b; }
              return soft ? null : false;
            }
          }
          // characters replaced in the absolute path (C41 judges which): plain names must pass unchanged
          if (l.p.length === 1 && l.p[0].sym !== undefined) {
            let id = l.p[0].sym;
            const ops = new Set(["replaceC"]);
            while (h.e.syms.get(id) && h.e.syms.get(id).derive && ops.has(h.e.syms.get(id).derive.op)) { const a0 = h.e.resolve(h.e.syms.get(id).derive.args[0], w.st); if (a0.k !== "y") break; id = a0.id; }
            const inf = h.e.syms.get(id);
            if (id !== l.p[0].sym && inf && inf.derive && inf.derive.op === "resolve") {
              const a = inf.derive.args, last = h.e.resolve(a[a.length - 1], w.st);
              if (last.k === "y" && last.id === root && based(inf)) try {
                for (const word of ["/p/a b.jpg", "/Zoë/IMG_0001-2 (3)[4]{5}~.JPG", "/p/&'\"#@!=+,;$^`<>|*?.x"].map((x) => (platform === "win32" ? "C:" + x.replace(/\//g, "\\") : x))) if (evalParts(h, l.p, w.st, new Map([[id, word]])) !== word) return soft ? null : false;
                return true;
              } catch (e) { if (!(e instanceof Unknown) && !(e instanceof Infeasible)) throw e; }
            }
          }
          const lang = h.lineLang(l, w.st);
          // another way to build an absolute path: undecided as long as it cannot be relative
          if (L.subset(lang, abs[platform])) return null;
          return soft ? null : false;
        };
        const i = at(src);
        if (i < 0) { rep.ob(false, where, "the command does not name the file: " + k.replace(/\n/g, " ").slice(-160)); continue; }
        rep.ob(pathLine(i, src), where, "file is passed as its absolute path: " + h.showLine(w.lines[i]));
        const after = w.lines.slice(i + 1).map((l) => h.lit(l));
        rep.ob(after.every((x) => x !== null && x.startsWith("-")) && after.length <= 3, where, "only fixed flags follow the file: " + JSON.stringify(after));
        if (dst) {
          const j = at(dst);
          if (j < 0) rep.ob(false, where, "the command does not name the destination");
          else {
            rep.ob(pathLine(j, dst), where, "destination is passed as its absolute path: " + h.showLine(w.lines[j]));
            const flag = j > 0 ? h.lit(w.lines[j - 1]) : null;
            rep.ob(flag !== null && /^-(W!?|w!?|o|out)$/i.test(flag), where, "destination follows its flag: " + flag);
            rep.ob(j < i, where, "destination precedes the source");
          }
        }
        if (platform === "win32") {
          const c = w.lines.findIndex((l, x) => h.lit(l) === "-charset" && x + 1 < w.lines.length && /^filename=utf-?8$/i.test(h.lit(w.lines[x + 1]) || ""));
          rep.ob(c >= 0 && c < i, where, "win32: the command declares UTF-8 file names");
        }
      }
      rep.ob(n > 0 ? true : null, where, "operation sends a command");
    });
  },
};

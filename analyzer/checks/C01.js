"use strict";
const { each } = require("../lib/scenarios");
const { H, L, T, U, V } = require("../lib/harness");
const CTRL = L.not(L.without([[0, 0], [10, 10], [13, 13]]));
// an extra argument of the caller that is not text (against its declared type):
// is text of that argument free of control characters?
function untyped(h, p, st) {
  const i = p.sym !== undefined && h.e.syms.get(p.sym);
  if (!i || !i.derive || i.derive.op !== "tostr") return false;
  const x = h.e.resolve(i.derive.args[0], st);
  if (x.k !== "y" || !/\.(read|write)Args\[/.test(x.id)) return false;
  const f = h.e.fact(x.id, st);
  if (!(f.ty & T.S)) return true;
  return L.isEmpty(L.inter(f.lang || L.ALL, CTRL));
}
function checkWire(dd, rep, h, w, where) {
  if (w.bad) return rep.ob(false, where, w.bad);
  rep.count("commands");
  const wk = w.lines.map((l) => h.showLine(l)).join("\n");
  if (!dd.has(wk)) { dd.add(wk);
  rep.ob(w.tail.length === 0 && w.lines.length > 0 && h.lit(w.lines[w.lines.length - 1]) === "-execute" && !w.lines[w.lines.length - 1].star, where, "command ends with one -execute line");
  rep.ob(w.lines.slice(0, -1).every((l) => h.lit(l) !== "-execute"), where, "no other execute marker is emitted by the library");
  }
  for (const l of w.lines) {
    rep.count("argument_lines");
    for (const p of l.p) {
      if (typeof p === "string") { if (dd.has("l" + p)) continue; dd.add("l" + p); rep.ob(!/[\r\n\0]/.test(p), where, "literal text in " + h.showLine(l).slice(0, 120) + " has no control character"); continue; }
      const st = l.st || w.st;
      const bad = L.inter(h.partLang(p, st), CTRL);
      const dk = V.key(V.mkStr([p])) + bad.key;
      if (dd.has(dk)) continue;
      dd.add(dk);
      const nm = h.showLine({ p: [p] }).slice(0, 160);
      if (L.isEmpty(bad)) rep.ob(true, where, nm + " cannot contain CR, LF or NUL");
      else if (untyped(h, p, st)) rep.ob(null, where, nm + ": only an extra argument that is not text could contain a control character");
      else if (h.imprecise(p, st) || h.opaqueIn(p)) rep.ob(null, where, nm + " may contain a control character");
      else rep.ob(false, where, "argument text " + nm + " can contain " + JSON.stringify(L.witness(bad)));
    }
  }
}
module.exports = {
  level: "other",
  floor: 400,
  explain: "Abstract interpretation of every public operation with unknown arguments; the language of each argument line of each command submitted to batch-cluster is computed and intersected with the lines containing CR, LF or NUL.",
  rule: "for every command: every dynamic part of every argument line has an empty intersection with [CR LF NUL], the last line is -execute and the command ends there; caller-supplied extra arguments are sent verbatim, one line each",
  run(rep, o) {
    each(rep, {}, () => true, (h, r, sc, platform) => {
      rep.ob(r.tasks.length > 0 || sc.value === "function" ? true : null, sc.name, "operation reaches the task queue");
      const dd = new Set();
      for (const t of r.tasks) for (const w of h.wires(t)) checkWire(dd, rep, h, w, sc.op + " -> " + h.taskName(t));
    });
    // extra arguments are passed on verbatim
    for (const [op, mk, slot] of [
      ["read", (st, h, a) => [h.sym("FILE", T.S), h.obj(st, { readArgs: a }, "o")]],
      ["readRaw", (st, h, a) => [h.sym("FILE", T.S), h.obj(st, { readArgs: a }, "o")]],
      ["write", (st, h, a) => [h.sym("FILE", T.S), h.obj(st, { Title: h.sym("V", T.S) }, "t"), h.obj(st, { writeArgs: a }, "o")]],
      ["editTags", (st, h, a) => [h.sym("FILE", T.S), h.arr(st, [h.obj(st, { tag: V.str("XMP-dc:Subject"), operation: V.str("add"), value: V.str("x") }, "e")], "es"), h.obj(st, { writeArgs: a }, "o")]],
    ]) rep.scenario(op + " with extra arguments", () => {
      const h = new H({ root: rep.repo });
      let A, B;
      const r = h.api(op, (st) => { A = h.sym("ARG1", T.S); B = h.sym("ARG2", T.S); for (const x of [A, B]) h.e.refine(st, x.id, { ty: T.S, lang: L.reExact("-[A-Za-z]+=[^ \\r\\n\\0]*", "") }); return mk(st, h, h.arr(st, [A, B], "args")); });
      rep.addEngine(h.e);
      let n = 0;
      for (const t of r.tasks) for (const w of h.wires(t)) {
        if (w.bad) continue;
        n++;
        const idx = [A, B].map((x) => w.lines.findIndex((l) => l.p.length === 1 && l.p[0].sym === x.id && !l.star));
        const other = w.lines.some((l) => l.p.some((p) => typeof p !== "string" && (h.imprecise(p, w.st) || h.opaqueIn(p))));
        const ok = idx[0] >= 0 && idx[1] === idx[0] + 1;
        rep.ob(ok ? true : other ? null : false, op, "extra arguments are sent as given, one line each, in order");
      }
      rep.ob(n > 0 ? true : null, op, "command with extra arguments is reachable");
    });
  },
};

"use strict";
const { T, U, V } = require("../lib/harness");
const { finish } = require("../lib/attempts");
module.exports = {
  level: "other", floor: 20,
  explain: "Abstract interpretation of write(), editTags() and deleteAllTags() over every outcome of every submission (each submission may succeed or fail, leftover timers fire) for each configured retry count and for the default configuration.",
  rule: "on every path of a modifying request at most one task is submitted; when that submission fails the call rejects, when it succeeds the call resolves with its result",
  run(rep, { tier }) {
    const F = () => V.str("/photos/a.jpg");
    const tags = (st, h) => h.obj(st, { Title: h.sym("VAL", T.S) }, "tags");
    const edits = (st, h) => h.arr(st, [h.obj(st, { tag: V.str("XMP-dc:Subject"), operation: V.str("add"), value: V.str("x") }, "e")], "es");
    const ops = [
      ["write", "tags", (st, h) => [F(h), tags(st, h)]],
      ["write", "tags and options", (st, h) => [F(h), tags(st, h), h.obj(st, { ignoreMinorErrors: h.sym("IGN", T.B | T.U), struct: h.sym("STRUCT", T.D | T.U) , useMWG: h.sym("MWG", T.B | T.U) }, "o")]],
      ["write", "tags, arguments and options", (st, h) => [F(h), tags(st, h), h.arr(st, [h.sym("WARG", T.S)], "wa"), h.obj(st, { useMWG: h.sym("MWG", T.B | T.U) }, "o")]],
      ["write", "no tags", (st, h) => [F(h), h.obj(st, {}, "tags")]],
      ["write", "cleared tag", (st, h) => [F(h), h.obj(st, { Title: V.NULL }, "tags")]],
      ["write", "list", (st, h) => [F(h), h.obj(st, { Keywords: h.arr(st, [h.sym("V1", T.S)], "kw") }, "tags")]],
      ["write", "struct", (st, h) => [F(h), h.obj(st, { RegionInfo: h.obj(st, { A: h.sym("V1", T.S) }, "ri") }, "tags")]],
      ["editTags", "one edit", (st, h) => [F(h), edits(st, h)]],
      ["editTags", "one edit and options", (st, h) => [F(h), edits(st, h), h.obj(st, { ignoreMinorErrors: h.sym("IGN", T.B | T.U) }, "o")]],
      ["deleteAllTags", "all", (st, h) => [F(h)]],
      ["deleteAllTags", "retain", (st, h) => [F(h), h.obj(st, { retain: h.arr(st, [h.sym("RETAIN", T.S)], "r") }, "o")]],
    ];
    const counts = [undefined, 0, 1, 2, ...(tier === "thorough" ? [3, 5] : []), "any"];
    for (const [op, what, mk] of ops) for (const n of counts) {
      const name = op + " (" + what + "), " + (n === undefined ? "default retries" : n + " retries");
      rep.scenario(name, () => {
        const { h, outs } = finish(rep.repo, op, mk, n === undefined ? undefined : (st, h) => h.obj(st, { taskRetries: n === "any" ? h.sym("RETRIES", T.D) : V.num(n) }, "inst"), { cap: 4, result: { ty: T.O, tr: true } });
        rep.addEngine(h.e);
        rep.ob(outs.some((o) => o.events.some((e) => e.name === "enqueue")) ? true : null, name, "a command is submitted");
        for (const o of outs) {
          rep.count("histories");
          const k = o.events.filter((e) => e.name === "enqueue").length;
          rep.ob(k <= 1, name, k <= 1 ? "at most one submission" : "the command is submitted " + k + " times (" + o.events.map((e) => e.name).filter((x) => /enqueue|rejected|fulfilled/.test(x)).join(", ") + ")");
          if (o.events.some((e) => e.name === "rejected1")) rep.ob(o.kind === "err", name, "a failed submission makes the call reject");
          else if (o.events.some((e) => e.name === "fulfilled1")) rep.ob(o.kind === "ok", name, "a successful submission makes the call resolve");
        }
      });
    }
  },
};

"use strict";
const { T, U, V, key } = require("../lib/harness");
const { finish } = require("../lib/attempts");
module.exports = {
  level: "other", floor: 60,
  explain: "Abstract interpretation of every retriable operation over every history of its submissions (each attempt succeeds or fails) for configured retry counts 0..3 (0..6 thorough), and for the default configuration.",
  rule: "attempts on a path <= 1 + configured retries; every attempt but the last failed; a failed last attempt means the count is exhausted and the call rejects with the error of an attempt; a successful attempt ends the request and its value is what the caller gets; no two attempts submit the same task object",
  run(rep, { tier }) {
    const F = () => V.str("/photos/a.jpg"), S = () => V.str("/photos/a.jpg"), D = () => V.str("/photos/out/b.jpg");
    const ops = [
      ["version", "", () => [], {}, true],
      ["read", "", (st, h) => [F(h)], { ty: T.O, tr: true }, true],
      ["read", " with options", (st, h) => [F(h), h.obj(st, { numericTags: h.arr(st, [V.str("Orientation")], "n"), geolocation: h.sym("GEO", T.B | T.U) }, "o")], { ty: T.O, tr: true }, true],
      ["read", " with arguments", (st, h) => [F(h), h.arr(st, [h.sym("RARG", T.S)], "ra")], { ty: T.O, tr: true }, true],
      ["readRaw", "", (st, h) => [F(h)], { ty: T.O, tr: true }, true],
      ["extractThumbnail", "", (st, h) => [S(h), D(h)], { ty: T.U | T.S }],
      ["extractPreview", "", (st, h) => [S(h), D(h)], { ty: T.U | T.S }],
      ["extractJpgFromRaw", "", (st, h) => [S(h), D(h)], { ty: T.U | T.S }],
      ["extractBinaryTag", "", (st, h) => [V.str("PhotoshopThumbnail"), S(h), D(h)], { ty: T.U | T.S }],
      ["extractBinaryTagToBuffer", "", (st, h) => [V.str("ThumbnailImage"), S(h)], { ty: T.O, tr: true }],
      ["rewriteAllTags", "", (st, h) => [S(h), D(h)], {}, true],
    ];
    const counts = [undefined, 0, 1, 2, 3, ...(tier === "thorough" ? [4, 5, 6] : [])];
    for (const [op, what, mk, result, same] of ops) for (const n of counts) {
      const name = op + what + ", " + (n === undefined ? "default retries" : n + " retries");
      rep.scenario(name, () => {
        const { h, outs } = finish(rep.repo, op, mk, n === undefined ? undefined : (st, h) => h.obj(st, { taskRetries: V.num(n) }, "inst"), { cap: 12, result, engine: { fsNoFail: true } });
        rep.addEngine(h.e);
        let max = n;
        if (n === undefined) {
          const st = h.state(), d = h.exported("src/DefaultExifToolOptions.ts", "DefaultExifToolOptions", st);
          const v = h.e.resolve(h.e.getProp(d, "taskRetries", st, null)[0].v, st);
          if (v.k !== "d") { rep.ob(null, name, "default retry count is not a constant"); return; }
          max = v.v;
        }
        let full = 0;
        for (const o of outs) {
          rep.count("histories");
          const enq = o.events.filter((e) => e.name === "enqueue");
          const rej = o.events.filter((e) => /^rejected\d/.test(e.name)).map((e) => +e.name.slice(8));
          const ful = o.events.filter((e) => /^fulfilled\d/.test(e.name)).map((e) => +e.name.slice(9));
          const k = enq.length;
          const hist = o.events.map((e) => e.name).filter((x) => /enqueue|rejected|fulfilled/.test(x)).join(", ");
          if (k === 0) { rep.ob(o.kind === "err", name, "a request that submits nothing rejects"); continue; }
          rep.ob(k <= max + 1, name, k <= max + 1 ? "at most 1 + " + max + " attempts" : k + " attempts are made with " + max + " retries configured");
          if (k > max + 1) continue;
          // one after the other: attempt i+1 starts only after attempt i failed
          const seqOk = Array.from({ length: k - 1 }, (_, i) => i + 1).every((i) => rej.includes(i)) && !ful.some((i) => i < k);
          rep.ob(seqOk, name, seqOk ? "a further attempt is made only after a failure" : "an attempt follows one that did not fail (" + hist + ")");
          const ids = enq.map((e) => (e.task.k === "o" ? e.task.id : key(e.task)));
          rep.ob(new Set(ids).size === ids.length, name, new Set(ids).size === ids.length ? "each attempt submits a new task" : "an attempt submits the task of an earlier attempt again");
          if (ful.includes(k)) {
            if (same) {
              const okv = o.kind === "ok" && key(h.e.resolve(o.v, o.st)) === key(h.e.resolve({ k: "y", id: "RESULT" + k }, o.st));
              rep.ob(okv ? true : o.kind === "err" ? false : null, name, okv ? "the caller gets the successful attempt's result" : "a successful attempt's result is not what the caller gets (" + hist + " -> " + o.kind + " " + h.e.show(o.v, o.st).slice(0, 60) + ")");
              if (!okv && o.kind === "ok") rep.ob(/^(undefined|null)$/.test(h.e.show(o.v, o.st)) ? false : null, name, "the caller gets nothing although an attempt succeeded");
            } else rep.ob(true, name, "the result of the successful attempt decides");
          } else {
            rep.ob(rej.includes(k) ? o.kind === "err" : null, name, o.kind === "err" ? "failure of the last attempt rejects" : "the last attempt failed but the call resolves (" + hist + ")");
            rep.ob(k === max + 1, name, k === max + 1 ? "every permitted attempt is made before giving up" : "gives up after " + k + " of " + (max + 1) + " attempts (" + hist + ")");
            const id = o.kind === "err" && o.v.k === "y" ? o.v.id : "";
            const from = o.kind === "err" ? [...h.e.roots(o.v)].some((x) => /^ERROR\d/.test(x)) || /^ERROR\d/.test(id) : false;
            rep.ob(from ? true : null, name, "the rejection is the error of an attempt");
            if (o.kind === "err" && !from) rep.ob(/^(u|n)$/.test(o.v.k) ? false : null, name, "the rejection carries no error");
            if (k === max + 1) full++;
          }
        }
        rep.ob(full > 0 ? true : null, name, "the history in which every attempt fails is explored");
      });
    }
  },
};

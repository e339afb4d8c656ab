"use strict";
// Runs a public operation with ExifTool's answer given as (abstract) text: the
// task the library submits is handed its own parser's result, so the outcome
// of the caller's promise is a function of stdout/stderr.
const { H, T, U, V, TRUE, one } = require("./harness");
// answer(h, st) -> [stdout, stderr, passed?]
function serve(root, op, mkArgs, answer, { instOpts, engine, retries = 0, hooks: more, json } = {}) {
  let h;
  const got = [];
  // the document ExifTool printed: any JSON text derived from the answer "OUT"
  const jsonHook = json ? { onJsonParse(v, a, st, n) {
    if (![...h.e.roots(v)].includes("OUT")) return null;
    const t = json(h, st);
    if (t === undefined) return null;
    if (t === BAD) return h.e.throwErr(st, "SyntaxError", "Unexpected token", n);
    if (a.length > 1 && h.e.resolve(a[1].v, st).k !== "u") return null;
    return [{ st, v: h.e.jsonBuild(st, t, null, "doc@" + h.e.siteKey(n)) }];
  } } : {};
  const hooks = {
    ...jsonHook,
    ...(more || {}),
    onEnqueue(task, st, n) {
      const e = h.e;
      const [so, se, pa] = answer ? answer(h, st, task) : [h.sym("OUT", T.S), V.str("")];
      const ps = e.getProp(task, "parser", st, n);
      return e.seq(ps, (st, p) => e.call(p, task, [so, se, pa ?? TRUE].map(one), st, n).map((o) => {
        got.push({ st: o.st.clone(), v: o.v, thr: o.thr, task });
        return { st: o.st, v: o.thr ? e.mkPromise(o.st, "err", o.thr, n, "served") : e.mkPromise(o.st, "ok", o.v, n, "served") };
      }));
    },
  };
  h = new H({ root, fsNoFail: true, hooks, ...(engine || {}) });
  const r = h.api(op, mkArgs, { instOpts: instOpts || ((st, h) => h.obj(st, { taskRetries: V.num(retries) }, "inst")) });
  const outs = [];
  for (const o of r.outs) {
    if (o.kind === "pending") outs.push(o);
    else outs.push({ ...o, kind: o.kind === "throw" ? "err" : o.kind });
  }
  return { h, outs, tasks: r.tasks, got };
}
const BAD = Symbol("not JSON");
const leaf = (v) => ({ k: "leaf", abs: v });
module.exports = { serve, leaf, BAD };

"use strict";
// Explores every history of a request's submissions: each submitted task
// succeeds or fails, timers fire in order; the outcome of the call and the
// submissions on that path are returned.
const { H, T, U, V, one } = require("./harness");
// final outcomes after the returned promise settled and every timer left over has fired
function finish(root, op, mkArgs, instOpts, opts = {}) {
  let H2;
  const hooks = {
    onEnqueue(task, st, n) {
      const e = H2.e;
      const k = st.events().filter((x) => x.name === "enqueue").length;
      if (k > (opts.cap || 12)) { st.event({ name: "too-many" }); return [{ st, v: e.mkPromise(st, "ok", U, n, "cap") }]; }
      const p = e.mkPromiseX(st, n, e.syms.named("RESULT" + k, "result of attempt " + k, opts.result || {}, {}), "attempt" + k);
      st.set(p.id, { ...st.get(p.id), perr: e.syms.named("ERROR" + k, "error of attempt " + k, { ty: T.O, tr: true }, { isError: true }), onReject: (s) => s.event({ name: "rejected" + k }), onFulfil: (s) => s.event({ name: "fulfilled" + k }) });
      return [{ st, v: p }];
    },
    recursionLimit: () => 20,
  };
  H2 = new H({ root, hooks, ...(opts.engine || {}) });
  const e = H2.e;
  const st = H2.state();
  const i = H2.instance(st, instOpts ? instOpts(st, H2) : undefined);
  const args = mkArgs(i.st, H2);
  const n0 = i.st.events().length;
  const res = [];
  for (const o of H2.call(H2.method(i.v, op, i.st), i.v, args, i.st)) {
    const sets = o.thr ? [{ st: o.st, thr: o.thr, sync: true }] : e.awaitV(o.v, o.st, null);
    for (const s of sets) {
      // fire what is left
      let cur = [s.st];
      for (let d = 0; d < 12; d++) {
        const nx = [];
        let any = false;
        for (const c of cur) {
          if (!c.timers.length) { nx.push(c); continue; }
          any = true;
          const [t, ...rest] = c.timers;
          c.timers = rest;
          for (const q of e.call(t.cb, U, t.args || [], c, null)) { if (q.thr) { nx.push(q.st); continue; } for (const w of e.awaitV(q.v, q.st, null)) nx.push(w.st); }
        }
        cur = nx;
        if (!any) break;
      }
      for (const c of cur) res.push({ st: c, kind: s.thr ? "err" : "ok", v: s.thr || s.v, sync: s.sync, events: c.events().slice(n0) });
    }
  }
  return { h: H2, outs: res };
}
module.exports = { finish };

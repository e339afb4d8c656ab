"use strict";
// JSON.parse with a reviver over an abstract document
const { V, U, one } = require("./harness");
const leaf = (v) => ({ k: "leaf", abs: v });
function revive(e, st, tree, reviver, n) {
  const root = e.jsonBuild(st, tree, n, "doc");
  if (reviver.k === "u") return [{ st, v: root }];
  const visit = (st, holder, k, v) => {
    let outs = [{ st, v: U }];
    if (v.k === "o") {
      const o = st.get(v.id);
      const keys = o.segs ? o.segs.map((_, i) => String(i)) : (() => { const ks = []; for (const l of o.layers) if (l instanceof Map) for (const q of l.keys()) ks.push(q); return ks; })();
      for (const q of keys) {
        outs = e.seq(outs, (st) => e.seq(e.getProp(v, q, st, n), (st, c) => e.seq(visit(st, v, q, e.resolve(c, st)), (st, nv) => {
          const x = e.resolve(nv, st);
          if (x.k === "u") { const f = e.natives.call("Reflect.deleteProperty", U, [one(v), one(V.str(q))], st, n); return f; }
          return put(st, v, q, x);
        })));
      }
    }
    return e.seq(outs, (st) => e.call(reviver, holder, [one(V.str(k)), one(v)], st, n));
  };
  // own data property, whatever its name
  const put = (st, v, q, x) => {
    const o = st.get(v.id);
    if (o.segs) { const segs = o.segs.slice(); segs[+q] = one(x); st.set(v.id, { ...o, segs }); return [{ st, v: U }]; }
    const layers = o.layers.map((l, i) => (i === o.layers.length - 1 ? new Map(l).set(q, { v: x }) : l));
    st.set(v.id, { ...o, layers });
    return [{ st, v: U }];
  };
  const holder = e.allocObj(st, null, { "": root }, "holder");
  return visit(st, holder, "", root);
}
module.exports = { revive, leaf };

"use strict";
// what a caller can observe of a date/time value
const { V, U, L, litOf } = require("./harness");
const INDEX = "src/ExifTool.ts";
const MARK = { name: "UTC-0:1", off: -1 };
const OFFTEXT = /(?:Z|[+-]\d\d:?\d\d)$/;
// one observation: the value, or {imprecise}
const get = (h, v, k, st) => { const r = h.e.getProp(v, k, st.clone(), null); return r.length === 1 && !r[0].thr ? h.e.resolve(r[0].v, r[0].st) : null; };
const text = (h, v, m, st) => {
  const f = get(h, v, m, st); if (!f || f.k === "u") return null;
  return h.call(f, v, [], st.clone()).map((o) => ({ st: o.st, v: o.thr ? null : h.e.resolve(o.v, o.st), thr: !!o.thr }));
};
// does the text end with an offset? true | false | null
const endsWithOffset = (h, v, st) => {
  const l = litOf(v); if (l !== null) return OFFTEXT.test(l);
  const d = h.e.langOf(v, st), W = L.reTest("(?:[0-9a-zA-Z ]Z|[+-][0-9][0-9]:?[0-9][0-9])$");
  const hit = L.inter(d, W);
  if (L.isEmpty(hit)) return false;
  return L.isEmpty(L.inter(d, L.not(W))) ? true : null;
};
module.exports = { INDEX, MARK, get, text, endsWithOffset };

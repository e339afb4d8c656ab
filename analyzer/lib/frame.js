"use strict";
// Frame conditions: which heap objects a call leaves as they were.
const { V, one } = require("./harness");
const pure = (o) => o && (o.segs || o.layers) && o.ctor === undefined && o.cls !== "Function" && o.cls !== "Promise" && !o.fnNode && !o.classNode;
// plain objects and arrays reachable from values, with a name for each
function reach(h, roots, st) {
  const got = new Map();
  const go = (v, name, d) => {
    v = h.e.resolve(v, st);
    if (v.k === "i") { go(v.a, name, d); go(v.b, name, d); return; }
    if (v.k !== "o" || got.has(v.id) || d > 8) return;
    const o = st.get(v.id);
    if (!pure(o)) return;
    got.set(v.id, name);
    if (o.segs) o.segs.forEach((s, i) => { if (s.k === "1") go(s.v, name + "[" + i + "]", d + 1); });
    for (const l of o.layers || []) if (l instanceof Map) for (const [k, e] of l) if (e.v) go(e.v, name + "." + k, d + 1);
  };
  for (const [n, v] of roots) go(v, n, 0);
  return got;
}
// content of an object, independent of how its layers are arranged; texts are
// compared under the facts of the later state
function content(h, id, st, under) {
  const o = st.get(id), r = new Map();
  if (!o) return null;
  const k1 = (v) => V.key(h.e.resolve(v, under));
  if (o.segs) r.set("[]", o.segs.map((s) => (s.k === "1" ? k1(s.v) : V.segKey(s))).join(","));
  for (const l of o.layers || []) {
    if (l instanceof Map) for (const [k, e] of l) { if (e.v && e.v.k === "x") r.delete(k); else r.set(k, e.acc ? "accessor" : k1(e.v)); }
    else r.set("(dynamic)", (r.get("(dynamic)") || "") + "+" + (l.dyn ? V.key(l.dyn) : l.cond ? "?" + l.cond : "…"));
  }
  if (o.proto) r.set("(prototype)", V.key(o.proto));
  return r;
}
function snapshot(h, roots, st) { return { ids: reach(h, roots, st), st: st.clone() }; }
// [{name, key, what}] for everything that differs from the snapshot
function changes(h, snap, st) {
  const out = [];
  for (const [id, name] of snap.ids) {
    const a = content(h, id, snap.st, st), b = content(h, id, st, st);
    if (!b) continue;
    for (const k of new Set([...a.keys(), ...b.keys()])) if (a.get(k) !== b.get(k)) out.push({ name, key: k, vague: k === "(dynamic)", what: a.has(k) ? (b.has(k) ? "changed" : "removed") : "added" });
  }
  return out;
}
module.exports = { reach, snapshot, changes };

"use strict";
// Persistent map (radix trie over interned integer keys) with a Map-like mutable wrapper:
// O(1) clone, and diff() that skips structurally shared subtrees.
const ids = new Map();
const keyInt = (k) => {
  if (typeof k === "number") return k;
  let i = ids.get(k);
  if (i === undefined) { i = ids.size + 1; ids.set(k, i); }
  return i;
};
class Leaf { constructor(i, k, v) { this.i = i; this.k = k; this.v = v; } }
// node: plain Array of 16 slots
const NB = 4, MASK = 15;
function ins(n, sh, leaf) {
  const s = (leaf.i >>> sh) & MASK;
  const c = n ? n.slice() : new Array(16);
  const x = c[s];
  if (x === undefined) c[s] = leaf;
  else if (x instanceof Leaf) {
    if (x.i === leaf.i) c[s] = leaf;
    else { c[s] = ins(ins(undefined, sh + NB, x), sh + NB, leaf); }
  } else c[s] = ins(x, sh + NB, leaf);
  return c;
}
function del(n, sh, i) {
  const s = (i >>> sh) & MASK;
  const x = n[s];
  if (x === undefined) return n;
  const c = n.slice();
  if (x instanceof Leaf) { if (x.i !== i) return n; c[s] = undefined; return c; }
  c[s] = del(x, sh + NB, i);
  return c;
}
function* walk(n) {
  if (!n) return;
  for (let s = 0; s < 16; s++) { const x = n[s]; if (x === undefined) continue; if (x instanceof Leaf) yield x; else yield* walk(x); }
}
function each(n, f) {
  for (let s = 0; s < 16; s++) { const x = n[s]; if (x === undefined) continue; if (x instanceof Leaf) f(x); else each(x, f); }
}
function diffN(a, b, f) {
  for (let s = 0; s < 16; s++) {
    const x = a[s], y = b[s];
    if (x === y) continue;
    if (x === undefined) { if (y instanceof Leaf) f(y.k, undefined, y.v); else each(y, (l) => f(l.k, undefined, l.v)); }
    else if (y === undefined) { if (x instanceof Leaf) f(x.k, x.v, undefined); else each(x, (l) => f(l.k, l.v, undefined)); }
    else if (x instanceof Leaf && y instanceof Leaf) {
      if (x.i === y.i) { if (x.v !== y.v) f(x.k, x.v, y.v); }
      else { f(x.k, x.v, undefined); f(y.k, undefined, y.v); }
    } else if (x instanceof Leaf) {
      let seen = false;
      each(y, (l) => { if (l.i === x.i) { seen = true; if (l.v !== x.v) f(l.k, x.v, l.v); } else f(l.k, undefined, l.v); });
      if (!seen) f(x.k, x.v, undefined);
    } else if (y instanceof Leaf) {
      let seen = false;
      each(x, (l) => { if (l.i === y.i) { seen = true; if (l.v !== y.v) f(l.k, l.v, y.v); } else f(l.k, l.v, undefined); });
      if (!seen) f(y.k, undefined, y.v);
    } else diffN(x, y, f);
  }
}
const EMPTY = new Array(16);
class PMap {
  constructor(it) { this.root = EMPTY; if (it instanceof PMap) this.root = it.root; else if (it) for (const [k, v] of it) this.set(k, v); }
  get(k) {
    const i = typeof k === "number" ? k : ids.get(k);
    if (i === undefined) return undefined;
    let n = this.root, sh = 0;
    for (;;) {
      const x = n[(i >>> sh) & MASK];
      if (x === undefined) return undefined;
      if (x instanceof Leaf) return x.i === i ? x.v : undefined;
      n = x; sh += NB;
    }
  }
  has(k) { return this.get(k) !== undefined; }
  set(k, v) { const i = keyInt(k); const c = this.get(k); if (c === v && v !== undefined) return this; this.root = ins(this.root, 0, new Leaf(i, k, v)); return this; }
  delete(k) { const i = typeof k === "number" ? k : ids.get(k); if (i !== undefined) this.root = del(this.root, 0, i); }
  *keys() { for (const l of walk(this.root)) yield l.k; }
  *values() { for (const l of walk(this.root)) yield l.v; }
  *[Symbol.iterator]() { for (const l of walk(this.root)) yield [l.k, l.v]; }
  forEach(f) { each(this.root, (l) => f(l.v, l.k)); }
  get size() { let n = 0; each(this.root, () => n++); return n; }
  static diff(a, b, f) { if (a.root !== b.root) diffN(a.root, b.root, f); }
}
module.exports = PMap;

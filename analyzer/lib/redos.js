"use strict";
// Ambiguity of regular expressions: position automaton with edge multiplicities,
// exponential ambiguity by self-product, and a step-counting model of backtracking
// that confirms a suspected blow-up on the derived attack text.
const L = require("./lang");
const MAXREP = 25; // bounded repetitions beyond this are treated as unbounded
const meet = (a, b) => L.interSet(a, b);
const pickChar = (set) => { // a readable member
  const inS = (c) => set.some(([lo, hi]) => lo <= c && c <= hi);
  for (const c of "a0A :-,.'\"<>=/_\n\t") if (inS(c.charCodeAt(0))) return c;
  return String.fromCharCode(set[0][0]);
};
// { n, sets, first: Map pos->mult, follow: [Map pos->mult], last:Set, nullable }
function positions(ast) {
  const sets = [], follow = [];
  const add = (m, k, v) => m.set(k, Math.min(2, (m.get(k) || 0) + v));
  const merge = (a, b, f = 1) => { for (const [k, v] of b) add(a, k, v * f); };
  const link = (lasts, firsts) => { for (const [p, a] of lasts) for (const [q, b] of firsts) add(follow[p], q, a * b); };
  // nullable: number of ways (0, 1, 2+) to match nothing
  const go = (n) => {
    switch (n.t) {
      case "set": { const p = sets.length; sets.push(n.set); follow.push(new Map()); return { nul: 0, first: new Map([[p, 1]]), last: new Map([[p, 1]]) }; }
      case "group": return go(n.node);
      case "seq": { let r = { nul: 1, first: new Map(), last: new Map() }; for (const it of n.items) r = cat(r, go(it)); return r; }
      case "alt": { const r = { nul: 0, first: new Map(), last: new Map() }; for (const a of n.alts) { const x = go(a); r.nul = Math.min(2, r.nul + x.nul); merge(r.first, x.first); merge(r.last, x.last); } return r; }
      case "rep": {
        let r = { nul: 1, first: new Map(), last: new Map() };
        const unbounded = n.max === Infinity || n.max > MAXREP;
        for (let k = 0; k < Math.min(n.min, MAXREP); k++) r = cat(r, go(n.node));
        if (unbounded) { const x = go(n.node); link(x.last, x.first); r = cat(r, { nul: 1, first: x.first, last: x.last }); }
        else { // x? x? ... nested: (x(x(...)?)?)?
          const opt = (k) => { if (k === 0) return null; const x = go(n.node), y = opt(k - 1); const z = y ? cat(x, { ...y, nul: 1 }) : x; return z; };
          const o = opt(n.max - Math.min(n.min, MAXREP));
          if (o) r = cat(r, { ...o, nul: 1 });
        }
        return r;
      }
      default: return { nul: 1, first: new Map(), last: new Map() }; // assertions and look-arounds consume nothing
    }
  };
  const cat = (a, b) => {
    link(a.last, b.first);
    const first = new Map(a.first), last = new Map(b.last);
    if (a.nul) merge(first, b.first, a.nul);
    if (b.nul) merge(last, a.last, b.nul);
    return { nul: Math.min(2, a.nul * b.nul), first, last };
  };
  const r = go(ast);
  return { n: sets.length, sets, follow, first: r.first, last: r.last };
}
// exponential ambiguity: a word that leads from a position back to itself in two ways
function exponential(A) {
  const id = (p, q) => p * A.n + q;
  const succ = (p, q) => { const o = []; for (const [a] of A.follow[p]) for (const [b] of A.follow[q]) { const s = meet(A.sets[a], A.sets[b]); if (s.length) o.push([a, b, s]); } return o; };
  // only positions on cycles matter
  const reach = []; // reach[p] = positions reachable in >= 1 step
  for (let p = 0; p < A.n; p++) { const seen = new Set(), st = [...A.follow[p].keys()]; while (st.length) { const x = st.pop(); if (seen.has(x)) continue; seen.add(x); for (const y of A.follow[x].keys()) st.push(y); } reach.push(seen); }
  for (let p = 0; p < A.n; p++) {
    if (!reach[p].has(p)) continue;
    // forward search from (p,p) staying in p's component; remember whether the two runs have diverged
    const comp = (x) => reach[p].has(x) && reach[x].has(p);
    const start = id(p, p) * 2, from = new Map([[start, null]]), queue = [start];
    while (queue.length) {
      const cur = queue.shift(), div = cur % 2, pq = (cur - div) / 2, a = Math.floor(pq / A.n), b = pq % A.n;
      for (const [x, y, s] of succ(a, b)) {
        if (!comp(x) || !comp(y)) continue;
        const d = div || x !== y || (a === b && x === y && (A.follow[a].get(x) || 0) >= 2) ? 1 : 0;
        const nx = id(x, y) * 2 + d;
        if (x === p && y === p && d === 1) {
          let w = pickChar(s), c = cur;
          while (from.get(c)) { const f = from.get(c); w = f.ch + w; c = f.prev; }
          return { p, word: w };
        }
        if (!from.has(nx)) { from.set(nx, { prev: cur, ch: pickChar(s) }); queue.push(nx); }
      }
    }
  }
  return null;
}
function prefixTo(A, p) {
  const from = new Map(), queue = [];
  for (const q of A.first.keys()) { from.set(q, { prev: null }); queue.push(q); }
  while (queue.length) {
    const c = queue.shift();
    if (c === p) { let w = "", x = c; while (x !== null) { w = pickChar(A.sets[x]) + w; x = from.get(x).prev; } return w; }
    for (const q of A.follow[c].keys()) if (!from.has(q)) { from.set(q, { prev: c }); queue.push(q); }
  }
  return "";
}
// steps a backtracking matcher takes on text (all start positions), up to fuel
function steps(ast, text, fuel) {
  let n = 0;
  const W = (c) => c !== undefined && /\w/.test(c);
  class Out extends Error {}
  const tick = () => { if (++n > fuel) throw new Out(); };
  const inS = (set, c) => set.some(([lo, hi]) => lo <= c && c <= hi);
  const m = (node, i, k) => {
    tick();
    switch (node.t) {
      case "set": return i < text.length && inS(node.set, text.charCodeAt(i)) && k(i + 1);
      case "group": return m(node.node, i, k);
      case "seq": { const f = (j, i) => (j === node.items.length ? k(i) : m(node.items[j], i, (x) => f(j + 1, x))); return f(0, i); }
      case "alt": return node.alts.some((a) => m(a, i, k));
      case "bol": return i === 0 && k(i);
      case "eol": return i === text.length && k(i);
      case "wb": return W(text[i - 1]) !== W(text[i]) && k(i);
      case "nwb": return W(text[i - 1]) === W(text[i]) && k(i);
      case "look": { if (node.behind) return k(i); const r = m(node.node, i, () => true); return r !== !!node.neg && k(i); }
      case "rep": {
        const f = (c, i) => {
          tick();
          const more = () => c < node.max && m(node.node, i, (x) => (x === i && c >= node.min ? false : f(c + 1, x)));
          if (c < node.min) return more();
          return node.lazy ? k(i) || more() : more() || k(i);
        };
        return f(0, i);
      }
    }
    return k(i);
  };
  try { for (let s = 0; s <= text.length; s++) if (m(ast, s, () => true)) break; } catch (x) { if (x instanceof Out || x instanceof RangeError) return Infinity; throw x; }
  return n;
}
function analyse(src, flags) {
  const { ast } = L.parseRegex(src, flags);
  const A = positions(ast);
  const e = exponential(A);
  if (!e) return { positions: A.n, exponential: false };
  const pre = prefixTo(A, e.p);
  const sufs = new Set(["", "\u0000", "!", "\n", "\u00e9", "a", "0", " ", "~"]);
  for (const s of A.sets) { sufs.add(pickChar(s)); const neg = L.interSet([[0, 0xffff]], complement(s)); if (neg.length) sufs.add(pickChar(neg)); }
  for (const suf of sufs) {
    const cost = [12, 16, 20].map((n) => steps(ast, pre + e.word.repeat(n) + suf, 4e6));
    const [a, b, c] = cost;
    if (a > 500 && (b === Infinity || b / a >= 4.5) && (c === Infinity || c / b >= 4.5)) return { positions: A.n, exponential: true, attack: { prefix: pre, pump: e.word, suffix: suf, cost } };
  }
  return { positions: A.n, exponential: null, word: e.word };
}
function complement(set) { const out = []; let lo = 0; for (const [a, b] of [...set].sort((x, y) => x[0] - y[0])) { if (a > lo) out.push([lo, a - 1]); lo = Math.max(lo, b + 1); } if (lo <= 0xffff) out.push([lo, 0xffff]); return out; }
module.exports = { analyse, positions, exponential, steps };

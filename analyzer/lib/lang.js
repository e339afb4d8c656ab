"use strict";
// Regular-language domain: JS regular expressions -> NFA -> minimal DFA over UTF-16
// code units, with boolean operations, concatenation, factors, images of simple
// per-character rewrites, and shortest witnesses.
const MAX = 0xffff;
const MAXSTATES = 4000;

// ---------- character sets: sorted disjoint [lo,hi] ----------
function normSet(r) {
  r = r.filter((x) => x[0] <= x[1]).sort((a, b) => a[0] - b[0]);
  const out = [];
  for (const [lo, hi] of r) {
    const l = out[out.length - 1];
    if (l && lo <= l[1] + 1) l[1] = Math.max(l[1], hi);
    else out.push([lo, hi]);
  }
  return out;
}
function negSet(r) {
  const out = [];
  let p = 0;
  for (const [lo, hi] of normSet(r)) {
    if (lo > p) out.push([p, lo - 1]);
    p = hi + 1;
  }
  if (p <= MAX) out.push([p, MAX]);
  return out;
}
const interSet = (a, b) => negSet([...negSet(a), ...negSet(b)]);
const ch = (c) => (typeof c === "string" ? c.charCodeAt(0) : c);
const setOf = (s) => normSet([...s].map((c) => [ch(c), ch(c)]));
const DIGIT = [[48, 57]];
const WORD = normSet([[48, 57], [65, 90], [97, 122], [95, 95]]);
const SPACE = normSet([[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a],
  [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]]);
const NL = normSet([[10, 10], [13, 13], [0x2028, 0x2029]]);
const DOT = negSet(NL);
const ANY = [[0, MAX]];
const inSet = (set, c) => set.some(([lo, hi]) => lo <= c && c <= hi);
const setSize = (set) => set.reduce((n, [a, b]) => n + b - a + 1, 0);
function caseFold(set) {
  const extra = [];
  for (const [lo, hi] of set) {
    const l = Math.max(lo, 0), h = Math.min(hi, 0x24f);
    for (let c = l; c <= h; c++) {
      const s = String.fromCharCode(c);
      const u = s.toUpperCase(), w = s.toLowerCase();
      if (u.length === 1 && !(c >= 128 && u.charCodeAt(0) < 128)) extra.push([ch(u), ch(u)]);
      if (w.length === 1 && !(c >= 128 && w.charCodeAt(0) < 128)) extra.push([ch(w), ch(w)]);
    }
  }
  return normSet([...set, ...extra]);
}

// ---------- regex parser ----------
class Unsupported extends Error {}
function parseRegex(src, flags = "") {
  let i = 0, ngroups = 0;
  const icase = flags.includes("i"), dotAll = flags.includes("s");
  const uni = flags.includes("u") || flags.includes("v");
  const groupNames = {};
  const peek = () => src[i];
  const eat = (s) => (src.startsWith(s, i) ? ((i += s.length), true) : false);
  const mk = (set) => ({ t: "set", set: icase ? caseFold(normSet(set)) : normSet(set) });
  function alt() {
    const alts = [seq()];
    while (eat("|")) alts.push(seq());
    return alts.length === 1 ? alts[0] : { t: "alt", alts };
  }
  function seq() {
    const items = [];
    while (i < src.length && peek() !== "|" && peek() !== ")") items.push(term());
    return { t: "seq", items };
  }
  function term() {
    let a;
    if (eat("^")) a = { t: "bol" };
    else if (eat("$")) a = { t: "eol" };
    else if (eat("\\b")) a = { t: "wb" };
    else if (eat("\\B")) a = { t: "nwb" };
    else if (eat("(?:")) { a = { t: "group", cap: 0, node: alt() }; close(); }
    else if (eat("(?=")) { a = { t: "look", node: alt() }; close(); }
    else if (eat("(?!")) { a = { t: "look", neg: true, node: alt() }; close(); }
    else if (eat("(?<=")) { a = { t: "look", behind: true, node: alt() }; close(); }
    else if (eat("(?<!")) { a = { t: "look", behind: true, neg: true, node: alt() }; close(); }
    else if (eat("(?<")) {
      const e = src.indexOf(">", i);
      const name = src.slice(i, e);
      i = e + 1;
      const cap = ++ngroups;
      groupNames[name] = cap;
      a = { t: "group", cap, name, node: alt() };
      close();
    } else if (eat("(")) { const cap = ++ngroups; a = { t: "group", cap, node: alt() }; close(); }
    else a = atom();
    return quant(a);
  }
  function close() { if (!eat(")")) throw new Unsupported("paren"); }
  function quant(a) {
    let min, max;
    if (eat("*")) { min = 0; max = Infinity; }
    else if (eat("+")) { min = 1; max = Infinity; }
    else if (eat("?")) { min = 0; max = 1; }
    else {
      const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i));
      if (!m) return a;
      i += m[0].length;
      min = +m[1];
      max = m[2] == null ? min : m[3] === "" ? Infinity : +m[3];
    }
    const lazy = eat("?");
    return { t: "rep", min, max, lazy, node: a };
  }
  function cls(c) {
    switch (c) {
      case "d": return DIGIT;
      case "D": return negSet(DIGIT);
      case "w": return WORD;
      case "W": return negSet(WORD);
      case "s": return SPACE;
      case "S": return negSet(SPACE);
    }
    return null;
  }
  function escape(inClass) {
    const c = src[i++];
    const k = cls(c);
    if (k) return k;
    const simple = { n: 10, r: 13, t: 9, v: 11, f: 12, 0: 0 };
    if (c === "b" && inClass) return [[8, 8]];
    if (c in simple && !(c === "0" && /\d/.test(src[i] || ""))) return [[simple[c], simple[c]]];
    if (c === "x") { const v = parseInt(src.slice(i, i + 2), 16); i += 2; return [[v, v]]; }
    if (c === "u") {
      if (src[i] === "{") {
        const e = src.indexOf("}", i);
        const v = parseInt(src.slice(i + 1, e), 16);
        i = e + 1;
        if (v > MAX) throw new Unsupported("astral");
        return [[v, v]];
      }
      const v = parseInt(src.slice(i, i + 4), 16); i += 4; return [[v, v]];
    }
    if (c === "c") { const v = src.charCodeAt(i++) % 32; return [[v, v]]; }
    if (/[1-9]/.test(c)) throw new Unsupported("backreference");
    if ((c === "p" || c === "P") && uni) {
      const e = src.indexOf("}", i);
      const re = new RegExp("^\\" + c + src.slice(i, e + 1) + "$", "u");
      i = e + 1;
      const r = [];
      for (let k2 = 0; k2 <= MAX; k2++) if (re.test(String.fromCharCode(k2))) r.push([k2, k2]);
      return normSet(r);
    }
    if (c === "k") throw new Unsupported("backreference");
    return [[ch(c), ch(c)]];
  }
  function atom() {
    if (eat(".")) return { t: "set", set: dotAll ? ANY : DOT };
    if (eat("[")) {
      const neg = eat("^");
      let r = [];
      while (src[i] !== "]") {
        if (i >= src.length) throw new Unsupported("class");
        let a = src[i] === "\\" ? (i++, escape(true)) : [[ch(src[i]), ch(src[i++])]];
        if (src[i] === "-" && src[i + 1] !== "]" && setSize(a) === 1) {
          i++;
          const b = src[i] === "\\" ? (i++, escape(true)) : [[ch(src[i]), ch(src[i++])]];
          a = [[a[0][0], b[0][1]]];
        }
        r.push(...a.map((x) => [...x]));
      }
      i++;
      r = normSet(r);
      if (icase) r = caseFold(r);
      return { t: "set", set: neg ? negSet(r) : r };
    }
    if (eat("\\")) return mk(escape(false).map((x) => [...x]));
    const c = src[i++];
    return mk([[ch(c), ch(c)]]);
  }
  const ast = alt();
  if (i < src.length) throw new Unsupported("trailing");
  return { ast, ngroups, groupNames, flags };
}

// ---------- NFA ----------
// state: { e: [[assertion|null, target]], c: [[set, target]] }
class NFA {
  constructor() { this.s = []; }
  add() { this.s.push({ e: [], c: [] }); return this.s.length - 1; }
  eps(a, b, as = null) { this.s[a].e.push([as, b]); }
  chr(a, set, b) { this.s[a].c.push([set, b]); }
}
function buildRegex(nfa, node, a, b, ml) {
  switch (node.t) {
    case "set": nfa.chr(a, node.set, b); break;
    case "seq": {
      let cur = a;
      node.items.forEach((it, k) => {
        const nx = k === node.items.length - 1 ? b : nfa.add();
        buildRegex(nfa, it, cur, nx, ml);
        cur = nx;
      });
      if (node.items.length === 0) nfa.eps(a, b);
      break;
    }
    case "alt": for (const x of node.alts) buildRegex(nfa, x, a, b, ml); break;
    case "group": buildRegex(nfa, node.node, a, b, ml); break;
    case "rep": {
      let cur = a;
      if (node.min > 300) throw new Unsupported("large repeat");
      for (let k = 0; k < node.min; k++) { const nx = nfa.add(); buildRegex(nfa, node.node, cur, nx, ml); cur = nx; }
      if (node.max === Infinity) {
        const l = nfa.add();
        nfa.eps(cur, l);
        const l2 = nfa.add();
        buildRegex(nfa, node.node, l, l2, ml);
        nfa.eps(l2, l);
        nfa.eps(l, b);
      } else {
        if (node.max > 300) throw new Unsupported("large repeat");
        nfa.eps(cur, b);
        for (let k = node.min; k < node.max; k++) { const nx = nfa.add(); buildRegex(nfa, node.node, cur, nx, ml); nfa.eps(nx, b); cur = nx; }
      }
      break;
    }
    case "dfa": toNFA(nfa, node.d, a, b); break;
    case "bol": nfa.eps(a, b, ml ? "bol_m" : "bol"); break;
    case "eol": nfa.eps(a, b, ml ? "eol_m" : "eol"); break;
    case "wb": nfa.eps(a, b, "wb"); break;
    case "nwb": nfa.eps(a, b, "nwb"); break;
    default: throw new Unsupported(node.t);
  }
}
// split alphabet into classes given list of sets
function classesOf(sets) {
  const cuts = new Set([0, MAX + 1]);
  for (const s of sets) for (const [lo, hi] of s) { cuts.add(lo); cuts.add(hi + 1); }
  const a = [...cuts].sort((x, y) => x - y);
  const out = [];
  for (let k = 0; k + 1 < a.length; k++) out.push([a[k], a[k + 1] - 1]);
  return out;
}
const PREV = { START: 0, WORD: 1, OTHER: 2, NL: 3 };
function prevClass(c) { return inSet(NL, c) ? PREV.NL : inSet(WORD, c) ? PREV.WORD : PREV.OTHER; }
function assertOk(as, prev, next) {
  // next: -1 end, otherwise char code
  if (as === null) return true;
  const pw = prev === PREV.WORD, nw = next >= 0 && inSet(WORD, next);
  switch (as) {
    case "bol": return prev === PREV.START;
    case "bol_m": return prev === PREV.START || prev === PREV.NL;
    case "eol": return next < 0;
    case "eol_m": return next < 0 || inSet(NL, next);
    case "wb": return pw !== nw;
    case "nwb": return pw === nw;
  }
  return false;
}
function determinize(nfa, starts, accepts) {
  const hasAssert = nfa.s.some((s) => s.e.some(([a]) => a !== null));
  const sets = nfa.s.flatMap((s) => s.c.map(([x]) => x));
  const classes = classesOf(hasAssert ? [...sets, WORD, NL] : sets);
  const acc = new Set(accepts);
  const close = (set, prev, next) => {
    const st = [...set], seen = new Set(set);
    while (st.length) {
      const q = st.pop();
      for (const [as, t] of nfa.s[q].e) if (!seen.has(t) && assertOk(as, prev, next)) { seen.add(t); st.push(t); }
    }
    return seen;
  };
  const ids = new Map(), trans = [], accept = [], work = [];
  const getId = (set, prev) => {
    const arr = [...set].sort((a, b) => a - b);
    const key = arr.join(",") + "|" + (hasAssert ? prev : 0);
    let id = ids.get(key);
    if (id === undefined) {
      id = trans.length;
      if (id > MAXSTATES) throw new Unsupported("state blowup");
      ids.set(key, id);
      trans.push(null);
      accept.push([...close(arr, prev, -1)].some((q) => acc.has(q)));
      work.push([id, arr, prev]);
    }
    return id;
  };
  getId(new Set(starts), PREV.START);
  while (work.length) {
    const [id, arr, prev] = work.pop();
    const row = [];
    const plain = hasAssert ? null : close(arr, prev, 0);
    for (const [lo, hi] of classes) {
      const cl = plain || close(arr, prev, lo);
      const tgt = new Set();
      for (const q of cl) for (const [set, t] of nfa.s[q].c) if (inSet(set, lo)) tgt.add(t);
      row.push([lo, hi, getId(tgt, prevClass(lo))]);
    }
    trans[id] = row;
  }
  return minimize(new DFA(trans, accept, 0));
}
// ---------- DFA (complete) ----------
class DFA {
  constructor(trans, accept, start) { this.trans = trans; this.accept = accept; this.start = start; this._k = null; }
  step(q, c) {
    const row = this.trans[q];
    let lo = 0, hi = row.length - 1;
    while (lo <= hi) {
      const m = (lo + hi) >> 1;
      if (c < row[m][0]) hi = m - 1;
      else if (c > row[m][1]) lo = m + 1;
      else return row[m][2];
    }
    throw new Error("incomplete DFA");
  }
  accepts(s) { let q = this.start; for (let k = 0; k < s.length; k++) q = this.step(q, s.charCodeAt(k)); return this.accept[q]; }
  get key() { if (this._k == null) { const j = JSON.stringify([this.trans, this.accept, this.start]); let i = interned.get(j); if (i === undefined) { i = this; this._n = internCount++; interned.set(j, this); } this._k = "L" + i._n; } return this._k; }
}
const interned = new Map();
let internCount = 0;
// shared instance of a minimal canonical automaton
function intern(d) { d.min = true; void d.key; return interned.get(JSON.stringify([d.trans, d.accept, d.start])); }
function mergeRow(row) {
  const out = [];
  for (const [lo, hi, t] of row) {
    const l = out[out.length - 1];
    if (l && l[2] === t && l[1] + 1 === lo) l[1] = hi;
    else out.push([lo, hi, t]);
  }
  return out;
}
function minimize(d) {
  if (d.min) return d;
  // reachable
  const order = [d.start], seen = new Map([[d.start, 0]]);
  for (let k = 0; k < order.length; k++)
    for (const [, , t] of d.trans[order[k]]) if (!seen.has(t)) { seen.set(t, order.length); order.push(t); }
  const n = order.length;
  const trans = order.map((q) => mergeRow(d.trans[q].map(([a, b, t]) => [a, b, seen.get(t)])));
  const accept = order.map((q) => d.accept[q]);
  // common alphabet partition, then Moore refinement on integer tables
  const cutSet = new Set();
  for (const r of trans) for (const x of r) cutSet.add(x[0]);
  const cuts = [...cutSet].sort((x, y) => x - y), K = cuts.length;
  const tab = trans.map((r) => { const t = new Int32Array(K); let j = 0; for (let k = 0; k < K; k++) { while (r[j][1] < cuts[k]) j++; t[k] = r[j][2]; } return t; });
  // identical columns are one symbol
  const cols = new Map(), use = [];
  for (let k = 0; k < K; k++) { let h = ""; for (let q = 0; q < n; q++) h += tab[q][k] + ","; if (!cols.has(h)) { cols.set(h, k); use.push(k); } }
  let cls = accept.map((a) => (a ? 1 : 0)), num = new Set(cls).size;
  for (;;) {
    const m = new Map(), nc = new Array(n);
    for (let q = 0; q < n; q++) {
      let key = String.fromCharCode(cls[q]);
      const t = tab[q];
      for (let k = 0; k < use.length; k++) key += String.fromCharCode(cls[t[use[k]]]);
      let id = m.get(key);
      if (id === undefined) { id = m.size; m.set(key, id); }
      nc[q] = id;
    }
    cls = nc;
    if (m.size === num) break;
    num = m.size;
  }
  // canonical numbering by BFS
  const rep = new Map();
  for (let q = 0; q < n; q++) if (!rep.has(cls[q])) rep.set(cls[q], q);
  const num2 = new Map([[cls[0], 0]]), ord = [cls[0]];
  for (let k = 0; k < ord.length; k++)
    for (const [, , t] of trans[rep.get(ord[k])]) if (!num2.has(cls[t])) { num2.set(cls[t], ord.length); ord.push(cls[t]); }
  return intern(new DFA(ord.map((c) => mergeRow(trans[rep.get(c)].map(([a, b, t]) => [a, b, num2.get(cls[t])]))),
    ord.map((c) => accept[rep.get(c)]), 0));
}
function product(a, b, f) {
  const ids = new Map(), trans = [], accept = [], work = [];
  const get = (p, q) => {
    const k = p * 1e6 + q;
    let id = ids.get(k);
    if (id === undefined) {
      id = trans.length;
      if (id > 20000) throw new Unsupported("product blowup");
      ids.set(k, id); trans.push(null); accept.push(f(a.accept[p], b.accept[q])); work.push([id, p, q]);
    }
    return id;
  };
  get(a.start, b.start);
  while (work.length) {
    const [id, p, q] = work.pop();
    const ra = a.trans[p], rb = b.trans[q], row = [];
    let x = 0, y = 0, lo = 0;
    while (lo <= MAX) {
      const hi = Math.min(ra[x][1], rb[y][1]);
      row.push([lo, hi, get(ra[x][2], rb[y][2])]);
      if (ra[x][1] === hi) x++;
      if (rb[y][1] === hi) y++;
      lo = hi + 1;
    }
    trans[id] = row;
  }
  return minimize(new DFA(trans, accept, 0));
}
const memo2 = new Map();
function memo(tag, a, b, f) {
  const k = tag + a.key + "\u0001" + (b ? b.key : "");
  let r = memo2.get(k);
  if (!r) { r = f(); if (memo2.size > 20000) memo2.clear(); memo2.set(k, r); }
  return r;
}
const inter = (a, b) => (a.key === b.key ? a : memo("&", a, b, () => product(a, b, (x, y) => x && y)));
const union = (a, b) => (a.key === b.key ? a : memo("|", a, b, () => product(a, b, (x, y) => x || y)));
const diff = (a, b) => memo("-", a, b, () => product(a, b, (x, y) => x && !y));
const not = (a) => memo("!", a, null, () => { const d = new DFA(a.trans, a.accept.map((x) => !x), a.start); return a.min ? intern(d) : minimize(d); });
const isEmpty = (a) => !minimize(a).accept.some(Boolean);
const subset = (a, b) => a.key === b.key || memo("<", a, b, () => ({ r: subset0(a, b) })).r;
function subset0(a, b) {
  const seen = new Set(), work = [];
  const push = (p, q) => { const k = p * 1e6 + q; if (seen.has(k)) return true; seen.add(k); if (a.accept[p] && !b.accept[q]) return false; work.push([p, q]); return true; };
  if (!push(a.start, b.start)) return false;
  while (work.length) {
    const [p, q] = work.pop();
    const ra = a.trans[p], rb = b.trans[q];
    let x = 0, y = 0, lo = 0;
    while (lo <= MAX) {
      const hi = Math.min(ra[x][1], rb[y][1]);
      if (!push(ra[x][2], rb[y][2])) return false;
      if (ra[x][1] === hi) x++;
      if (rb[y][1] === hi) y++;
      lo = hi + 1;
    }
  }
  return true;
}
const equal = (a, b) => a.key === b.key || (subset(a, b) && subset(b, a));
function toNFA(nfa, d, a, b) {
  const base = d.trans.map(() => nfa.add());
  nfa.eps(a, base[d.start]);
  d.trans.forEach((row, q) => {
    for (const [lo, hi, t] of row) if (!isDead(d, t)) nfa.chr(base[q], [[lo, hi]], base[t]);
    if (d.accept[q]) nfa.eps(base[q], b);
  });
  return base;
}
function isDead(d, q) {
  if (!d._dead) {
    const live = new Set(d.accept.map((x, k) => (x ? k : -1)).filter((k) => k >= 0));
    let ch2 = true;
    while (ch2) { ch2 = false; d.trans.forEach((row, k) => { if (!live.has(k) && row.some(([, , t]) => live.has(t))) { live.add(k); ch2 = true; } }); }
    d._dead = d.trans.map((_, k) => !live.has(k));
  }
  return d._dead[q];
}
function concat(...ds) {
  if (ds.length === 1) return ds[0];
  if (ds.length > 2) return ds.reduce((a, b) => concat(a, b));
  return memo(".", ds[0], ds[1], () => {
    const nfa = new NFA();
    const s = nfa.add(), m = nfa.add(), e = nfa.add();
    toNFA(nfa, ds[0], s, m);
    toNFA(nfa, ds[1], m, e);
    return determinize(nfa, [s], [e]);
  });
}
function star(d) {
  return memo("*", d, null, () => {
    const nfa = new NFA();
    const s = nfa.add(), e = nfa.add();
    const m = nfa.add();
    toNFA(nfa, d, s, m);
    nfa.eps(m, s); nfa.eps(s, e);
    return determinize(nfa, [s], [e]);
  });
}
const strMemo = new Map();
function sm(k, f) { let r = strMemo.get(k); if (!r) { r = f(); if (strMemo.size > 20000) strMemo.clear(); strMemo.set(k, r); } return r; }
const lit = (s) => sm("l" + s, () => lit0(s));
const lits = (a) => sm("L" + JSON.stringify(a), () => lits0(a));
const setKey = (set) => set.map((x) => x.join("-")).join(",");
function lit0(s) {
  const nfa = new NFA();
  let a = nfa.add();
  const st = a;
  for (let k = 0; k < s.length; k++) { const b = nfa.add(); nfa.chr(a, [[s.charCodeAt(k), s.charCodeAt(k)]], b); a = b; }
  return determinize(nfa, [st], [a]);
}
function lits0(arr) {
  const nfa = new NFA();
  const st = nfa.add(), e = nfa.add();
  for (const s of arr) { let a = st; for (let k = 0; k < s.length; k++) { const b = nfa.add(); nfa.chr(a, [[s.charCodeAt(k), s.charCodeAt(k)]], b); a = b; } nfa.eps(a, e); }
  return determinize(nfa, [st], [e]);
}
const reMemo = new Map();
// language of strings on which regex.test() is true
function reTest(src, flags = "") {
  const k = "t" + flags + "/" + src;
  if (!reMemo.has(k)) {
    let r = null;
    try {
      const { ast } = parseRegex(src, flags);
      const nfa = new NFA();
      const s = nfa.add(), a = nfa.add(), b = nfa.add(), e = nfa.add();
      if (!flags.includes("y")) nfa.chr(s, ANY, s);
      nfa.eps(s, a);
      buildRegex(nfa, ast, a, b, flags.includes("m"));
      nfa.eps(b, e);
      nfa.chr(e, ANY, e);
      r = determinize(nfa, [s], [e]);
    } catch (x) { if (!(x instanceof Unsupported)) throw x; }
    reMemo.set(k, r);
  }
  return reMemo.get(k);
}
// strings on which the regex can match with capture group `idx` in language d (upper bound)
function reCap(src, flags, idx, d) {
  const k = "c" + flags + "/" + src + "#" + idx + "#" + d.key;
  return sm(k, () => {
    const { ast } = parseRegex(src, flags);
    const rw = (n) => {
      switch (n.t) {
        case "seq": return { ...n, items: n.items.map(rw) };
        case "alt": return { ...n, alts: n.alts.map(rw) };
        case "rep": return n.max > 1 && hasCap(n.node, idx) ? n : { ...n, node: rw(n.node) };
        case "group": return n.cap === idx ? { t: "dfa", d: inter(astLang(n.node), d) } : { ...n, node: rw(n.node) };
        default: return n;
      }
    };
    const nfa = new NFA();
    const s = nfa.add(), a = nfa.add(), b = nfa.add(), e = nfa.add();
    nfa.chr(s, ANY, s);
    nfa.eps(s, a);
    buildRegex(nfa, rw(ast), a, b, flags.includes("m"));
    nfa.eps(b, e);
    nfa.chr(e, ANY, e);
    return determinize(nfa, [s], [e]);
  });
}
function hasCap(n, idx) { return n.t === "group" && n.cap === idx ? true : n.items ? n.items.some((x) => hasCap(x, idx)) : n.alts ? n.alts.some((x) => hasCap(x, idx)) : n.node ? hasCap(n.node, idx) : false; }
// all character sets of a pattern
function reSets(src, flags) {
  const out = [];
  (function walk(n) { if (n.t === "set") out.push(n.set); if (/bol|eol/.test(n.t)) out.push(NL); if (/wb/.test(n.t)) out.push(WORD); (n.items || n.alts || (n.node ? [n.node] : [])).forEach(walk); })(parseRegex(src, flags).ast);
  return out;
}
// language of the pattern itself, ignoring context assertions (used for captures)
function reExact(src, flags = "") {
  const k = "e" + flags + "/" + src;
  if (!reMemo.has(k)) {
    let r = null;
    try { r = astLang(parseRegex(src, flags).ast); } catch (x) { if (!(x instanceof Unsupported)) throw x; }
    reMemo.set(k, r);
  }
  return reMemo.get(k);
}
function stripAsserts(node) {
  switch (node.t) {
    case "bol": case "eol": case "wb": case "nwb": case "look": return { t: "seq", items: [] };
    case "seq": return { ...node, items: node.items.map(stripAsserts) };
    case "alt": return { ...node, alts: node.alts.map(stripAsserts) };
    case "group": case "rep": return { ...node, node: stripAsserts(node.node) };
    default: return node;
  }
}
function astLang(ast) {
  const nfa = new NFA();
  const a = nfa.add(), b = nfa.add();
  buildRegex(nfa, stripAsserts(ast), a, b, false);
  return determinize(nfa, [a], [b]);
}
// captures: [{index,name,lang,optional}]
function captures(src, flags = "") {
  const p = parseRegex(src, flags);
  const out = [];
  (function walk(n, opt) {
    switch (n.t) {
      case "seq": n.items.forEach((x) => walk(x, opt)); break;
      case "alt": n.alts.forEach((x) => walk(x, true)); break;
      case "rep": walk(n.node, opt || n.min === 0); break;
      case "look": walk(n.node, true); break;
      case "group":
        if (n.cap) { let l = null; try { l = astLang(n.node); } catch (e) { if (!(e instanceof Unsupported)) throw e; } out.push({ index: n.cap, name: n.name, lang: l, optional: opt }); }
        walk(n.node, opt);
        break;
    }
  })(p.ast, false);
  return out;
}
const ALL = reExact("[^]*");
const EMPTY = not(ALL) && minimize(not(ALL));
const EPS = lit("");
const NONEMPTY = diff(ALL, EPS);
// {y : exists x,z  xyz in L}
function factors(d) {
  return memo("F", d, null, () => {
    const nfa = new NFA();
    const s = nfa.add(), e = nfa.add();
    const base = d.trans.map(() => nfa.add());
    d.trans.forEach((row, q) => {
      if (isDead(d, q)) return;
      nfa.eps(s, base[q]); nfa.eps(base[q], e);
      for (const [lo, hi, t] of row) if (!isDead(d, t)) nfa.chr(base[q], [[lo, hi]], base[t]);
    });
    return determinize(nfa, [s], [e]);
  });
}
// {y : exists x in P, xy in L}
function suffixesAfter(d, p) {
  return memo("S", d, p, () => {
    const starts = new Set(), seen = new Set(), work = [[d.start, p.start]];
    seen.add(d.start + "," + p.start);
    while (work.length) {
      const [a, b] = work.pop();
      if (p.accept[b]) starts.add(a);
      const ra = d.trans[a], rb = p.trans[b];
      let x = 0, y = 0, lo = 0;
      while (lo <= MAX) {
        const hi = Math.min(ra[x][1], rb[y][1]);
        const k = ra[x][2] + "," + rb[y][2];
        if (!seen.has(k)) { seen.add(k); work.push([ra[x][2], rb[y][2]]); }
        if (ra[x][1] === hi) x++;
        if (rb[y][1] === hi) y++;
        lo = hi + 1;
      }
    }
    const nfa = new NFA();
    const s = nfa.add(), e = nfa.add();
    const base = toNFA(nfa, d, nfa.add(), e);
    for (const q of starts) nfa.eps(s, base[q]);
    return determinize(nfa, [s], [e]);
  });
}
function prefixes(d) {
  const acc = d.trans.map((_, q) => !isDead(d, q));
  return minimize(new DFA(d.trans, acc, d.start));
}
const WS_STAR = reExact("\\s*");
const TRIMMED = union(EPS, reExact("\\S(?:[^]*\\S)?"));
const trimImage = (d) => memo("T", d, null, () => inter(factors(d), TRIMMED));
const trimInverse = (m) => concat(WS_STAR, inter(m, TRIMMED), WS_STAR);
// relabel each char by f(set of chars) ; image/inverse of a char map
function mapInverse(d, f) {
  // strings s such that f(s) in d, f char->char
  const cuts = new Set();
  const trans = d.trans.map((row, q) => {
    const out = [];
    for (let c = 0; c <= MAX; c++) {
      const t = d.step(q, f(c));
      const l = out[out.length - 1];
      if (l && l[2] === t && l[1] === c - 1) l[1] = c;
      else out.push([c, c, t]);
    }
    return out;
  });
  void cuts;
  return minimize(new DFA(trans, d.accept, d.start));
}
const lowTab = (() => { const t = new Uint16Array(MAX + 1); for (let c = 0; c <= MAX; c++) { const s = String.fromCharCode(c).toLowerCase(); t[c] = s.length === 1 ? s.charCodeAt(0) : c; } return t; })();
const upTab = (() => { const t = new Uint16Array(MAX + 1); for (let c = 0; c <= MAX; c++) { const s = String.fromCharCode(c).toUpperCase(); t[c] = s.length === 1 ? s.charCodeAt(0) : c; } return t; })();
const caseInverse = (d, upper) => memo(upper ? "U" : "L", d, null, () => mapInverse(d, (c) => (upper ? upTab : lowTab)[c]));
function caseImage(d, upper) {
  return memo(upper ? "UI" : "LI", d, null, () => {
    const tab = upper ? upTab : lowTab;
    const nfa = new NFA();
    const s = nfa.add(), e = nfa.add();
    const base = d.trans.map(() => nfa.add());
    nfa.eps(s, base[d.start]);
    d.trans.forEach((row, q) => {
      if (isDead(d, q)) return;
      for (const [lo, hi, t] of row) {
        if (isDead(d, t)) continue;
        // ranges mostly fixed; collect mapped points
        let st = -1; const fixed = [], moved = [];
        for (let c = lo; c <= hi; c++) {
          if (tab[c] === c) { if (st < 0) st = c; } else { if (st >= 0) { fixed.push([st, c - 1]); st = -1; } moved.push([tab[c], tab[c]]); }
        }
        if (st >= 0) fixed.push([st, hi]);
        nfa.chr(base[q], normSet([...fixed, ...moved]), base[t]);
      }
      if (d.accept[q]) nfa.eps(base[q], e);
    });
    return determinize(nfa, [s], [e]);
  });
}
// image of replacing every char c in `set` by language repl(c) (repl groups: [[set, DFA]])
function replaceChars(d, groups) { d = minimize(d); return sm("rc" + d.key + groups.map(([s, x]) => setKey(s) + ">" + x.key).join(";"), () => replaceChars0(d, groups)); }
function replaceChars0(d, groups) {
  const nfa = new NFA();
  const s = nfa.add(), e = nfa.add();
  const base = d.trans.map(() => nfa.add());
  nfa.eps(s, base[d.start]);
  const keep = negSet(groups.flatMap(([set]) => set.map((x) => [...x])));
  d.trans.forEach((row, q) => {
    if (isDead(d, q)) return;
    if (d.accept[q]) nfa.eps(base[q], e);
    for (const [lo, hi, t] of row) {
      if (isDead(d, t)) continue;
      const k = interSet(keep, [[lo, hi]]);
      if (k.length) nfa.chr(base[q], k, base[t]);
      for (const [set, dd] of groups) if (interSet(set, [[lo, hi]]).length) toNFA(nfa, dd, base[q], base[t]);
    }
  });
  return determinize(nfa, [s], [e]);
}
function chars(d) { // set of chars occurring in some accepted word
  let out = [];
  d.trans.forEach((row, q) => { if (!isDead(d, q)) for (const [lo, hi, t] of row) if (!isDead(d, t)) out.push([lo, hi]); });
  return normSet(out.map((x) => [...x]));
}
// restrict chars: words without any char of set
const without = (set) => sm("wo" + setKey(set), () => without0(set));
const without0 = (set) => { const n = new NFA(); const a = n.add(); n.chr(a, negSet(set), a); return determinize(n, [a], [a]); };
const containing = (set) => not(without(set));
function witness(d) {
  // shortest accepted, preferring printable ascii
  const q0 = d.start;
  if (d.accept[q0]) return "";
  const prev = new Map([[q0, null]]), work = [q0];
  const pick = (lo, hi) => { for (const p of [97, 48, 65, 45, 32]) if (lo <= p && p <= hi) return p; if (lo < 33 && hi >= 33) return 33; return lo; };
  for (let k = 0; k < work.length; k++) {
    const q = work[k];
    for (const [lo, hi, t] of d.trans[q]) {
      if (prev.has(t) || isDead(d, t)) continue;
      prev.set(t, [q, pick(lo, hi)]);
      if (d.accept[t]) {
        let s = "", c = t;
        while (prev.get(c)) { s = String.fromCharCode(prev.get(c)[1]) + s; c = prev.get(c)[0]; }
        return s;
      }
      work.push(t);
    }
  }
  return null;
}
function finiteWords(d, limit = 32) {
  // all words if finite and <= limit, else null
  const out = [];
  let ok = true;
  (function rec(q, s, depth) {
    if (!ok || isDead(d, q)) return;
    if (depth > 64 || out.length > limit) { ok = false; return; }
    if (d.accept[q]) out.push(s);
    for (const [lo, hi, t] of d.trans[q]) {
      if (isDead(d, t)) continue;
      if (hi - lo > limit) { ok = false; return; }
      for (let c = lo; c <= hi && ok; c++) rec(t, s + String.fromCharCode(c), depth + 1);
    }
  })(d.start, "", 0);
  return ok && out.length <= limit ? out : null;
}
const lenBetween = (lo, hi) => {
  if (lo > 400 || (hi !== Infinity && hi > 400)) return null;
  const k = `[^]{${lo},${hi === Infinity ? "" : hi}}`;
  try { return reExact2(k, lo, hi); } catch { return null; }
};
const lenMemo = new Map();
function reExact2(k, lo, hi) {
  if (!lenMemo.has(k)) {
    const n = new NFA();
    let a = n.add(); const st = a; const acc = [];
    if (lo === 0) acc.push(a);
    const top = hi === Infinity ? lo : hi;
    for (let i = 1; i <= top; i++) { const b = n.add(); n.chr(a, ANY, b); a = b; if (i >= lo) acc.push(b); }
    if (hi === Infinity) n.chr(a, ANY, a);
    lenMemo.set(k, determinize(n, [st], acc));
  }
  return lenMemo.get(k);
}
// languages of single code points (UTF-16): one unit, or a surrogate pair
function cpLang(ranges) {
  const k = "cp" + setKey(ranges);
  return sm(k, () => {
    const nfa = new NFA();
    const s = nfa.add(), e = nfa.add();
    const pair = (h1, h2, l1, l2) => { const m = nfa.add(); nfa.chr(s, [[h1, h2]], m); nfa.chr(m, [[l1, l2]], e); };
    for (const [a0, b0] of ranges) {
      if (a0 <= 0xffff) nfa.chr(s, [[a0, Math.min(b0, 0xffff)]], e);
      if (b0 > 0xffff) {
        const a = Math.max(a0, 0x10000) - 0x10000, b = b0 - 0x10000;
        const ha = 0xd800 + (a >> 10), la = 0xdc00 + (a & 1023), hb = 0xd800 + (b >> 10), lb = 0xdc00 + (b & 1023);
        if (ha === hb) pair(ha, ha, la, lb);
        else { pair(ha, ha, la, 0xdfff); if (hb - ha > 1) pair(ha + 1, hb - 1, 0xdc00, 0xdfff); pair(hb, hb, 0xdc00, lb); }
      }
    }
    return determinize(nfa, [s], [e]);
  });
}
function cpRanges(d) {
  const out = [];
  for (const [a, b, t] of d.trans[d.start]) {
    if (d.accept[t]) out.push([a, b]);
    const lo = Math.max(a, 0xd800), hi = Math.min(b, 0xdbff);
    if (lo > hi) continue;
    const ls = d.trans[t].filter(([x, y, u]) => d.accept[u] && y >= 0xdc00 && x <= 0xdfff).map(([x, y]) => [Math.max(x, 0xdc00), Math.min(y, 0xdfff)]);
    if (!ls.length) continue;
    if (ls.length === 1 && ls[0][0] === 0xdc00 && ls[0][1] === 0xdfff) { out.push([0x10000 + ((lo - 0xd800) << 10), 0x10000 + ((hi - 0xd800) << 10) + 1023]); continue; }
    for (let h = lo; h <= hi; h++) for (const [x, y] of ls) out.push([0x10000 + ((h - 0xd800) << 10) + (x - 0xdc00), 0x10000 + ((h - 0xd800) << 10) + (y - 0xdc00)]);
  }
  out.sort((x, y) => x[0] - y[0]);
  const r = [];
  for (const x of out) { const l = r[r.length - 1]; if (l && x[0] <= l[1] + 1) l[1] = Math.max(l[1], x[1]); else r.push([...x]); }
  return r;
}
const ANYCP = cpLang([[0, 0x10ffff]]);
module.exports = { setKey, reCap, reSets, interSet, cpLang, cpRanges, ANYCP, parseRegex, reTest, reExact, captures, astLang, stripAsserts, ALL, EMPTY, EPS, NONEMPTY, inter, union, diff, not, isEmpty,
  subset, equal, concat, star, lit, lits, factors, suffixesAfter, prefixes, trimImage, trimInverse, caseInverse,
  caseImage, replaceChars, chars, without, containing, witness, finiteWords, lenBetween, setOf, normSet, negSet,
  interSet, inSet, setSize, SPACE, NL, WORD, DIGIT, ANY, MAX, Unsupported, NFA, buildRegex, DFA, minimize, TRIMMED };

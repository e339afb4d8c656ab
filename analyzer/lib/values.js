"use strict";
// Abstract values, symbol facts, program states and their joins.
const L = require("./lang");
const PMap = require("./pmap");

// ---- type bits ----
const T = { U: 1, N: 2, B: 4, D: 8, S: 16, F: 32, A: 64, O: 128, Y: 256, G: 512 };
const ANYT = 1023;
const OBJT = T.F | T.A | T.O;

const U = { k: "u" }, NULL = { k: "n" }, TRUE = { k: "b", v: true }, FALSE = { k: "b", v: false }, ABSENT = { k: "x" };
const bool = (b) => (b ? TRUE : FALSE);
const num = (v) => ({ k: "d", v });
const str = (s) => ({ k: "s", p: s === "" ? [] : [s] });
const obj = (id) => ({ k: "o", id });
const symv = (id) => ({ k: "y", id });
const nat = (name) => ({ k: "nat", name });
const jssym = (name) => ({ k: "S", name });
const isConst = (v) => v.k === "u" || v.k === "n" || v.k === "b" || v.k === "d" || (v.k === "s" && v.p.every((x) => typeof x === "string"));
const litOf = (v) => (v.k === "s" && v.p.every((x) => typeof x === "string") ? v.p.join("") : null);

function segKey(s) {
  if (s.k === "1") return key(s.v);
  if (s.k === "*") return "*(" + s.alts.map((a) => a.map(segKey).join(",")).join("|") + ")";
  if (s.k === "alt") return "?" + s.c + "(" + s.a.map(segKey).join(",") + ":" + s.b.map(segKey).join(",") + ")";
  return "??";
}
function partKey(p) {
  if (typeof p === "string") return JSON.stringify(p);
  if (p.sym !== undefined) return "$" + p.sym;
  return "join<" + JSON.stringify(p.sep) + ">[" + p.join.map(segKey).join(",") + "]";
}
function key(v) {
  switch (v.k) {
    case "u": return "undefined";
    case "n": return "null";
    case "x": return "<absent>";
    case "b": return String(v.v);
    case "d": return Object.is(v.v, -0) ? "-0" : String(v.v);
    case "s": return "s:" + v.p.map(partKey).join("+");
    case "o": return "#" + v.id;
    case "y": return "$" + v.id;
    case "i": return "(" + v.c + "?" + key(v.a) + ":" + key(v.b) + ")";
    case "nat": return "nat:" + v.name;
    case "S": return "sym:" + v.name;
    case "mod": return "mod:" + v.file;
    case "orig": return "<orig>";
    case "short": return "<short>";
    case "pair": return "<" + key(v.a) + "=>" + key(v.b) + ">";
  }
  throw new Error("key " + JSON.stringify(v));
}
const same = (a, b) => a === b || key(a) === key(b);
function mkIte(c, a, b) {
  if (same(a, b)) return a;
  return { k: "i", c, a, b };
}
// merge adjacent literals, canonicalise single-symbol strings
function mkStr(parts) {
  const out = [];
  for (const p of parts) {
    if (p === "") continue;
    const l = out[out.length - 1];
    if (typeof p === "string" && typeof l === "string") out[out.length - 1] = l + p;
    else out.push(p);
  }
  if (out.length === 1 && out[0].sym !== undefined) return symv(out[0].sym);
  return { k: "s", p: out };
}
const partsOf = (v) => (v.k === "s" ? v.p : v.k === "y" ? [{ sym: v.id }] : null);

// ---- symbols: global registry ----
class Symbols {
  constructor() { this.info = new Map(); this.n = 0; }
  fresh(origin, base = {}, extra = {}) {
    const id = "v" + ++this.n;
    this.info.set(id, { origin, base: { ty: ANYT, ...base }, ...extra });
    return symv(id);
  }
  named(id, origin, base = {}, extra = {}) {
    if (!this.info.has(id)) this.info.set(id, { origin, base: { ty: ANYT, ...base }, ...extra });
    return symv(id);
  }
  get(id) { return this.info.get(id); }
}

// ---- facts ----
// { ty, lang?, lo?, hi?, nan?(false=excluded), eq?, tr?, cls?(yes key), ncls?: [keys], ne?: [keys] }
function joinFact(a, b) {
  if (a === b) return a;
  const r = { ty: a.ty | b.ty };
  const fin = (f) => (f.eq !== undefined && f.eq.k === "s" && litOf(f.eq) != null ? { ...f, lang: L.lit(litOf(f.eq)) } : f.eq !== undefined && f.eq.k === "d" ? { ...f, lo: f.eq.v, hi: f.eq.v, nan: Number.isNaN(f.eq.v) ? undefined : false } : f);
  const A = fin(a), B = fin(b);
  const sa = A.ty & T.S, sb = B.ty & T.S;
  if (sa && sb) { if (A.lang && B.lang) r.lang = L.union(A.lang, B.lang); }
  else if (sa && A.lang) r.lang = A.lang;
  else if (sb && B.lang) r.lang = B.lang;
  const da = A.ty & T.D, db = B.ty & T.D;
  if (da && db) {
    if (A.lo !== undefined && B.lo !== undefined) r.lo = Math.min(A.lo, B.lo);
    if (A.hi !== undefined && B.hi !== undefined) r.hi = Math.max(A.hi, B.hi);
    if (A.nan === false && B.nan === false) r.nan = false;
    if (A.int && B.int) r.int = true;
  } else { const X = da ? A : db ? B : null; if (X) { for (const k of ["lo", "hi", "nan", "int"]) if (X[k] !== undefined) r[k] = X[k]; } }
  if (a.eq !== undefined && b.eq !== undefined && same(a.eq, b.eq)) r.eq = a.eq;
  if (a.tr !== undefined && a.tr === b.tr) r.tr = a.tr;
  if (a.cls !== undefined && a.cls === b.cls) r.cls = a.cls;
  if (a.ncls && b.ncls) { const x = a.ncls.filter((k) => b.ncls.includes(k)); if (x.length) r.ncls = x; }
  if (a.ne && b.ne) { const x = a.ne.filter((k) => b.ne.includes(k)); if (x.length) r.ne = x; }
  return r;
}
function meetFact(a, b) {
  const r = { ...a };
  r.ty = a.ty & b.ty;
  if (a.lang && b.lang) r.lang = L.inter(a.lang, b.lang); else if (b.lang) r.lang = b.lang;
  if (b.lo !== undefined) r.lo = a.lo === undefined ? b.lo : Math.max(a.lo, b.lo);
  if (b.hi !== undefined) r.hi = a.hi === undefined ? b.hi : Math.min(a.hi, b.hi);
  if (b.nan === false) r.nan = false;
  if (b.int) r.int = true;
  if (b.eq !== undefined) r.eq = b.eq;
  if (b.tr !== undefined) r.tr = b.tr;
  if (b.cls !== undefined) r.cls = b.cls;
  if (b.ncls) r.ncls = [...new Set([...(a.ncls || []), ...b.ncls])];
  if (b.ne) r.ne = [...new Set([...(a.ne || []), ...b.ne])];
  return r;
}
function factKey(f) {
  return [f.ty, f.lang ? f.lang.key : "", f.lo, f.hi, f.nan, f.int, f.eq !== undefined ? key(f.eq) : "", f.tr, f.cls, (f.ncls || []).slice().sort().join(), (f.ne || []).slice().sort().join()].join("~");
}
function normFact(f) {
  // drop impossible parts; returns null if contradictory
  let ty = f.ty;
  if (f.lang && (ty & T.S) && !f.lang.accept.some(Boolean)) ty &= ~T.S;
  if (f.lo !== undefined && f.hi !== undefined && f.lo > f.hi && (ty & T.D) && f.nan === false) ty &= ~T.D;
  if (f.tr === true) ty &= ~(T.U | T.N);
  if (f.tr === false) ty &= ~(OBJT | T.Y);
  if (ty !== f.ty) f = { ...f, ty };
  if (!f.ty) return null;
  if (f.eq !== undefined) {
    const t = tyOfConst(f.eq);
    if (t && !(t & f.ty)) return null;
    const l = litOf(f.eq);
    if (l != null && f.lang && !f.lang.accepts(l)) return null;
  } else {
    if (f.ty === T.U) f = { ...f, eq: U };
    else if (f.ty === T.N) f = { ...f, eq: NULL };
    else if (f.ty === T.B && f.tr !== undefined) f = { ...f, eq: bool(f.tr) };
    else if (f.ty === T.D && f.lo !== undefined && f.lo === f.hi && f.nan === false) f = { ...f, eq: num(f.lo) };
  }
  return f;
}
function tyOfConst(v) {
  switch (v.k) {
    case "u": return T.U; case "n": return T.N; case "b": return T.B; case "d": return T.D; case "s": return T.S; case "S": return T.Y;
  }
  return 0;
}

// ---- states ----
let condCounter = 0;
class State {
  constructor(base) {
    this.base = base; // Map of base heap
    this.heap = new PMap();
    this.facts = new PMap();
    this.conds = new PMap();
    this.restore = new PMap();
    this.symProps = new Map();
    this.trace = null;
    this.traceKey = "";
    this.impr = new Set();
    this.timers = [];
    this.epoch = 0;
    this.extra = {};
  }
  clone() {
    const s = new State(this.base);
    s.heap = new PMap(this.heap); s.facts = new PMap(this.facts); s.conds = new PMap(this.conds); s.restore = new PMap(this.restore);
    s.symProps = new Map(this.symProps); s.trace = this.trace; s.traceKey = this.traceKey; s.impr = new Set(this.impr);
    s._fc = this._fc; s.timers = this.timers.slice(); s.epoch = this.epoch; s.extra = { ...this.extra };
    return s;
  }
  get(id) { return this.heap.get(id) ?? this.base.get(id); }
  set(id, o) { this.heap.set(id, o); }
  event(ev) {
    this.trace = { ev, prev: this.trace };
    this.traceKey += "|" + ev.name + (ev.tkey ? ":" + ev.tkey : "");
  }
  events() { const out = []; for (let t = this.trace; t; t = t.prev) out.push(t.ev); return out.reverse(); }
}
const cloneObj = (o) => {
  const n = { ...o };
  if (o.layers) n.layers = o.layers.map((l) => (l instanceof Map ? new Map(l) : l));
  if (o.vars) n.vars = new Map(o.vars);
  if (o.segs) n.segs = o.segs.slice();
  return n;
};

function joinSegs(c, a, b) {
  let p = 0;
  while (p < a.length && p < b.length && segKey(a[p]) === segKey(b[p])) p++;
  let q = 0;
  while (q < a.length - p && q < b.length - p && segKey(a[a.length - 1 - q]) === segKey(b[b.length - 1 - q])) q++;
  if (p === a.length && p === b.length) return a;
  const ma = a.slice(p, a.length - q), mb = b.slice(p, b.length - q);
  if (ma.length === 1 && mb.length === 1 && ma[0].k === "1" && mb[0].k === "1")
    return [...a.slice(0, p), { k: "1", v: mkIte(c, ma[0].v, mb[0].v) }, ...a.slice(a.length - q)];
  return [...a.slice(0, p), { k: "alt", c, a: ma, b: mb }, ...a.slice(a.length - q)];
}
function entryKey(e) { return e === undefined ? "-" : e.acc ? "acc:" + (e.acc.get ? key(e.acc.get) : "") + "/" + (e.acc.set ? key(e.acc.set) : "") : key(e.v) + (e.ne ? "!" : ""); }
function joinLayer(c, a, b) {
  const r = new Map();
  for (const k of new Set([...a.keys(), ...b.keys()])) {
    const x = a.get(k), y = b.get(k);
    if (x && y && (x === y || entryKey(x) === entryKey(y))) { r.set(k, x); continue; }
    if ((x && x.acc) || (y && y.acc)) { r.set(k, x || y); continue; }
    r.set(k, { ...(x || y), v: mkIte(c, x ? x.v : ABSENT, y ? y.v : ABSENT) });
  }
  return r;
}
function joinObj(c, a, b) {
  if (a === b) return a;
  const n = { ...a };
  if (a.vars) {
    n.vars = new Map();
    for (const k of new Set([...a.vars.keys(), ...b.vars.keys()])) {
      const x = a.vars.get(k) ?? U, y = b.vars.get(k) ?? U;
      n.vars.set(k, mkIte(c, x, y));
    }
  }
  if (a.segs || b.segs) n.segs = joinSegs(c, a.segs || [], b.segs || []);
  if (a.layers) {
    if (a.layers.length === b.layers.length && a.layers.every((l, i) => (l instanceof Map) === (b.layers[i] instanceof Map) && (l instanceof Map || l.spread === b.layers[i].spread)))
      n.layers = a.layers.map((l, i) => (l instanceof Map ? joinLayer(c, l, b.layers[i]) : l));
    else {
      // different shape: conditional shape
      n.layers = [{ cond: c, a: a.layers, b: b.layers }];
    }
  }
  for (const k of ["pstate", "pv", "lastIndex", "frozen", "proto"]) {
    if (a[k] === b[k]) continue;
    const va = a[k], vb = b[k];
    if (va && vb && va.k && vb.k) n[k] = mkIte(c, va, vb);
    else if (va && va.k || vb && vb.k) n[k] = mkIte(c, va || U, vb || U);
    else if (k === "pstate") n[k] = { ite: c, a: va, b: vb };
    else n[k] = va; // flags
  }
  return n;
}
let joinCount = 0;
// condition -> joins whose two sides fix it (reduction of the disjunctive domain)
const watchers = new Map();
function joinStates(a, b, factDefault) {
  const c = "j" + ++condCounter;
  joinCount++;
  const s = new State(a.base);
  s.trace = a.trace; s.traceKey = a.traceKey; s.timers = a.timers; s.epoch = Math.max(a.epoch, b.epoch); s.extra = a.extra;
  s.heap = new PMap(a.heap); s.facts = new PMap(a.facts); s.conds = new PMap(a.conds); s.restore = new PMap(a.restore);
  PMap.diff(a.heap, b.heap, (id, va, vb) => {
    const x = va ?? a.base.get(id), y = vb ?? b.base.get(id);
    s.heap.set(id, x === undefined ? y : y === undefined ? x : joinObj(c, x, y));
  });
  const rt = { facts: new Map(), conds: new Map(), impr: a.impr }, rf = { facts: new Map(), conds: new Map(), impr: b.impr };
  PMap.diff(a.facts, b.facts, (id, va, vb) => {
    const x = va ?? factDefault(id), y = vb ?? factDefault(id);
    if (x === y) { s.facts.set(id, x); return; }
    if (factKey(x) === factKey(y)) { s.facts.set(id, x); return; }
    s.facts.set(id, joinFact(x, y));
    rt.facts.set(id, x); rf.facts.set(id, y);
  });
  PMap.diff(a.conds, b.conds, (k, x, y) => {
    s.conds.delete(k);
    if (x !== undefined) rt.conds.set(k, x);
    if (y !== undefined) rf.conds.set(k, y);
  });
  rt.joins = []; rf.joins = [];
  PMap.diff(a.restore, b.restore, (k, x, y) => {
    // joins known to one side only say nothing about the other side
    if (x && y) { s.restore.set(k, x.weak ? x : y); return; }
    s.restore.delete(k);
    (x ? rt : rf).joins.push([k, x || y]);
  });
  for (const k of new Set([...a.symProps.keys(), ...b.symProps.keys()])) {
    const x = a.symProps.get(k), y = b.symProps.get(k);
    s.symProps.set(k, x && y ? mkIte(c, x, y) : mkIte(c, x || { k: "orig" }, y || { k: "orig" }));
  }
  for (const x of a.impr) s.impr.add(x);
  for (const x of b.impr) s.impr.add(x);
  s.restore.set(c, { t: rt, f: rf });
  for (const k of new Set([...rt.conds.keys(), ...rf.conds.keys()])) { let w = watchers.get(k); if (!w) watchers.set(k, (w = [])); w.push(c); }
  s.lastJoin = c;
  return s;
}
const newCond = (tag) => tag + ++condCounter;

module.exports = { T, ANYT, OBJT, U, NULL, TRUE, FALSE, ABSENT, bool, num, str, obj, symv, nat, jssym, isConst, litOf, segKey, partKey, key, same,
  mkIte, mkStr, partsOf, Symbols, joinFact, meetFact, factKey, normFact, tyOfConst, State, cloneObj, joinSegs, joinObj, joinStates, newCond, watchers };

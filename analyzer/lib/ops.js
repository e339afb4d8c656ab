"use strict";
// Derived-symbol operators: forward facts and backward refinement.
const L = require("./lang");
const V = require("./values");
const Engine = require("./engine");
const { T, ANYT, U, NULL, bool, num, str, symv, litOf, isConst, key } = V;
const NUMLANG = L.reExact("(?:NaN|-?Infinity|-?(?:0|[1-9][0-9]*)(?:\\.[0-9]+)?(?:e[+-][0-9]+)?)");
const INTLANG = L.reExact("-?(?:0|[1-9][0-9]*)");
const P = Engine.prototype;
const NOTCTRL = L.without(L.setOf ? [[0, 31]] : [[0, 31]]);

function lenRange(d) {
  // [min,max] word length of a language; max Infinity when cyclic
  if (L.isEmpty(d)) return [0, -1];
  const w = L.witness(d);
  const n = d.trans.length;
  // co-reachable states
  const rev = d.trans.map(() => []);
  d.trans.forEach((row, q) => row.forEach((t) => rev[t[2] !== undefined ? t[2] : t].push(q)));
  const co = new Set();
  const stack = [];
  d.accept.forEach((a, q) => { if (a) { co.add(q); stack.push(q); } });
  while (stack.length) for (const p of rev[stack.pop()]) if (!co.has(p)) { co.add(p); stack.push(p); }
  const memo = new Map(), on = new Set();
  let inf = false;
  const dfs = (q) => {
    if (inf) return 0;
    if (on.has(q)) { inf = true; return 0; }
    if (memo.has(q)) return memo.get(q);
    on.add(q);
    let m = d.accept[q] ? 0 : -Infinity;
    for (const t of d.trans[q]) { const r = t[2] !== undefined ? t[2] : t; if (co.has(r)) m = Math.max(m, 1 + dfs(r)); if (inf) break; }
    on.delete(q);
    memo.set(q, m);
    return m;
  };
  void n;
  const hi = dfs(d.start);
  return [w.length, inf ? Infinity : hi];
}
const lrMemo = new Map();
const lenR = (d) => { if (!lrMemo.has(d.key)) lrMemo.set(d.key, lenRange(d)); return lrMemo.get(d.key); };

function mkOps(e) {
  e.lenRange = lenR;
  const langArg = (v, st) => e.langOf(v, st);
  const tyOf = (v, st) => e.typeMask(e.resolve(v, st), st);
  const rng = (v, st) => {
    v = e.resolve(v, st);
    if (v.k === "d") return Number.isNaN(v.v) ? { nan: true, lo: 0, hi: 0 } : { lo: v.v, hi: v.v, nan: false, int: Number.isInteger(v.v) };
    if (v.k === "y") { const f = e.fact(v.id, st); if (f.ty === T.D) return { lo: f.lo ?? -Infinity, hi: f.hi ?? Infinity, nan: f.nan === false ? false : true, int: !!f.int }; }
    if (v.k === "i") { const a = rng(v.a, st), b = rng(v.b, st); return { lo: Math.min(a.lo, b.lo), hi: Math.max(a.hi, b.hi), nan: a.nan || b.nan, int: a.int && b.int }; }
    return { lo: -Infinity, hi: Infinity, nan: true };
  };
  const mk = (lo, hi, nan, int) => { const f = { ty: T.D }; if (Number.isFinite(lo)) f.lo = lo; if (Number.isFinite(hi)) f.hi = hi; if (nan === false) f.nan = false; if (int) f.int = true; return f; };
  const arith2 = (f) => ({ fact(args, st) {
    const a = rng(args[0], st), b = rng(args[1], st);
    const c = f(a.lo, a.hi, b.lo, b.hi);
    if (c.some((x) => Number.isNaN(x))) return { ty: T.D };
    const finite = [a.lo, a.hi, b.lo, b.hi].every(Number.isFinite);
    return mk(Math.min(...c), Math.max(...c), a.nan === false && b.nan === false && finite ? false : undefined, a.int && b.int);
  } });
  const mono = (f, int) => ({ fact(args, st) { const a = rng(args[0], st); return mk(f(a.lo), f(a.hi), a.nan === false ? false : undefined, int || a.int); } });
  // keep the code points whose image satisfies the numeric fact
  const backCp = (v, fn, f, st) => {
    const lo = f.eq && f.eq.k === "d" ? f.eq.v : f.lo ?? -Infinity, hi = f.eq && f.eq.k === "d" ? f.eq.v : f.hi ?? Infinity;
    const ne = new Set((f.ne || []).map(Number));
    if (lo === -Infinity && hi === Infinity && !ne.size) return true;
    const cur = langArg(v, st), out = [];
    if (!L.subset(cur, L.ANYCP)) return true;
    for (const [a, b] of L.cpRanges(cur)) for (let c = a; c <= b; c++) { const x = fn(c); if (x < lo || x > hi || ne.has(x)) continue; const l = out[out.length - 1]; if (l && l[1] === c - 1) l[1] = c; else out.push([c, c]); }
    return e.refineStr(st, v, L.cpLang(out));
  };
  const ops = {
    tostr: {
      fact([v], st) {
        const t = tyOf(v, st);
        let d = L.EMPTY;
        if (t & T.U) d = L.union(d, L.lit("undefined"));
        if (t & T.N) d = L.union(d, L.lit("null"));
        if (t & T.B) d = L.union(d, L.lits(["true", "false"]));
        if (t & T.D) { const r = rng(v, st); d = L.union(d, r.int && r.nan === false && Math.abs(r.lo) < 1e21 && Math.abs(r.hi) < 1e21 ? INTLANG : NUMLANG); }
        if (t & T.S) d = L.union(d, langArg(v, st));
        if (t & (T.F | T.A | T.O | T.Y | T.G)) d = L.ALL;
        return { ty: T.S, lang: d };
      },
      back([v], f, st) {
        if (!f.lang) return true;
        v = e.resolve(v, st);
        if (v.k !== "y") return true;
        const cur = e.fact(v.id, st);
        let ty = cur.ty;
        if ((ty & T.U) && !f.lang.accepts("undefined")) ty &= ~T.U;
        if ((ty & T.N) && !f.lang.accepts("null")) ty &= ~T.N;
        if ((ty & T.B) && !f.lang.accepts("true") && !f.lang.accepts("false")) ty &= ~T.B;
        if ((ty & T.D) && L.isEmpty(L.inter(f.lang, NUMLANG))) ty &= ~T.D;
        const p = { ty };
        if (ty & T.S) p.lang = f.lang;
        return e.refine(st, v.id, p);
      },
    },
    capture: {
      back([v, re, ix], f, st) {
        if (!re || !f.lang || f.ty & ~T.S) return true;
        const r = litOf(re), i = r.indexOf("/");
        let d; try { d = L.reCap(r.slice(i + 1), r.slice(0, i), ix.v, f.lang); } catch { return true; }
        return e.refineStr(st, v, d);
      },
    },
    typeof: {
      fact([v], st) { return { ty: T.S, lang: L.lits(e.typeNames(tyOf(v, st))) }; },
      back([v], f, st) {
        if (!f.lang) return true;
        v = e.resolve(v, st);
        if (v.k !== "y") return true;
        let m = 0;
        const map = { undefined: T.U, object: T.N | T.A | T.O, boolean: T.B, number: T.D, string: T.S, function: T.F, symbol: T.Y, bigint: T.G };
        for (const k of Object.keys(map)) if (f.lang.accepts(k)) m |= map[k];
        return e.refine(st, v.id, { ty: m });
      },
    },
    len: {
      fact([v], st) { const [lo, hi] = lenR(langArg(v, st)); return mk(lo, hi, false, true); },
      back([v], f, st) {
        const lo = f.eq && f.eq.k === "d" ? f.eq.v : f.lo ?? 0, hi = f.eq && f.eq.k === "d" ? f.eq.v : f.hi ?? Infinity;
        if (lo > 80 || (Number.isFinite(hi) && hi > 80)) return true;
        if (lo <= 0 && !Number.isFinite(hi)) return true;
        return e.refineStr(st, v, L.lenBetween(Math.max(0, lo), hi));
      },
    },
    alen: { fact() { return { ty: T.D, nan: false, int: true }; } },
    trim: {
      fact([v], st) { return { ty: T.S, lang: L.trimImage(langArg(v, st)) }; },
      back([v], f, st) { return f.lang ? e.refineStr(st, v, L.trimInverse(f.lang)) : true; },
    },
    lower: {
      fact([v], st) { return { ty: T.S, lang: L.caseImage(langArg(v, st), false) }; },
      back([v], f, st) { return f.lang ? e.refineStr(st, v, L.caseInverse(f.lang, false)) : true; },
    },
    upper: {
      fact([v], st) { return { ty: T.S, lang: L.caseImage(langArg(v, st), true) }; },
      back([v], f, st) { return f.lang ? e.refineStr(st, v, L.caseInverse(f.lang, true)) : true; },
    },
    charOf: { fact([v], st) { const cs = L.chars(langArg(v, st)); return { ty: T.S, lang: L.inter(L.ANYCP, L.without(L.negSet(cs))) }; } },
    cp: { // code point of a one-code-point string
      fact([v], st) { const r = L.cpRanges(langArg(v, st)); if (!r.length) return { ty: T.D }; return mk(r[0][0], r[r.length - 1][1], false, true); },
      back([v], f, st) { return backCp(v, (c) => c, f, st); },
    },
    band: {
      fact([a, b], st) { const r = rng(b, st); return r.lo === r.hi && r.lo >= 0 ? mk(0, r.lo, false, true) : { ty: T.D, nan: false, int: true }; },
      back([a, b], f, st) {
        const x = e.resolve(a, st), y = e.resolve(b, st);
        if (x.k !== "y" || y.k !== "d") return true;
        const d = e.syms.get(x.id).derive;
        return d && d.op === "cp" ? backCp(d.args[0], (c) => c & y.v, f, st) : true;
      },
    },
    code: { // char code of a one-character string
      fact([v], st) { const cs = L.chars(langArg(v, st)); if (!cs.length) return { ty: T.D }; return mk(cs[0][0], cs[cs.length - 1][1], false, true); },
      back([v], f, st) {
        const lo = f.eq && f.eq.k === "d" ? f.eq.v : f.lo ?? 0, hi = f.eq && f.eq.k === "d" ? f.eq.v : f.hi ?? 65535;
        const [a, b] = lenR(langArg(v, st));
        if (a !== 1 || b !== 1) return true;
        let s = [[Math.max(0, lo), Math.min(65535, hi)]];
        for (const x of f.ne || []) { const c = Number(x); if (Number.isInteger(c) && c >= 0 && c <= 65535) s = L.interSet(s, L.negSet([[c, c]])); }
        return e.refineStr(st, v, L.inter(L.lenBetween(1, 1), L.without(L.negSet(s))));
      },
    },
    charAt0: { fact([v, i], st) { void i; const cs = L.chars(langArg(v, st)); return { ty: T.S | T.U, lang: L.inter(L.lenBetween(1, 1), L.without(L.negSet(cs))) }; } },
    replaceC: { // global per-character replacement; groups live on the symbol
      fact([v, id], st) { return { ty: T.S, lang: L.replaceChars(langArg(v, st), e.replTable.get(litOf(id)).map((g) => [g.set, g.lang])) }; },
    },
    factor: { fact([v], st) { return { ty: T.S, lang: L.factors(langArg(v, st)) }; } },
    splitElem: {
      fact([v, sep], st) {
        const l = litOf(sep);
        const notSep = l.startsWith("re:") ? L.not(L.reTest(l.slice(3).replace(/\/[a-z]*$/, ""), "") || L.EMPTY) : l === "" ? L.lenBetween(1, 1) : L.not(containsLit(l));
        return { ty: T.S, lang: L.inter(L.factors(langArg(v, st)), notSep) };
      },
    },
    chars: { // string over the characters of the arguments
      fact(args, st) {
        let cs = [];
        for (const a of args) cs.push(...L.chars(langArg(a, st)).map((x) => [...x]));
        return { ty: T.S, lang: L.without(L.negSet(L.normSet(cs))) };
      },
    },
    neg: { fact([v], st) { const a = rng(v, st); return mk(-a.hi, -a.lo, a.nan === false ? false : undefined, a.int); }, back([v], f, st) { const p = { ty: ANYT }; if (f.lo !== undefined) p.hi = -f.lo; if (f.hi !== undefined) p.lo = -f.hi; if (f.nan === false) p.nan = false; return e.refineV(st, v, p); } },
    abs: {
      fact([v], st) { const a = rng(v, st); const lo = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; return mk(lo, Math.max(Math.abs(a.lo), Math.abs(a.hi)), a.nan === false ? false : undefined, a.int); },
      back([v], f, st) { const p = { ty: ANYT }; if (f.hi !== undefined) { p.hi = f.hi; p.lo = -f.hi; } if (f.nan === false) p.nan = false; return e.refineV(st, v, p); },
    },
    sign: { fact([v], st) { const a = rng(v, st); return mk(Math.sign(a.lo), Math.sign(a.hi), a.nan === false ? false : undefined, true); } },
    add: arith2((a, b, c, d) => [a + c, b + d]),
    sub: arith2((a, b, c, d) => [a - d, b - c]),
    mul: arith2((a, b, c, d) => [a * c, a * d, b * c, b * d]),
    div: { fact(args, st) { const a = rng(args[0], st), b = rng(args[1], st); if (b.lo <= 0 && b.hi >= 0) return { ty: T.D }; const c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]; if (c.some(Number.isNaN)) return { ty: T.D }; return mk(Math.min(...c), Math.max(...c), a.nan === false && b.nan === false && Number.isFinite(a.lo) && Number.isFinite(a.hi) ? false : undefined); } },
    mod: { fact(args, st) { const a = rng(args[0], st), b = rng(args[1], st); if (b.lo === b.hi && b.lo > 0) return mk(a.lo >= 0 ? 0 : -b.lo, b.lo, a.nan === false && Number.isFinite(a.lo) && Number.isFinite(a.hi) ? false : undefined, a.int && b.int); return { ty: T.D }; } },
    pow: { fact() { return { ty: T.D }; } },
    round: mono(Math.round, true), floor: mono(Math.floor, true), ceil: mono(Math.ceil, true), trunc: mono(Math.trunc, true),
    min: { fact(args, st) { const r = args.map((a) => rng(a, st)); return mk(Math.min(...r.map((x) => x.lo)), Math.min(...r.map((x) => x.hi)), r.every((x) => x.nan === false) ? false : undefined, r.every((x) => x.int)); } },
    max: { fact(args, st) { const r = args.map((a) => rng(a, st)); return mk(Math.max(...r.map((x) => x.lo)), Math.max(...r.map((x) => x.hi)), r.every((x) => x.nan === false) ? false : undefined, r.every((x) => x.int)); } },
    strnum: { fact([v], st) { return numFact(langArg(v, st), false); } },
    tonum: {
      fact([v], st) {
        const t = tyOf(v, st);
        if (t === T.D) { const a = rng(v, st); return mk(a.lo, a.hi, a.nan, a.int); }
        return { ty: T.D };
      },
    },
    parseInt: { fact([v], st) { return numFact(langArg(v, st), true, true); } },
    parseFloat: { fact([v], st) { return numFact(langArg(v, st), true); } },
  };
  function numFact(d, prefix, int) {
    const f = { ty: T.D };
    if (int) f.int = true;
    const num = prefix ? L.reExact("\\s*[+-]?[0-9][^]*") : L.reExact("\\s*[+-]?(?:[0-9]+(?:\\.[0-9]*)?|\\.[0-9]+)(?:[eE][+-]?[0-9]+)?\\s*");
    const some = L.subset(d, num);
    if (some) f.nan = false;
    if (L.subset(d, L.reExact("[0-9]+"))) { f.lo = 0; f.int = true; const [, hi] = lenR(d); if (hi <= 15) f.hi = 10 ** hi - 1; }
    else if (L.isEmpty(L.inter(d, L.reExact("\\s*-[^]*"))) && some) f.lo = 0;
    if (L.isEmpty(d)) return f;
    const w = L.finiteWords(d, 8);
    if (w && w.length === 1) { const x = prefix ? (int ? parseInt(w[0], 10) : parseFloat(w[0])) : Number(w[0]); f.lo = f.hi = x; if (!Number.isNaN(x)) f.nan = false; else { delete f.lo; delete f.hi; } }
    return f;
  }
  return ops;
}
function containsLit(l) { return L.concat(L.concat(L.ALL, L.lit(l)), L.ALL); }
Object.defineProperty(P, "ops", { get() { return this._ops || (this._ops = mkOps(this)); } });
module.exports = { lenR, containsLit, NUMLANG, INTLANG, NOTCTRL };

"use strict";
// Evaluates the term the interpreter derived for a piece of wire text at a given
// word for each input symbol. The terms are per-character substitutions and
// concatenations, so checking one representative of each character class in
// each position decides them for all texts.
const { V, L, symv, litOf } = require("./harness");
class Unknown extends Error {}
class Infeasible extends Error {}
const BASEREPS = ["\t", "\n", "\r", "\v", "\f", " ", "\u00a0", "\u2028", "\u3000", "\ufeff", "\u0001", "\u001f", "\u007f", "\u0085", "!", "\"", "#", "&", "'", "(", ";", "<", "=", ">", "?", "@", "A", "[", "\\", "]", "^", "_", "`", "a", "x", "{", "|", "}", "~", ",", "-", ".", "0", "9", ":", "é", "ÿ", "Ā", "中", "\ud83d\ude00"];

function evalParts(h, parts, st, env) {
  let s = "";
  for (const p of parts) {
    if (typeof p === "string") s += p;
    else if (p.sym !== undefined) s += toS(evalSym(h, p.sym, st, env));
    else if (p.join) s += p.join.map((x) => { if (x.k !== "1") throw new Unknown("star join"); return toS(evalV(h, x.v, st, env)); }).join(p.sep);
    else throw new Unknown("part");
  }
  return s;
}
const toS = (x) => { if (x === null || typeof x === "object") throw new Unknown("object"); return String(x); };
function evalV(h, v, st, env) {
  v = h.e.resolve(v, st);
  switch (v.k) {
    case "u": return undefined;
    case "n": return null;
    case "b": case "d": return v.v;
    case "s": return evalParts(h, v.p, st, env);
    case "y": return evalSym(h, v.id, st, env);
  }
  throw new Unknown("value " + v.k);
}
function evalSym(h, id, st, env) {
  const r = evalSym0(h, id, st, env);
  const f = h.e.fact(id, st);
  if (typeof r === "string" && f.lang && !env.has("!" + id) && !accepts(f.lang, r)) throw new Infeasible(id);
  return r;
}
// false when what the path knows about derived texts contradicts the given words
function feasible(h, st, env) {
  for (const [id, f] of st.facts) {
    if (!f || env.has(id)) continue;
    const i = h.e.syms.get(id);
    if (!i || !i.derive) continue;
    try {
      const r = evalSym(h, id, st, env);
      if (typeof r === "number" && ((f.lo !== undefined && r < f.lo) || (f.hi !== undefined && r > f.hi))) return false;
      if (f.eq) { const q = evalV(h, f.eq, st, env); if (q !== r && typeof q === typeof r) return false; }
    } catch (e) { if (e instanceof Infeasible) return false; if (!(e instanceof Unknown)) throw e; }
  }
  return true;
}
function accepts(d, s) { return d.accepts(s); }
function evalSym0(h, id, st, env) {
  if (env.has(id)) return env.get(id);
  const i = h.e.syms.get(id);
  if (!i || !i.derive) throw new Unknown("symbol " + id);
  const a = i.derive.args;
  const ev = (n) => evalV(h, a[n], st, env);
  switch (i.derive.op) {
    case "tostr": return toS(ev(0));
    case "tonum": case "strnum": return Number(ev(0));
    case "code": return String(ev(0)).charCodeAt(0);
    case "parseInt": return parseInt(toS(ev(0)), a.length > 1 ? ev(1) : undefined);
    case "parseFloat": return parseFloat(toS(ev(0)));
    case "neg": return -ev(0);
    case "len": return ev(0).length;
    case "drop": return String(ev(0)).slice(Number(ev(1)));
    case "take": return String(ev(0)).slice(0, Number(ev(1)));
    case "char0": return String(ev(0)).charAt(0);
    case "trim": return String(ev(0)).trim();
    case "lower": return String(ev(0)).toLowerCase();
    case "upper": return String(ev(0)).toUpperCase();
    case "abs": case "sign": case "round": case "floor": case "ceil": case "trunc": return Math[i.derive.op](ev(0));
    case "add": return ev(0) + ev(1);
    case "sub": return ev(0) - ev(1);
    case "mul": return ev(0) * ev(1);
    case "div": return ev(0) / ev(1);
    case "?toStringRadix": return Number(ev(0)).toString(ev(1));
    case "?toFixed": return Number(ev(0)).toFixed(ev(1));
    case "?toPrecision": return Number(ev(0)).toPrecision(ev(1));
    case "?fromCharCode": return String.fromCharCode(...a.map((x, n) => ev(n)));
    case "?normalize": return String(ev(0)).normalize();
    case "pad": { const m = /^(padStart|padEnd)(\d+)$/.exec(litOf(a[2])); if (!m) break; return String(ev(0))[m[1]](Number(m[2]), ev(1)); }
    case "factor": { if (a[1] && /^trim(Start|End)$/.test(litOf(a[1]) || "")) return String(ev(0))[litOf(a[1])](); break; }
    case "?replace": {
      if (a.length < 3 || litOf(a[2]) === null) break;
      const k = litOf(a[1]), m = /^re:([a-z]*)A?:([\s\S]*)$/.exec(k);
      if (m) return String(ev(0)).replace(new RegExp(m[2], m[1]), litOf(a[2]));
      return k.startsWith("la:") ? String(ev(0)).replaceAll(k.slice(3), litOf(a[2])) : String(ev(0)).replace(k.slice(2), litOf(a[2]));
    }
    case "replaceC": {
      const s = String(ev(0));
      const gs = h.e.replTable.get(litOf(a[1]));
      let out = "";
      for (let k = 0; k < s.length; k++) out += replChar(h, gs, s[k], st, env);
      return out;
    }
  }
  throw new Unknown("operation " + i.derive.op);
}
function replChar(h, gs, ch, st, env) {
  const c = ch.charCodeAt(0);
  for (const g of gs) {
    if (!g.set.some(([a, b]) => a <= c && c <= b)) continue;
    if (!g.val) { if (g.entity) return "&#x" + c.toString(16).toUpperCase() + ";"; throw new Unknown("replacement"); }
    const e2 = new Map(env);
    e2.set(g.m.id, ch);
    e2.set("!" + g.m.id, 1);
    const r = evalV(h, g.val, st, e2);
    return toS(r);
  }
  return ch;
}
// character classes distinguished anywhere in the term
function reps(h, parts, seen = new Set(), out = new Set(BASEREPS)) {
  const addSet = (set) => { for (const [a, b] of set) for (const x of [a - 1, a, b, b + 1]) if (x > 0 && x <= 0xffff && !(x >= 0xd800 && x <= 0xdfff)) out.add(String.fromCharCode(x)); };
  const goV = (v) => {
    if (v.k === "s") goP(v.p);
    else if (v.k === "y") goS(v.id);
    else if (v.k === "i") { goV(v.a); goV(v.b); }
  };
  const goS = (id) => {
    if (seen.has(id)) return; seen.add(id);
    const i = h.e.syms.get(id);
    if (!i || !i.derive) return;
    if (i.derive.op === "replaceC") for (const g of h.e.replTable.get(litOf(i.derive.args[1])) || []) addSet(g.set);
    i.derive.args.forEach(goV);
  };
  const goP = (ps) => { for (const p of ps) { if (typeof p === "string") continue; if (p.sym !== undefined) goS(p.sym); else if (p.join) p.join.forEach((s) => s.v && goV(s.v)); } };
  goP(parts);
  return [...out];
}
// resolve the conditional pieces of a text into separate alternatives
function expand(h, parts, st, cap = 64) {
  let acc = [{ parts: [], st }];
  const segs = (cur, ss) => {
    for (const s of ss) {
      if (s.k === "1") cur = cur.flatMap((a) => h.alts(s.v, a.st).map((x) => ({ ...a, st: x.st, join: [...a.join, { k: "1", v: x.v }] })));
      else if (s.k === "alt") cur = cur.flatMap((a) => { const s1 = a.st.clone(), s2 = a.st.clone(), r = []; if (h.e.decide(s1, s.c, true)) r.push(...segs([{ ...a, st: s1 }], s.a)); if (h.e.decide(s2, s.c, false)) r.push(...segs([{ ...a, st: s2 }], s.b)); return r; });
      else cur = cur.map((a) => ({ ...a, join: [...a.join, s] }));
      if (cur.length > cap) throw new Unknown("too many alternatives");
    }
    return cur;
  };
  for (const p of parts) {
    if (p && p.join) acc = acc.flatMap((a) => segs([{ ...a, join: [] }], p.join).map((b) => ({ parts: [...a.parts, { ...p, join: b.join }], st: b.st })));
    else acc = acc.map((a) => ({ ...a, parts: [...a.parts, p] }));
    if (acc.length > cap) throw new Unknown("too many alternatives");
  }
  return acc;
}
const NAMED = { amp: "&", lt: "<", gt: ">", quot: "\"", apos: "'", nbsp: "\u00a0", eacute: "é" };
function htmlDecode(s) {
  return s.replace(/&(#x[0-9a-f]+|#[0-9]+|[A-Za-z]+);/gi, (m, x) => {
    if (/^#x/i.test(x)) return String.fromCodePoint(parseInt(x.slice(2), 16));
    if (x[0] === "#") return String.fromCodePoint(parseInt(x.slice(1), 10));
    return NAMED[x] ?? m;
  });
}
function words(rs) {
  const w = new Set();
  for (const c of rs) { w.add(c); w.add(c + "b"); w.add("b" + c); w.add("b" + c + "b"); w.add(c + c); }
  for (const x of ["a&b", "&amp;", "&#38;", "x&lt;y", "&amp;lt;", "  x", "x  ", "a,b|c", "{a=b}", "[a,b]", "|", "||", "a|,b", "a&#44;b=c", "&#125;", "x&#93;y", "&#124;", "&#x2c;", "=", "x=y", "-x", "\u00e9\u4e2d", "\ud83d\ude00!"]) w.add(x);
  return [...w];
}
// ExifTool's serialized structure syntax
function parseStruct(s) {
  let i = 0;
  const val = (end) => {
    while (s[i] === " ") i++;
    if (s[i] === "{") {
      i++;
      const o = [];
      while (s[i] === " ") i++;
      if (s[i] === "}") { i++; return { o }; }
      for (;;) {
        let k = "";
        while (i < s.length && s[i] !== "=") { if (s[i] === "|") { i++; if (i >= s.length) throw new Error("dangling escape"); } k += s[i++]; }
        if (i >= s.length) throw new Error("missing =");
        i++;
        o.push([k, val("}")]);
        if (s[i] === ",") { i++; continue; }
        if (s[i] === "}") { i++; while (s[i] === " ") i++; return { o }; }
        throw new Error("malformed structure at " + i);
      }
    }
    if (s[i] === "[") {
      i++;
      const a = [];
      if (s[i] === "]") { i++; return { a }; }
      for (;;) {
        a.push(val("]"));
        if (s[i] === ",") { i++; continue; }
        if (s[i] === "]") { i++; return { a }; }
        throw new Error("malformed list at " + i);
      }
    }
    let v = "";
    while (i < s.length && !(end && (s[i] === "," || s[i] === end))) {
      if (end === "}" && s[i] === "]" ) break;
      if (s[i] === "|") { i++; if (i >= s.length) throw new Error("dangling escape"); }
      v += s[i++];
    }
    return { v };
  };
  const r = val(null);
  if (i < s.length) throw new Error("trailing text " + JSON.stringify(s.slice(i)));
  return r;
}
module.exports = { feasible, expand, evalParts, evalV, evalSym, reps, words, htmlDecode, parseStruct, Unknown, Infeasible };

"use strict";
const PRIMP = { s: "String", d: "Number", b: "Boolean", nat: "Function", S: "Symbol" };
// Models of the JavaScript, Node and third-party APIs the sources use.
const L = require("./lang");
const V = require("./values");
const { T, ANYT, OBJT, U, NULL, TRUE, FALSE, ABSENT, bool, num, str, obj, symv, nat, jssym, isConst, litOf, segKey, key, same, mkIte, mkStr, partsOf, cloneObj, newCond } = V;
const one = (v) => ({ k: "1", v });
const NAMESPACES = new Set(["Math", "JSON", "Reflect", "console", "process", "path", "fs", "fs/promises", "os", "util", "child_process", "he", "luxon", "batch-cluster", "globalThis", "crypto", "assert", "buffer", "events", "url", "@photostructure/tz-lookup", "Atomics", "Intl"]);
const GLOBALS = new Set(["Object", "Array", "String", "Number", "Boolean", "Math", "JSON", "Promise", "Map", "Set", "WeakMap", "WeakSet", "Reflect", "Symbol", "Buffer", "Date", "RegExp", "Error", "TypeError", "RangeError", "SyntaxError", "EvalError", "ReferenceError", "URIError", "AggregateError", "process", "console", "setTimeout", "clearTimeout", "setImmediate", "setInterval", "clearInterval", "queueMicrotask", "parseInt", "parseFloat", "isNaN", "isFinite", "globalThis", "Uint8Array", "ArrayBuffer", "Function", "BigInt", "Proxy", "encodeURIComponent", "decodeURIComponent", "structuredClone", "Intl", "TextDecoder", "TextEncoder", "require", "__dirname", "__filename", "DataView", "AbortController", "AbortSignal", "performance", "WeakRef", "Iterator"]);

module.exports = (e) => {
  const F = Object.create(null);
  const arg = (args, i, st) => e.argAt(args, i, st);
  const allConst = (vs) => vs.every((v) => isConst(v));
  const def = (names, f) => { for (const n of names.split(" ")) F[n] = f; };
  const ok = (st, v) => e.ok(st, v);
  const optStr = (v, st, node) => e.toStr(v, st, node);
  const isStrV = (v, st) => v.k === "s" || (v.k === "y" && e.fact(v.id, st).ty === T.S);
  e.replTable = new Map();

  // ------------------------------------------------------------ Object
  F["Object"] = (t, a, st, n) => ok(st, arg(a, 0, st));
  F["Object.keys"] = (t, a, st, n) => e.seq(e.ownKeys(arg(a, 0, st), st, n), (st, s) => ok(st, e.allocArr(st, s, n, "keys")));
  F["Object.getOwnPropertyNames"] = (t, a, st, n) => e.seq(e.ownKeys(arg(a, 0, st), st, n, true), (st, s) => ok(st, e.allocArr(st, s, n, "keys")));
  F["Reflect.ownKeys"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, o) => {
    if (!(e.typeMask(o, st) & OBJT)) return e.throwErr(st, "TypeError", "Reflect.ownKeys called on non-object", n);
    return e.seq(e.ownKeys(o, st, n, true), (st, s) => {
      const segs = o.k === "o" && st.get(o.id).cls === "Array" ? [...s, one(str("length"))] : o.k === "y" && e.fact(o.id, st).ty === T.A ? [{ k: "*", alts: [[one(e.syms.named("idx(" + o.id + ")", "own key of " + e.show(o), { ty: T.S | T.Y }, { rep: true, keyOf: o.id }))]] }, one(str("length"))] : o.k === "y" ? [{ k: "*", alts: [[one(e.syms.named(o.id + ".{ownKey}", "own key of " + e.show(o), { ty: T.S | T.Y }, { rep: true, keyOf: o.id }))]] }] : s;
      return ok(st, e.allocArr(st, segs, n, "okeys"));
    });
  });
  const entriesOf = (o, st, n, mk) => e.seq(e.ownKeys(o, st, n), (st, ks) => e.seq(e.mapSegs(ks, st, (st, k) => e.seq(e.getProp(o, k, st, n), (st, v) => ok(st, mk(st, k, v)))), (st, segs) => ok(st, e.allocArr(st, segs, n, "entries"))));
  F["Object.values"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, o) => entriesOf(o, st, n, (st, k, v) => v));
  F["Object.entries"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, o) => entriesOf(o, st, n, (st, k, v) => e.allocArr(st, [one(k), one(v)], n, "pair" + key(k))));
  F["Object.fromEntries"] = (t, a, st, n) => e.seq(e.iterSegs(arg(a, 0, st), st, n), (st, segs) => {
    const res = e.alloc(st, { cls: "Object", layers: [new Map()] }, n, "fe");
    const add = (st, pair) => e.seq(e.getProp(pair, str("0"), st, n), (st, k) => e.seq(e.getProp(pair, str("1"), st, n), (st, v) => e.setPropDefine(res, k, v, st, n)));
    if (segs.every((s) => s.k === "1")) { let outs = ok(st, U); for (const s of segs) outs = e.seq(outs, (st) => add(st, s.v)); return e.seq(outs, (st) => ok(st, res)); }
    const r = e.loopSegs(segs, [st], (st, v) => add(st, v).map((o) => (o.thr ? { st: o.st, c: "thr", v: o.thr } : { st: o.st })), n);
    return [...r.ends.map((st) => ({ st, v: res })), ...r.abrupt.map((o) => ({ st: o.st, thr: o.v }))];
  });
  F["Object.assign"] = (t, a, st, n) => {
    const tgt = arg(a, 0, st);
    let outs = ok(st, U);
    for (const s of a.slice(1)) outs = e.seq(outs, (st) => {
      if (s.k !== "1") return e.undecided("Object.assign spread", n);
      return e.seq(e.strict(s.v, st), (st, src) => e.seq(e.strict(tgt, st), (st, tv) => {
        if (src.k === "u" || src.k === "n") return ok(st, U);
        if (tv.k === "o" && !st.get(tv.id).frozen) { e.mutated(st, tv, "*", n); e.spreadInto(tv, src, st, n); return ok(st, U); }
        if (tv.k === "y") { e.mutated(st, tv, "*", n); return ok(st, U); }
        return e.throwErr(st, "TypeError", "Cannot assign to read only", n);
      }));
    });
    return e.seq(outs, (st) => ok(st, tgt));
  };
  F["Object.freeze"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, o) => { if (o.k === "o") { const c = cloneObj(st.get(o.id)); c.frozen = true; st.set(o.id, c); } else if (o.k === "y" && e.syms.get(o.id).foreign) e.mutated(st, o, "<freeze>", n); return ok(st, o); });
  F["Object.seal"] = F["Object.preventExtensions"] = (t, a, st) => ok(st, arg(a, 0, st));
  F["Object.isFrozen"] = (t, a, st) => e.seq(e.strict(arg(a, 0, st), st), (st, o) => ok(st, o.k === "o" ? bool(!!st.get(o.id).frozen) : e.opaque("isFrozen", [o], { ty: T.B })));
  F["Object.hasOwn"] = (t, a, st, n) => e.seq(e.hasProp(arg(a, 0, st), arg(a, 1, st), st, n, true), (st, v) => ok(st, v));
  F["Object.prototype.hasOwnProperty"] = (t, a, st, n) => e.hasProp(t, arg(a, 0, st), st, n, true);
  F["Object.prototype.propertyIsEnumerable"] = F["Object.prototype.hasOwnProperty"];
  F["Reflect.has"] = (t, a, st, n) => e.hasProp(arg(a, 0, st), arg(a, 1, st), st, n, false);
  F["Reflect.get"] = (t, a, st, n) => e.getProp(arg(a, 0, st), arg(a, 1, st), st, n);
  F["Reflect.set"] = (t, a, st, n) => e.seq(e.setProp(arg(a, 0, st), arg(a, 1, st), arg(a, 2, st), st, n), (st) => ok(st, TRUE));
  F["Reflect.deleteProperty"] = (t, a, st, n) => e.deleteProp(arg(a, 0, st), arg(a, 1, st), st, n);
  F["Object.create"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, p) => ok(st, e.alloc(st, { cls: "Object", layers: [new Map()], proto: p }, n, "create")));
  F["Object.getPrototypeOf"] = F["Reflect.getPrototypeOf"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, o) => {
    if (o.k === "o") { const x = st.get(o.id); if (x.proto) return ok(st, x.proto); if (x.ctor !== undefined) return ok(st, e.derived("protoOf", [obj(x.ctor)], { ty: T.O, tr: true })); return ok(st, nat(x.cls + ".prototype")); }
    if (o.k === "y") {
      const out = [];
      const f = e.fact(o.id, st);
      if (f.ty & (T.U | T.N)) { const s2 = st.clone(); if (e.refine(s2, o.id, { ty: T.U | T.N })) out.push(...e.throwErr(s2, "TypeError", "Cannot convert undefined or null to object", n)); if (!e.refine(st, o.id, { ty: ANYT & ~(T.U | T.N) })) return out; }
      if (e.fact(o.id, st).ty === T.A) { out.push({ st, v: mkIte("ap:" + o.id, nat("Array.prototype"), e.derived("protoOf", [o], { ty: T.O | T.N })) }); return out; }
      if (e.syms.get(o.id).plain) { out.push({ st, v: nat("Object.prototype") }); return out; }
      { const ty = e.fact(o.id, st).ty, p = { [T.S]: "String", [T.D]: "Number", [T.B]: "Boolean", [T.F]: "Function", [T.Y]: "Symbol", [T.G]: "BigInt" }[ty]; if (p) { out.push({ st, v: nat(p + ".prototype") }); return out; } }
      out.push({ st, v: e.derived("protoOf", [o], { ty: T.O | T.N }) });
      return out;
    }
    if (o.k === "u" || o.k === "n") return e.throwErr(st, "TypeError", "Cannot convert undefined or null to object", n);
    return ok(st, nat(PRIMP[o.k] ? PRIMP[o.k] + ".prototype" : "Object.prototype"));
  });
  F["Object.setPrototypeOf"] = (t, a, st, n) => { const o = e.resolve(arg(a, 0, st), st); if (o.k === "o") { const c = cloneObj(st.get(o.id)); c.proto = arg(a, 1, st); st.set(o.id, c); } return ok(st, o); };
  e.setPropDefine = (o, k, v, st, n, ne) => e.seq(e.strict(k, st), (st, k) => {
    o = e.resolve(o, st);
    if (o.k === "y") { e.mutated(st, o, e.propKey(k) ?? e.show(k), n); st.symProps.set(o.id + "." + (e.propKey(k) ?? "[" + key(k) + "]"), v); return ok(st, o); }
    if (o.k !== "o") return e.throwErr(st, "TypeError", "Object.defineProperty called on non-object", n);
    const pk = e.propKey(k);
    if (st.get(o.id).frozen) return e.throwErr(st, "TypeError", "Cannot define property", n);
    e.mutated(st, o, pk ?? e.show(k), n);
    if (pk === null) return e.seq(e.toStr(k, st, n), (st, ks) => { const c = cloneObj(st.get(o.id)); c.layers = [...c.layers, { dyn: ks, v }]; st.set(o.id, c); return ok(st, o); });
    if (st.get(o.id).segs && /^\d+$/.test(pk)) return e.seq(e.setProp(o, pk, v, st, n), (st) => ok(st, o));
    const c = cloneObj(st.get(o.id));
    e.putOwn(c, pk, ne ? { v, ne: true } : { v, ne: false });
    st.set(o.id, c);
    return ok(st, o);
  });
  F["Object.defineProperty"] = F["Reflect.defineProperty"] = (t, a, st, n) => {
    const o = arg(a, 0, st), k = arg(a, 1, st), d = arg(a, 2, st);
    return e.seq(e.hasProp(d, "get", st, n), (st, hg) => {
      if (hg.k === "b" && hg.v) return e.seq(e.getProp(d, "get", st, n), (st, g) => { const c = cloneObj(st.get(e.resolve(o, st).id)); e.putOwn(c, e.propKey(e.resolve(k, st)), { acc: { get: g }, ne: true }); st.set(e.resolve(o, st).id, c); return ok(st, o); });
      return e.seq(e.getProp(d, "value", st, n), (st, v) => e.seq(e.getProp(d, "enumerable", st, n), (st, en) => e.truthy(en, st).flatMap((b) => e.setPropDefine(o, k, v, b.st, n, !b.b))));
    });
  };
  F["Object.getOwnPropertyDescriptor"] = (t, a, st, n) => e.seq(e.hasProp(arg(a, 0, st), arg(a, 1, st), st, n, true), (st, h) => e.truthy(h, st).flatMap((b) => b.b ? e.seq(e.getProp(arg(a, 0, st), arg(a, 1, st), b.st, n), (st, v) => ok(st, e.allocObj(st, n, { value: v, enumerable: TRUE, writable: TRUE, configurable: TRUE }, "desc"))) : ok(b.st, U)));
  F["Object.getOwnPropertyDescriptors"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, o) => {
    // a snapshot of own properties: modelled as a symbol whose members are descriptors
    if (o.k === "y") return ok(st, e.syms.named("descs:" + o.id + (e.unstable ? e.epochTag(st) : ""), "property descriptors of " + e.show(o), { ty: T.O, tr: true }, { descOf: o.id, childExtra: (k) => ({ desc: true }), childBase: () => ({ ty: T.O | T.U }) }));
    const res = e.alloc(st, { cls: "Object", layers: [new Map()] }, n, "descs");
    return e.seq(e.ownKeys(o, st, n, true), (st, ks) => {
      let outs = ok(st, U);
      for (const s of ks) { if (s.k !== "1") return e.undecided("descriptors of dynamic object", n); outs = e.seq(outs, (st) => e.seq(e.getProp(o, s.v, st, n), (st, v) => e.setPropDefine(res, s.v, e.allocObj(st, n, { value: v, enumerable: TRUE, writable: TRUE, configurable: TRUE }, "d" + key(s.v)), st, n))); }
      return e.seq(outs, (st) => ok(st, res));
    });
  });
  F["Object.is"] = (t, a, st, n) => {
    const x = e.resolve(arg(a, 0, st), st), y = e.resolve(arg(a, 1, st), st);
    if (x.k === "d" && y.k === "d") return ok(st, bool(Object.is(x.v, y.v)));
    const lit = x.k === "d" ? x : y.k === "d" ? y : null, oth = lit === x ? y : x;
    if (lit && oth.k === "y" && (e.fact(oth.id, st).ty & T.D)) {
      if (Number.isNaN(lit.v)) return ok(st, e.opaque("is", [x, y], { ty: T.B }));
      // equal numbers are the same one, except for the two zeroes
      if (lit.v === 0) return e.seq(e.eqStrict(x, y, st, n), (st, r) => (r.k === "b" && r.v === false ? ok(st, r) : ok(st, e.opaque("is", [x, y], { ty: T.B }))));
    }
    return e.eqStrict(x, y, st, n);
  };
  F["Object.prototype.toString"] = (t, a, st, n) => ok(st, str("[object Object]"));
  F["Object.prototype.valueOf"] = (t, a, st) => ok(st, t);
  F["structuredClone"] = (t, a, st) => ok(st, arg(a, 0, st));

  // ------------------------------------------------------------ Function
  F["Function.prototype.call"] = (t, a, st, n) => e.call(t, a.length ? arg(a, 0, st) : U, a.slice(1), st, n);
  F["Function.prototype.apply"] = (t, a, st, n) => e.seq(e.isNullish(arg(a, 1, st), st), (st, b) => b.v ? e.call(t, arg(a, 0, st), [], st, n) : e.seq(e.iterSegs(arg(a, 1, st), st, n), (st, s) => e.call(t, arg(a, 0, st), s, st, n)));
  F["Function.prototype.bind"] = (t, a, st, n) => ok(st, e.alloc(st, { cls: "Function", bound: { f: t, thisV: arg(a, 0, st), args: a.slice(1) }, layers: [new Map()] }, n, "bind"));

  // ------------------------------------------------------------ Boolean / Number / Math
  F["Boolean"] = (t, a, st) => e.truthy(arg(a, 0, st), st).map((o) => ({ st: o.st, v: bool(o.b) }));
  F["Number"] = (t, a, st, n) => (a.length ? e.toNum(arg(a, 0, st), st, n) : ok(st, num(0)));
  F["BigInt"] = (t, a, st) => ok(st, e.opaque("BigInt", [arg(a, 0, st)], { ty: T.G }));
  const numPred = (pred) => (t, a, st) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => {
    if (v.k === "d") return ok(st, bool(pred(v.v)));
    if (v.k !== "y") return ok(st, FALSE);
    const f = e.fact(v.id, st);
    if (!(f.ty & T.D)) return ok(st, FALSE);
    return null;
  });
  const splitNum = (a, st, yes, no, pred) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => {
    if (v.k === "d") return ok(st, bool(pred(v.v)));
    if (v.k !== "y") return ok(st, FALSE);
    const f = e.fact(v.id, st);
    if (!(f.ty & T.D)) return ok(st, FALSE);
    const s2 = st.clone(), out = [];
    const y = yes(f), z = no(f);
    if (y && e.refine(st, v.id, y)) out.push({ st, v: TRUE });
    if (z && e.refine(s2, v.id, z)) out.push({ st: s2, v: FALSE });
    return out;
  });
  void numPred;
  const MAXF = Number.MAX_VALUE;
  F["Number.isFinite"] = (t, a, st) => splitNum(a, st, () => ({ ty: T.D, nan: false, lo: -MAXF, hi: MAXF }), (f) => (f.ty === T.D && f.nan === false && f.lo !== undefined && f.hi !== undefined ? null : { ty: ANYT, ne: ["<finite>"] }), Number.isFinite);
  F["Number.isInteger"] = (t, a, st) => splitNum(a, st, () => ({ ty: T.D, nan: false, int: true, lo: -MAXF, hi: MAXF }), (f) => (f.ty === T.D && f.int && f.nan === false && f.lo !== undefined && f.hi !== undefined ? null : { ty: ANYT }), Number.isInteger);
  F["Number.isSafeInteger"] = (t, a, st) => splitNum(a, st, () => ({ ty: T.D, nan: false, int: true, lo: -(2 ** 53 - 1), hi: 2 ** 53 - 1 }), () => ({ ty: ANYT }), Number.isSafeInteger);
  F["Number.isNaN"] = (t, a, st) => splitNum(a, st, (f) => (f.nan === false ? null : { ty: T.D, eq: num(NaN) }), () => ({ ty: ANYT, nan: false }), Number.isNaN);
  F["isNaN"] = (t, a, st, n) => e.seq(e.toNum(arg(a, 0, st), st, n), (st, v) => F["Number.isNaN"](U, [one(v)], st, n));
  F["isFinite"] = (t, a, st, n) => e.seq(e.toNum(arg(a, 0, st), st, n), (st, v) => F["Number.isFinite"](U, [one(v)], st, n));
  const parseN = (op, f) => (t, a, st, n) => e.seq(e.toStr(arg(a, 0, st), st, n), (st, s) => { const l = litOf(s); const rx = a.length > 1 ? e.resolve(arg(a, 1, st), st) : null; if (l !== null && (!rx || rx.k === "d")) return ok(st, num(f(l, rx ? rx.v : undefined))); if (rx && !(rx.k === "d" && rx.v === 10) && rx.k !== "u") return ok(st, e.opaque(op, [s, rx], { ty: T.D })); return ok(st, e.derived(op, [s], { ty: T.D })); });
  F["parseInt"] = F["Number.parseInt"] = parseN("parseInt", parseInt);
  F["parseFloat"] = F["Number.parseFloat"] = parseN("parseFloat", parseFloat);
  F["Number.prototype.toString"] = (t, a, st, n) => (a.length && !(e.resolve(arg(a, 0, st), st).k === "u") ? (e.resolve(t, st).k === "d" && e.resolve(arg(a, 0, st), st).k === "d" ? ok(st, str(e.resolve(t, st).v.toString(e.resolve(arg(a, 0, st), st).v))) : ok(st, e.opaque("toStringRadix", [t, arg(a, 0, st)], { ty: T.S, lang: L.reExact("-?[0-9a-z.]+|NaN|-?Infinity") }))) : e.toStr(t, st, n));
  F["Boolean.prototype.toString"] = (t, a, st, n) => e.toStr(t, st, n);
  F["Number.prototype.toFixed"] = (t, a, st) => { const v = e.resolve(t, st), d = a.length ? e.resolve(arg(a, 0, st), st) : num(0); if (v.k === "d" && d.k === "d") return ok(st, str(v.v.toFixed(d.v))); return ok(st, e.opaque("toFixed", [t, d], { ty: T.S, lang: L.reExact("-?[0-9]+(?:\\.[0-9]+)?(?:e[+-][0-9]+)?|NaN|-?Infinity") })); };
  F["Number.prototype.toPrecision"] = (t, a, st) => ok(st, e.opaque("toPrecision", [t, arg(a, 0, st)], { ty: T.S, lang: L.reExact("-?[0-9.]+(?:e[+-][0-9]+)?|NaN|-?Infinity") }));
  F["Number.prototype.valueOf"] = (t, a, st) => ok(st, t);
  for (const m of ["abs", "sign", "round", "floor", "ceil", "trunc"]) F["Math." + m] = (t, a, st, n) => e.seq(e.toNum(arg(a, 0, st), st, n), (st, v) => ok(st, v.k === "d" ? num(Math[m](v.v)) : e.derived(m, [v], { ty: T.D })));
  for (const m of ["min", "max"]) F["Math." + m] = (t, a, st, n) => {
    if (!a.every((s) => s.k === "1")) return ok(st, e.opaque(m, [], { ty: T.D }));
    let outs = ok(st, []);
    a.forEach((s) => { outs = e.seq(outs, (st, acc) => e.seq(e.toNum(s.v, st, n), (st, v) => ok(st, [...acc, v]))); });
    return e.seq(outs, (st, vs) => ok(st, vs.every((v) => v.k === "d") ? num(Math[m](...vs.map((v) => v.v))) : e.derived(m, vs, { ty: T.D })));
  };
  F["Math.pow"] = (t, a, st, n) => e.seq(e.toNum(arg(a, 0, st), st, n), (st, x) => e.seq(e.toNum(arg(a, 1, st), st, n), (st, y) => ok(st, x.k === "d" && y.k === "d" ? num(x.v ** y.v) : e.derived("pow", [x, y], { ty: T.D }))));
  F["Math.random"] = (t, a, st, n) => ok(st, e.syms.named("rand@" + e.siteKey(n), "Math.random()", { ty: T.D, lo: 0, hi: 1, nan: false }));

  // ------------------------------------------------------------ String
  F["String"] = (t, a, st, n) => (a.length ? e.toStr(arg(a, 0, st), st, n) : ok(st, str("")));
  F["String.fromCharCode"] = (t, a, st) => { const vs = a.map((s) => (s.k === "1" ? e.resolve(s.v, st) : U)); if (vs.every((v) => v.k === "d")) return ok(st, str(String.fromCharCode(...vs.map((v) => v.v)))); return ok(st, e.opaque("fromCharCode", vs, { ty: T.S })); };
  F["String.fromCodePoint"] = F["String.fromCharCode"];
  const S = (name, f) => { F["String.prototype." + name] = (t, a, st, n) => e.seq(e.strict(t, st), (st, t) => e.seq(isStrV(t, st) ? ok(st, t) : e.toStr(t, st, n), (st, v) => f(v, a, st, n))); };
  const argVals = (a, st) => a.map((s) => (s.k === "1" ? e.resolve(s.v, st) : U));
  const concrete = (name) => (v, a, st) => { const l = litOf(v), vs = argVals(a, st); if (l !== null && allConst(vs)) { const r = l[name](...vs.map((x) => (x.k === "u" ? undefined : x.k === "n" ? null : x.k === "s" ? litOf(x) : x.v))); return typeof r === "string" ? str(r) : typeof r === "number" ? num(r) : typeof r === "boolean" ? bool(r) : r === undefined ? U : null; } return null; };
  S("toString", (v, a, st) => ok(st, v));
  S("valueOf", (v, a, st) => ok(st, v));
  S("normalize", (v, a, st) => ok(st, litOf(v) !== null ? str(litOf(v).normalize()) : e.opaque("normalize", [v], { ty: T.S })));
  const unary = (name, op) => S(name, (v, a, st) => { const c = concrete(name)(v, a, st); return ok(st, c || e.derived(op, [v], { ty: T.S })); });
  const HEADOK = L.reExact("\\S[^]*"), TAILOK = L.reExact("[^]*\\S");
  const trimParts = (v, st, lead, trail) => {
    let ps = partsOf(v);
    if (!ps || ps.some((p) => typeof p !== "string" && p.sym === undefined)) return null;
    const end = (ps, d, f) => { // ps in reading order from the trimmed end
      ps = ps.slice();
      while (ps.length) {
        const p = ps[0];
        if (typeof p === "string") { const t = f(p); if (t === "") { ps.shift(); continue; } ps[0] = t; return ps; }
        return L.subset(e.langOf(V.symv(p.sym), st), d) ? ps : null;
      }
      return ps;
    };
    if (lead) { ps = end(ps, HEADOK, (x) => x.trimStart()); if (!ps) return null; }
    if (trail) { ps = end(ps.slice().reverse(), TAILOK, (x) => x.trimEnd()); if (!ps) return null; ps = ps.reverse(); }
    return mkStr(ps.length ? ps : [""]);
  };
  S("trim", (v, a, st) => ok(st, concrete("trim")(v, a, st) || trimParts(v, st, true, true) || e.derived("trim", [v], { ty: T.S }))); unary("toLowerCase", "lower"); unary("toUpperCase", "upper"); unary("toLocaleLowerCase", "lower"); unary("toLocaleUpperCase", "upper");
  for (const nm of ["trimStart", "trimEnd"]) S(nm, (v, a, st) => ok(st, concrete(nm)(v, a, st) || trimParts(v, st, nm === "trimStart", nm === "trimEnd") || e.derived("factor", [v, str(nm)], { ty: T.S })));
  const predLit = (name, mk, shortcut) => S(name, (v, a, st, n) => e.seq(e.toStr(arg(a, 0, st), st, n), (st, p) => {
    const l = litOf(p);
    const pos = a.length > 1 ? e.resolve(arg(a, 1, st), st) : U;
    if (l !== null && pos.k === "u") { const s = shortcut && shortcut(v, l, st); if (s) return ok(st, s); return e.splitLang(st, v, mk(l)); }
    if (key(v) === key(p)) return ok(st, TRUE);
    return e.forkCond(name + ":" + key(v) + "," + key(p) + key(pos), st);
  }));
  const edge = (v, l, atStart) => {
    // decide from a literal edge of a composite string
    if (v.k !== "s") return null;
    const p = atStart ? v.p[0] : v.p[v.p.length - 1];
    if (typeof p !== "string") return null;
    if (p.length >= l.length) return bool(atStart ? p.startsWith(l) : p.endsWith(l));
    if (atStart ? !l.startsWith(p) : !l.endsWith(p)) return FALSE;
    return null;
  };
  predLit("startsWith", (l) => L.concat(L.lit(l), L.ALL), (v, l) => edge(v, l, true));
  predLit("endsWith", (l) => L.concat(L.ALL, L.lit(l)), (v, l) => edge(v, l, false));
  predLit("includes", (l) => L.concat(L.concat(L.ALL, L.lit(l)), L.ALL), (v, l) => (v.k === "s" && v.p.some((p) => typeof p === "string" && p.includes(l)) ? TRUE : null));
  S("indexOf", (v, a, st, n) => e.seq(e.toStr(arg(a, 0, st), st, n), (st, p) => {
    const c = concrete("indexOf")(v, [one(p), ...a.slice(1)], st);
    if (c) return ok(st, c);
    const l = litOf(p);
    if (l !== null) return e.seq(e.splitLang(st, v, L.concat(L.concat(L.ALL, L.lit(l)), L.ALL)), (st, b) => ok(st, b.v ? e.opaque("indexOf", [v, p], { ty: T.D, lo: 0, nan: false, int: true }) : num(-1)));
    return ok(st, e.opaque("indexOf", [v, p], { ty: T.D, lo: -1, nan: false, int: true }));
  }));
  S("lastIndexOf", (v, a, st, n) => F["String.prototype.indexOf"](v, a, st, n));
  S("charCodeAt", (v, a, st) => { const i = a.length ? e.resolve(arg(a, 0, st), st) : num(0); const l = litOf(v); if (l !== null && i.k === "d") return ok(st, num(l.charCodeAt(i.v))); const [lo, hi] = require("./ops").lenR(e.langOf(v, st)); if (i.k === "d" && i.v === 0 && lo === 1 && hi === 1) return ok(st, e.derived("code", [v], { ty: T.D })); return ok(st, e.opaque("charCodeAt", [v, i], { ty: T.D, lo: 0, hi: 65535, int: true })); });
  S("codePointAt", (v, a, st) => { const i = a.length ? e.resolve(arg(a, 0, st), st) : num(0); const l = litOf(v); if (l !== null && i.k === "d") { const c = l.codePointAt(i.v); return ok(st, c === undefined ? U : num(c)); } const [lo, hi] = require("./ops").lenR(e.langOf(v, st)); if (i.k === "d" && i.v === 0 && lo >= 1) return ok(st, hi === 1 ? e.derived("code", [v], { ty: T.D }) : L.subset(e.langOf(v, st), L.ANYCP) ? e.derived("cp", [v], { ty: T.D }) : e.opaque("cp", [v], { ty: T.D, lo: 0, hi: 0x10ffff, nan: false, int: true })); return ok(st, e.opaque("codePointAt", [v, i], { ty: T.D | T.U, lo: 0, hi: 0x10ffff, nan: false, int: true })); });
  F["String.prototype.at0"] = (v, a, st, n) => e.seq(e.strict(v, st), (st, v) => {
    const i = e.resolve(arg(a, 0, st), st).v;
    // long enough?
    return e.seq(e.splitLang(st, v, L.lenBetween(i + 1, Infinity)), (st, b) => {
      if (!b.v) return ok(st, U);
      const l = litOf(v); if (l !== null) return ok(st, str(l[i]));
      if (v.k === "s" && typeof v.p[0] === "string" && v.p[0].length > i) return ok(st, str(v.p[0][i]));
      if (i === 0) return ok(st, e.derived("char0", [v], { ty: T.S }));
      return ok(st, e.derived("charAt0", [v, num(i)], { ty: T.S }));
    });
  });
  S("charAt", (v, a, st, n) => { const i = a.length ? e.resolve(arg(a, 0, st), st) : num(0); if (i.k !== "d") return ok(st, e.opaque("charAt", [v, i], { ty: T.S, lang: L.lenBetween(0, 1) })); return e.seq(F["String.prototype.at0"](v, [one(i)], st, n), (st, r) => ok(st, r.k === "u" ? str("") : r)); });
  S("at", (v, a, st, n) => { const c = concrete("at")(v, a, st); if (c) return ok(st, c); const i = e.resolve(arg(a, 0, st), st); if (i.k === "d" && i.v >= 0) return F["String.prototype.at0"](v, [one(i)], st, n); return ok(st, e.opaque("at", [v, i], { ty: T.S | T.U, lang: L.lenBetween(1, 1) })); });
  const slice = (name) => (v, a, st) => {
    const c = concrete(name)(v, a, st);
    if (c) return ok(st, c);
    const i = a.length ? e.resolve(arg(a, 0, st), st) : num(0), j = a.length > 1 ? e.resolve(arg(a, 1, st), st) : U;
    if (i.k === "d" && i.v >= 0 && j.k === "u") {
      if (i.v === 0) return ok(st, v);
      // drop literal prefix
      const ps = partsOf(v).slice();
      let k = i.v;
      while (k > 0 && ps.length && typeof ps[0] === "string") { if (ps[0].length <= k) { k -= ps[0].length; ps.shift(); } else { ps[0] = ps[0].slice(k); k = 0; } }
      if (k === 0) return ok(st, mkStr(ps));
      return ok(st, e.derived("drop", [mkStr(ps), num(k)], { ty: T.S }));
    }
    if (i.k === "d" && i.v === 0 && j.k === "d" && j.v >= 0) return ok(st, e.derived("take", [v, j], { ty: T.S }));
    return ok(st, e.derived("factor", [v, str(name + key(i) + key(j))], { ty: T.S }));
  };
  S("slice", slice("slice")); S("substring", slice("substring")); S("substr", slice("substr"));
  S("concat", (v, a, st, n) => { let outs = ok(st, partsOf(v)); for (const s of a) outs = e.seq(outs, (st, ps) => e.seq(e.toStr(s.v, st, n), (st, x) => ok(st, [...ps, ...partsOf(x)]))); return e.seq(outs, (st, ps) => ok(st, mkStr(ps))); });
  S("repeat", (v, a, st) => { const c = e.resolve(arg(a, 0, st), st); if (c.k === "d" && c.v >= 0 && c.v < 1000) { const ps = []; for (let i = 0; i < c.v; i++) ps.push(...partsOf(v)); return ok(st, mkStr(ps)); } return ok(st, e.derived("star", [v, c], { ty: T.S })); });
  for (const nm of ["padStart", "padEnd"]) S(nm, (v, a, st) => { const c = concrete(nm)(v, a, st); if (c) return ok(st, c); const f = a.length > 1 ? arg(a, 1, st) : str(" "); return ok(st, e.derived("pad", [v, f, str(nm + key(e.resolve(arg(a, 0, st), st)))], { ty: T.S })); });
  S("localeCompare", (v, a, st) => {
    let c = null;
    const l = litOf(v), m = litOf(e.resolve(arg(a, 0, st), st)), loc = a.length > 1 ? e.resolve(arg(a, 1, st), st) : U, o = a.length > 2 ? e.resolve(arg(a, 2, st), st) : U;
    if (l !== null && m !== null && (loc.k === "u" || litOf(loc) !== null)) {
      const opts = {};
      let known = o.k === "u";
      if (o.k === "o") { known = true; for (const k of ["sensitivity", "numeric", "ignorePunctuation", "caseFirst", "usage"]) { const r = e.getProp(o, k, st.clone(), null); const x = r.length === 1 && !r[0].thr ? e.resolve(r[0].v, r[0].st) : null; if (!x || !isConst(x)) known = false; else if (x.k !== "u") opts[k] = x.k === "s" ? litOf(x) : x.v; } }
      if (known) c = num(l.localeCompare(m, loc.k === "u" ? "en" : litOf(loc), opts));
    } return ok(st, c || e.opaque("localeCompare", [v, arg(a, 0, st)], { ty: T.D, nan: false, int: true })); });
  S("split", (v, a, st, n) => {
    const sepV = e.resolve(arg(a, 0, st), st);
    const l = litOf(v);
    const re = sepV.k === "o" && st.get(sepV.id).cls === "RegExp" ? st.get(sepV.id) : null;
    const sl = litOf(sepV);
    const lim = a.length > 1 ? e.resolve(arg(a, 1, st), st) : U;
    if (l !== null && (re || sl !== null || sepV.k === "u") && (lim.k === "u" || lim.k === "d")) {
      const parts = l.split(re ? new RegExp(re.src, re.flags) : sepV.k === "u" ? undefined : sl, lim.k === "d" ? lim.v : undefined);
      return ok(st, e.allocArr(st, parts.map((x) => one(x === undefined ? U : str(x))), n, "split"));
    }
    if (sepV.k === "u") return ok(st, e.allocArr(st, [one(v)], n, "split"));
    {
      const ss = lim.k === "u" && l === null && (re || sl) ? structSplit(re, sl, v, st) : null;
      if (ss) return ok(st, e.allocArr(st, ss.map(one), n, "split"));
    }
    if (!re && sl === null) return ok(st, e.allocArr(st, [{ k: "*", alts: [[one(e.opaque("splitDyn", [v, sepV], { ty: T.S }))]] }], n, "split"));
    if (sl === "") return e.seq(e.iterSegs(v, st, n), (st, s) => ok(st, e.allocArr(st, s, n, "split")));
    const sepK = str(re ? "re:" + re.src + "/" + re.flags : sl);
    const mk = (tag, rep) => e.syms.named("split" + tag + "(" + key(v) + "," + key(sepK) + ")", "piece of " + e.show(v), { ty: T.S }, { derive: { op: "splitElem", args: [v, sepK] }, rep, ...(rep ? {} : {}) });
    const segs = [one(mk("0", false)), { k: "*", alts: [[one(mk("*", true))]] }];
    if (re && /\((?!\?)/.test(re.src)) return e.undecided("split with captures", n);
    return ok(st, e.allocArr(st, lim.k === "d" && lim.v === 1 ? segs.slice(0, 1) : segs, n, "split"));
  });
  // text of literals and unknowns -> the text with one private character per unknown,
  // provided no unknown can contain a character the pattern mentions
  const placeheld = (v, st, sets, min = 2) => {
    const ps = partsOf(v);
    if (!ps || ps.length < min || ps.some((p) => typeof p !== "string" && p.sym === undefined) || ps.length > 6000) return null;
    let s = "", k = 0xe000;
    const back = new Map();
    for (const p of ps) {
      if (typeof p === "string") { if (/[\ue000-\uf8ff]/.test(p)) return null; s += p; continue; }
      const cs = L.normSet(L.chars(e.langOf(V.symv(p.sym), st)).map((x) => [...x]));
      if (sets.some((x) => L.interSet(x, cs).length || L.interSet(x, [[k, k]]).length)) return null;
      const c = String.fromCharCode(k++);
      back.set(c, p); s += c;
    }
    const un = (t) => mkStr(t.split(/([\ue000-\uf8ff])/).filter((x) => x !== "").map((x) => back.get(x) || x).concat(t === "" ? [""] : []));
    return { s, un };
  };
  const reSetsOf = (re) => { try { const p = L.parseRegex(re.src, re.flags); let bad = false; (function w(x) { if (/bol|eol|wb|look/.test(x.t)) bad = true; (x.items || x.alts || (x.node ? [x.node] : [])).forEach(w); })(p.ast); return bad ? null : L.reSets(re.src, re.flags); } catch { return null; } };
  const structSplit = (re, sl, v, st) => {
    if (re && /\((?!\?)/.test(re.src)) return null;
    const sets = re ? reSetsOf(re) : [L.setOf(sl)];
    if (!sets || !sets.length) return null;
    const p = placeheld(v, st, sets, 1);
    return p ? p.s.split(re ? new RegExp(re.src, re.flags) : sl).map(p.un) : null;
  };
  // single character classes of a regex source
  const charClass = (re) => {
    let p;
    try { p = L.parseRegex(re.src, re.flags); } catch { return null; }
    let nd = p.ast;
    while (nd && ((nd.t === "seq" && nd.items.length === 1) || (nd.t === "group") || (nd.t === "alt" && nd.alts.length === 1))) nd = nd.t === "seq" ? nd.items[0] : nd.t === "group" ? nd.node : nd.alts[0];
    let rep = false;
    if (nd && nd.t === "rep" && nd.min === 1) { rep = true; nd = nd.node; }
    while (nd && ((nd.t === "seq" && nd.items.length === 1) || nd.t === "group")) nd = nd.t === "seq" ? nd.items[0] : nd.node;
    let lang;
    try { lang = L.reExact(re.src, re.flags); } catch { return null; }
    if (!lang) return null;
    const [lo, hi] = require("./ops").lenR(lang);
    if (lo === 1 && hi === 1) return { set: L.chars(lang), rep: false };
    if (rep && lo === 1) { const cs = L.chars(lang); if (L.equal(lang, L.inter(L.NONEMPTY, L.without(L.negSet(cs))))) return { set: cs, rep: true }; }
    return null;
  };
  e.charClass = charClass;
  const replace = (all) => (v, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, pat) => {
    const repl = e.resolve(arg(a, 1, st), st);
    const l = litOf(v);
    const re = pat.k === "o" && st.get(pat.id).cls === "RegExp" ? st.get(pat.id) : null;
    const pl = litOf(pat);
    const rl = litOf(repl);
    if (l !== null && rl !== null && (re || pl !== null)) return ok(st, str(all && pl !== null ? l.replaceAll(pl, rl) : l.replace(re ? new RegExp(re.src, re.flags) : pl, rl)));
    const global = re ? re.flags.includes("g") : all;
    // no occurrence at all?
    const matchLang = re ? (L.reTest(re.src, re.flags) || null) : pl !== null ? L.concat(L.concat(L.ALL, L.lit(pl)), L.ALL) : null;
    if (matchLang && L.isEmpty(L.inter(matchLang, e.langOf(v, st)))) return ok(st, v);
    const cc = re ? charClass(re) : pl !== null && pl.length === 1 ? { set: L.setOf ? [[pl.charCodeAt(0), pl.charCodeAt(0)]] : null } : null;
    const callRepl = (st, m) => {
      if (repl.k === "s" || repl.k === "y" && e.fact(repl.id, st).ty === T.S) {
        if (rl !== null && rl.includes("$")) {
          const ps = rl.split(/(\$&|\$\$)/).map((x) => (x === "$&" ? (m.k === "y" ? { sym: m.id } : litOf(m)) : x === "$$" ? "$" : x));
          if (ps.some((x) => typeof x === "string" && /\$[\d<`']/.test(x))) return ok(st, e.opaque("replpat", [m, repl], { ty: T.S }));
          return ok(st, mkStr(ps));
        }
        return ok(st, repl);
      }
      return e.seq(e.call(repl, U, [one(m), one(e.opaque("ofs", [v], { ty: T.D, lo: 0, nan: false, int: true })), one(v)], st, n), (st, r) => e.toStr(r, st, n));
    };
    if (global && cc && !cc.rep) {
      const idBase = "rc:" + (re ? re.src + "/" + re.flags : pl) + "=>" + (rl !== null ? JSON.stringify(rl) : e.siteKey(n) + e.ctx.join("/"));
      const m = e.syms.named("m:" + idBase, "matched character", { ty: T.S, lang: L.inter(L.lenBetween(1, 1), L.without(L.negSet(cc.set))) }, { rep: true });
      const groups = [];
      const out = [];
      const s0 = st.clone();
      for (const o of callRepl(s0, m)) {
        if (o.thr) { out.push({ st: o.st, thr: o.thr }); continue; }
        const fm = e.resolve(m, o.st);
        const set = L.chars(e.langOf(fm, o.st));
        for (const q of e.strict(o.v, o.st)) groups.push({ set: L.chars(e.langOf(m, q.st)), lang: e.langOf(q.v, q.st), val: q.v, m });
        void set;
      }
      // merge overlapping sets conservatively
      const id = idBase + "#" + groups.map((g) => JSON.stringify(g.set) + g.lang.key.length).join(";");
      e.replTable.set(id, groups);
      out.push({ st, v: e.derived("replaceC", [v, str(id)], { ty: T.S }) });
      return out;
    }
    // general case: result over the characters of the input and the replacement
    const m = e.syms.named("m:" + key(v) + "/" + (re ? re.src : pl), "matched text", { ty: T.S, ...(re && safeExact(re) ? { lang: safeExact(re) } : {}) }, {});
    const caps = re ? safeCaps(re) : [];
    const out = [];
    const s0 = st.clone();
    const rvals = [];
    const res = repl.k === "s" || repl.k === "y" ? callRepl(s0, m) : e.seq(e.call(repl, U, [one(m), ...caps.map((c) => one(capSym(c, v, re))), one(e.opaque("ofs", [v], { ty: T.D, lo: 0, nan: false, int: true })), one(v)], s0, n), (st, r) => e.toStr(r, st, n));
    for (const o of res) { if (o.thr) out.push(o); else for (const q of e.strict(o.v, o.st)) rvals.push({ v: q.v, lang: e.langOf(q.v, q.st) }); }
    const cs = [...L.chars(e.langOf(v, st)), ...rvals.flatMap((r) => L.chars(r.lang))].map((x) => [...x]);
    const tail = re && /^\^/.test(re.src) && !global && rl === "" ? L.factors(e.langOf(v, st)) : L.without(L.negSet(L.normSet(cs)));
    out.push({ st, v: e.syms.named("repl(" + key(v) + "," + (re ? re.src + "/" + re.flags : pl) + "," + (rl !== null ? rl : e.siteKey(n)) + ")", "replaced " + e.show(v), { ty: T.S, lang: tail }, { derive: { op: "?replace", args: [v, str(re ? "re:" + re.flags + (all ? "A" : "") + ":" + re.src : (all ? "la:" : "l:") + pl), rl !== null ? str(rl) : U] } }) });
    return out;
  });
  const safeExact = (re) => { try { return L.reExact(re.src, re.flags); } catch { return null; } };
  const safeCaps = (re) => { try { return L.captures(re.src, re.flags).sort((a, b) => a.index - b.index); } catch { return []; } };
  const capSym = (c, v, re) => e.syms.named("cap" + c.index + "(" + key(v) + "," + re.src + ")", "capture " + (c.name || c.index) + " of " + e.show(v), { ty: c.optional ? T.S | T.U : T.S, ...(c.lang ? { lang: c.lang } : {}) }, { derive: { op: "capture", args: [v, str(re.flags.replace(/[gy]/g, "") + "/" + re.src), num(c.index)] } });
  S("replace", replace(false)); S("replaceAll", replace(true));
  // regex exec / test / match
  const lastIndexGate = (rv, st) => { const re = st.get(rv.id); return /[gy]/.test(re.flags) ? e.resolve(re.lastIndex || num(0), st) : num(0); };
  // a literal text under a stateful pattern at a known position: exact
  const exactExec = (rv, v, st) => {
    const re = st.get(rv.id), l = litOf(v), li = lastIndexGate(rv, st);
    if (l === null || !/[gy]/.test(re.flags) || li.k !== "d") return undefined;
    const r = new RegExp(re.src, re.flags); r.lastIndex = li.v;
    const m = r.exec(l), c = cloneObj(st.get(rv.id));
    c.lastIndex = num(r.lastIndex); st.set(rv.id, c);
    return m;
  };
  const reTest = (rv, v, st, n) => {
    const ex = exactExec(rv, v, st);
    if (ex !== undefined) return ok(st, bool(ex !== null));
    const re = st.get(rv.id);
    const D = (() => { try { return L.reTest(re.src, re.flags.replace(/[gy]/g, "")); } catch { return null; } })();
    const li = lastIndexGate(rv, st);
    const stateful = /[gy]/.test(re.flags);
    const setLI = (s, val) => { if (stateful) { const c = cloneObj(s.get(rv.id)); c.lastIndex = val; s.set(rv.id, c); } };
    if (!(li.k === "d" && li.v === 0)) {
      // matching resumes at an earlier position: may fail although the text matches
      const s2 = st.clone(), out = [];
      if (!D || e.refineStr(st, v, D)) { setLI(st, e.syms.named("li@" + rv.id, "lastIndex", { ty: T.D, lo: 0, nan: false, int: true })); out.push({ st, v: TRUE }); }
      setLI(s2, num(0)); s2.event({ name: "stateful-regex", node: n, tkey: e.siteKey(n) });
      out.push({ st: s2, v: FALSE });
      return out;
    }
    const outs = D ? e.splitLang(st, v, D) : e.forkCond("re:" + re.src + ":" + key(v), st, (s) => { e.markImprecise(s, v); return true; }, (s) => { e.markImprecise(s, v); return true; });
    for (const o of outs) setLI(o.st, o.v.v ? e.syms.named("li@" + rv.id, "lastIndex", { ty: T.D, lo: 0, nan: false, int: true }) : num(0));
    return outs;
  };
  F["RegExp.prototype.test"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, v0) => e.seq(e.toStr(v0, st, n), (st, v) => reTest(t, v, st, n)));
  // Matching a text of literals and unknowns exactly: an unknown whose characters
  // the pattern cannot tell apart is represented by one word per possible length.
  const structMatch = (re, v, st, caps, n) => {
    const ps = partsOf(v);
    if (!ps || ps.length < 2 || !ps.some((p) => p.sym !== undefined) || ps.some((p) => p.join)) return null;
    let sets;
    try { sets = L.reSets(re.src, re.flags); } catch { return null; }
    const uniform = (set) => sets.every((s) => { const x = L.interSet(s, set); return !x.length || L.setKey(x) === L.setKey(set); });
    let words = [[]];
    for (const p of ps) {
      if (typeof p === "string") { words = words.map((w) => [...w, p]); continue; }
      const d = e.langOf(V.symv(p.sym), st), cs = L.normSet(L.chars(d).map((x) => [...x]));
      let ws;
      if (cs.length && uniform(cs)) {
        const [lo, hi] = e.lenRange(d);
        if (!(hi - lo < 16)) return null;
        ws = []; for (let k = lo; k <= hi; k++) { const w = L.witness(L.inter(d, L.lenBetween(k, k))); if (w !== null) ws.push(w); }
      } else return null;
      words = words.flatMap((w) => ws.map((x) => [...w, x]));
      if (words.length > 64) return null;
    }
    const R = new RegExp(re.src, re.flags.replace(/[gyd]/g, "") + "d");
    let sig = null;
    for (const w of words) {
      const m = R.exec(w.join(""));
      if (!m) return null;
      const pos = [0]; w.forEach((x) => pos.push(pos[pos.length - 1] + x.length));
      const at = (i) => { // offset -> [part, offset within a literal part]
        for (let k = 0; k < ps.length; k++) { if (i === pos[k]) return k + ":0"; if (i < pos[k + 1]) return typeof ps[k] === "string" ? k + ":" + (i - pos[k]) : null; }
        return ps.length + ":0";
      };
      const s = m.indices.map((x) => (x ? [at(x[0]), at(x[1])] : null));
      if (s.some((x) => x && (x[0] === null || x[1] === null))) return null;
      const k = JSON.stringify(s);
      if (sig !== null && sig !== k) return null;
      sig = k;
    }
    const piece = (x) => {
      if (!x) return U;
      const [a, ao] = x[0].split(":").map(Number), [b, bo] = x[1].split(":").map(Number), out = [];
      for (let k = a; k <= b && k < ps.length; k++) { if (k === b && !bo) break; const p = ps[k]; out.push(typeof p === "string" ? p.slice(k === a ? ao : 0, k === b ? bo : undefined) : p); }
      return mkStr(out.length ? out : [""]);
    };
    const vals = JSON.parse(sig).map(piece);
    const gs = new Map(caps.filter((c) => c.name).map((c) => [c.name, { v: vals[c.index] }]));
    const g = gs.size ? e.alloc(st, { cls: "Object", layers: [gs], proto: NULL }, n, "groups") : U;
    return e.alloc(st, { cls: "Array", segs: vals.map(one), layers: [new Map([["groups", { v: g, ne: true }], ["index", { v: e.opaque("matchIndex", [v], { ty: T.D, lo: 0, nan: false, int: true }), ne: true }], ["input", { v, ne: true }]])] }, n, "match" + key(v).slice(0, 40));
  };
  const matchObj = (rv, v, st, n, given) => {
    const re = st.get(rv.id);
    const l = litOf(v);
    const caps = safeCaps(re);
    if (l !== null) {
      const m = given || new RegExp(re.src, re.flags.replace(/[gy]/g, "")).exec(l);
      const gs = new Map();
      if (m.groups) for (const k of Object.keys(m.groups)) gs.set(k, { v: m.groups[k] === undefined ? U : str(m.groups[k]) });
      const g = m.groups ? e.alloc(st, { cls: "Object", layers: [gs], proto: NULL }, n, "groups") : U;
      return e.alloc(st, { cls: "Array", segs: m.map((x) => one(x === undefined ? U : str(x))), layers: [new Map([["groups", { v: g, ne: true }], ["index", { v: num(m.index), ne: true }], ["input", { v, ne: true }]])] }, n, "match");
    }
    const sm = structMatch(re, v, st, caps, n);
    if (sm) return sm;
    let full = e.syms.named("match0(" + key(v) + "," + re.src + ")", "match in " + e.show(v), { ty: T.S, ...(safeExact(re) ? { lang: safeExact(re) } : {}) }, { derive: { op: "capture", args: [v] } });
    // a capture spanning the whole subject is the subject itself
    const whole = /^\^\((?:\?<\w+>)?(?:[^()]|\\[()])*\)\$$/.test(re.src);
    if (/^\^/.test(re.src) && /\$$/.test(re.src) && !re.flags.includes("m")) full = v;
    const cv = caps.map((c) => (whole && c.index === 1 ? v : capSym(c, v, re)));
    const names = caps.filter((c) => c.name);
    const g = names.length ? e.alloc(st, { cls: "Object", layers: [new Map(names.map((c) => [c.name, { v: cv[c.index - 1] }]))], proto: NULL }, n, "groups") : U;
    return e.alloc(st, { cls: "Array", segs: [one(full), ...cv.map(one)], layers: [new Map([["groups", { v: g, ne: true }], ["index", { v: e.opaque("matchIndex", [v], { ty: T.D, lo: 0, nan: false, int: true }), ne: true }], ["input", { v, ne: true }]])] }, n, "match" + key(v).slice(0, 40));
  };
  F["RegExp.prototype.exec"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, v0) => e.seq(e.toStr(v0, st, n), (st, v) => { const ex = exactExec(t, v, st); return ex !== undefined ? ok(st, ex ? matchObj(t, e.resolve(v, st), st, n, ex) : NULL) : e.seq(reTest(t, v, st, n), (st, b) => ok(st, b.v ? matchObj(t, e.resolve(v, st), st, n) : NULL)); }));
  const toRe = (p, st, n) => { p = e.resolve(p, st); if (p.k === "o" && st.get(p.id).cls === "RegExp") return p; const l = litOf(p); if (l !== null) return e.alloc(st, { cls: "RegExp", src: l, flags: "", lastIndex: num(0), layers: [new Map()] }, n, "re"); return null; };
  S("match", (v, a, st, n) => {
    const rv = toRe(arg(a, 0, st), st, n);
    if (!rv) return ok(st, e.opaque("match", [v], { ty: T.N | T.A }));
    const re = st.get(rv.id);
    if (re.flags.includes("g")) {
      const l = litOf(v);
      if (l !== null) { const m = l.match(new RegExp(re.src, re.flags)); return ok(st, m ? e.allocArr(st, m.map((x) => one(str(x))), n, "match") : NULL); }
      const c = { ...re, flags: re.flags.replace("g", "") };
      const tmp = e.alloc(st, c, n, "reNoG");
      return e.seq(reTest(tmp, v, st, n), (st, b) => ok(st, b.v ? e.allocArr(st, [one(e.syms.named("m1(" + key(v) + "," + re.src + ")", "first match", { ty: T.S, ...(safeExact(re) ? { lang: safeExact(re) } : {}) })), { k: "*", alts: [[one(e.syms.named("mg(" + key(v) + "," + re.src + ")", "match", { ty: T.S, ...(safeExact(re) ? { lang: safeExact(re) } : {}) }, { rep: true }))]] }], n, "match") : NULL));
    }
    return F["RegExp.prototype.exec"](rv, [one(v)], st, n);
  });
  S("matchAll", (v, a, st, n) => { const rv = toRe(arg(a, 0, st), st, n); const re = rv && st.get(rv.id); if (!re) return e.undecided("matchAll", n); const l = litOf(v); if (l !== null) return ok(st, e.allocArr(st, [...l.matchAll(new RegExp(re.src, re.flags))].map((m, i) => one(e.alloc(st, { cls: "Array", segs: m.map((x) => one(x === undefined ? U : str(x))), layers: [new Map()] }, n, "ma" + i))), n, "ma")); const mo = matchObj(rv, v, st, n); return ok(st, e.allocArr(st, [{ k: "*", alts: [[one(mo)]] }], n, "ma")); });
  S("search", (v, a, st, n) => { const rv = toRe(arg(a, 0, st), st, n); return e.seq(reTest(rv, v, st, n), (st, b) => ok(st, b.v ? e.opaque("search", [v], { ty: T.D, lo: 0, nan: false, int: true }) : num(-1))); });
  S("@@iterator", (v, a, st, n) => e.seq(e.iterSegs(v, st, n), (st, s) => ok(st, e.allocArr(st, s, n, "it"))));
  F["RegExp.prototype.toString"] = (t, a, st, n) => e.toStr(t, st, n);
  F["RegExp.escape"] = (t, a, st) => ok(st, e.opaque("reEscape", [arg(a, 0, st)], { ty: T.S }));

  // ------------------------------------------------------------ Array
  const arrOf = (t, st, n, f) => e.seq(e.strict(t, st), (st, t) => e.seq(e.iterSegs(t, st, n), (st, segs) => f(st, segs, t)));
  F["Array.isArray"] = (t, a, st) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => (v.k === "o" ? ok(st, bool(st.get(v.id).cls === "Array")) : v.k === "y" ? e.splitType(st, v, T.A) : ok(st, FALSE)));
  F["Uint8Array.from"] = (t, a, st, n) => F["Array.from"](t, a, st, n).map((o) => { if (!o.thr && o.v.k === "o") { const x = o.st.get(o.v.id); const id = e.alloc(o.st, { ...x, cls: "Uint8Array" }, n, "u8from" + o.v.id); return { st: o.st, v: id }; } return o; });
  F["Array.from"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, src) => {
    const go = (st, segs) => (a.length > 1 && e.resolve(arg(a, 1, st), st).k !== "u" ? e.seq(e.mapSegs(segs, st, (st, v, i) => e.call(arg(a, 1, st), U, [one(v), one(num(i ?? 0))], st, n)), (st, s) => ok(st, e.allocArr(st, s, n, "from"))) : ok(st, e.allocArr(st, segs, n, "from")));
    if (src.k === "o" && !st.get(src.id).segs) {
      const ln = e.ownLookup(st.get(src.id), "length", st);
      if (ln.v && ln.v.k !== "x") {
        const lv = e.resolve(ln.v, st);
        if (lv.k === "d" && lv.v < 200) return go(st, Array.from({ length: lv.v }, () => one(U)));
        if (a.length > 1) return e.seq(e.call(arg(a, 1, st), U, [one(U), one(e.syms.named("fromIdx@" + e.siteKey(n), "index", { ty: T.D, lo: 0, nan: false, int: true }, { rep: true }))], st, n), (st, v) => ok(st, e.allocArr(st, [{ k: "*", alts: [[one(v)]] }], n, "from")));
        return ok(st, e.allocArr(st, [{ k: "*", alts: [[one(U)]] }], n, "from"));
      }
    }
    return e.seq(e.iterSegs(src, st, n), (st, segs) => go(st, segs));
  });
  F["Array.of"] = (t, a, st, n) => ok(st, e.allocArr(st, a, n, "of"));
  const A = (name, f) => { F["Array.prototype." + name] = (t, a, st, n) => arrOf(t, st, n, (st, segs, tv) => f(tv, segs, a, st, n)); };
  const cb = (a, st, v, i, t, n) => e.call(arg(a, 0, st), a.length > 1 ? arg(a, 1, st) : U, [one(v), one(typeof i === "number" ? num(i) : e.syms.named("idx@" + e.siteKey(n), "index", { ty: T.D, lo: 0, nan: false, int: true })), one(t)], st, n);
  const idx = (segs, i) => (i === undefined || i < 0 ? null : segs.slice(0, i + 1).every((s) => s.k === "1") ? i : null);
  A("map", (t, segs, a, st, n) => e.seq(e.mapSegs(segs, st, (st, v, i) => cb(a, st, v, idx(segs, i), t, n)), (st, s) => ok(st, e.allocArr(st, s, n, "map"))));
  A("flatMap", (t, segs, a, st, n) => e.seq(e.mapSegs(segs, st, (st, v, i) => e.seq(cb(a, st, v, idx(segs, i), t, n), (st, r) => e.seq(e.strict(r, st), (st, r) => (r.k === "o" && st.get(r.id).segs ? ok(st, st.get(r.id).segs) : ok(st, [one(r)])))), { flat: true, partial: true }), (st, s) => ok(st, e.allocArr(st, s, n, "fmap"))));
  A("flat", (t, segs, a, st, n) => e.seq(e.mapSegs(segs, st, (st, v) => e.seq(e.strict(v, st), (st, r) => (r.k === "o" && st.get(r.id).cls === "Array" ? ok(st, st.get(r.id).segs) : ok(st, [one(r)]))), { flat: true }), (st, s) => ok(st, e.allocArr(st, s, n, "flat"))));
  A("filter", (t, segs, a, st, n) => e.seq(e.mapSegs(segs, st, (st, v, i) => e.seq(cb(a, st, v, idx(segs, i), t, n), (st, r) => e.truthy(r, st).map((o) => ({ st: o.st, v: o.b ? [one(e.resolve(v, o.st).k === "i" ? v : v)] : [] }))), { flat: true, partial: true }), (st, s) => ok(st, e.allocArr(st, s, n, "filter"))));
  const loopPred = (t, segs, a, st, n, stopOn, rev) => {
    const hit = [];
    if (rev) segs = segs.slice().reverse();
    const at = (i) => { const x = idx(segs, i); return rev ? (x !== null && segs.every((s) => s.k === "1") ? segs.length - 1 - x : null) : x; };
    const r = e.loopSegs(segs, [st], (st, v, i) => e.seq(cb(a, st, v, at(i), t, n), (st, x) => e.truthy(x, st).map((o) => ({ st: o.st, v: bool(o.b) }))).map((o) => {
      if (o.thr) return { st: o.st, c: "thr", v: o.thr };
      if (o.v.v === stopOn) { hit.push({ st: o.st, v, i: at(i) }); return { st: o.st, c: "brk" }; }
      return { st: o.st };
    }), n);
    return { ends: r.ends, breaks: r.breaks, thr: r.abrupt.map((o) => ({ st: o.st, thr: o.v })), hit };
  };
  A("every", (t, segs, a, st, n) => { const r = loopPred(t, segs, a, st, n, false); return [...r.ends.map((st) => ({ st, v: TRUE })), ...e.compact(r.breaks).map((st) => ({ st, v: FALSE })), ...r.thr]; });
  A("some", (t, segs, a, st, n) => { const r = loopPred(t, segs, a, st, n, true); return [...e.compact(r.breaks).map((st) => ({ st, v: TRUE })), ...r.ends.map((st) => ({ st, v: FALSE })), ...r.thr]; });
  const findLike = (kind, rev) => (t, segs, a, st, n) => { const r = loopPred(t, segs, a, st, n, true, rev); const bset = new Set(r.breaks); return [...r.hit.filter((h) => bset.has(h.st)).map((h) => ({ st: h.st, v: kind === "find" ? h.v : h.i !== null ? num(h.i) : e.opaque("findIndex", [t], { ty: T.D, lo: 0, nan: false, int: true }) })), ...r.ends.map((st) => ({ st, v: kind === "find" ? U : num(-1) })), ...r.thr]; };
  A("find", findLike("find")); A("findLast", findLike("find", true)); A("findIndex", findLike("idx")); A("findLastIndex", findLike("idx", true));
  A("forEach", (t, segs, a, st, n) => { const r = e.loopSegs(segs, [st], (st, v, i) => cb(a, st, v, idx(segs, i), t, n).map((o) => (o.thr ? { st: o.st, c: "thr", v: o.thr } : { st: o.st })), n); return [...r.ends.map((st) => ({ st, v: U })), ...r.abrupt.map((o) => ({ st: o.st, thr: o.v }))]; });
  const reduceLike = (rev) => (t, segs, a, st, n) => {
    if (rev) segs = segs.slice().reverse();
    let acc = a.length > 1 ? arg(a, 1, st) : null;
    if (acc === null) { if (!segs.length) return e.throwErr(st, "TypeError", "Reduce of empty array with no initial value", n); if (segs[0].k !== "1") return ok(st, e.opaque("reduce", [t])); acc = segs[0].v; segs = segs.slice(1); }
    const sc = e.newScope(st, 0, n, "acc");
    e.declare(st, sc, "acc", acc);
    const r = e.loopSegs(segs, [st], (st, v) => e.call(arg(a, 0, st), U, [one(st.get(sc).vars.get("acc")), one(v), one(e.syms.named("idx@" + e.siteKey(n), "index", { ty: T.D, lo: 0, nan: false, int: true })), one(t)], st, n).map((o) => { if (o.thr) return { st: o.st, c: "thr", v: o.thr }; e.declare(o.st, sc, "acc", o.v); return { st: o.st }; }), n);
    return [...r.ends.map((st) => ({ st, v: st.get(sc).vars.get("acc") })), ...r.abrupt.map((o) => ({ st: o.st, thr: o.v }))];
  };
  A("reduce", reduceLike(false)); A("reduceRight", reduceLike(true));
  A("join", (t, segs, a, st, n) => { const s = a.length ? e.resolve(arg(a, 0, st), st) : str(","); const l = s.k === "u" ? "," : litOf(s); if (l === null) return ok(st, e.opaque("join", [t, s], { ty: T.S }));
    // split and joined again: one literal for another
    if (segs.length === 2 && segs[0].k === "1" && segs[0].v.k === "y" && segs[1].k === "*" && segs[1].alts.length === 1 && segs[1].alts[0].length === 1 && segs[1].alts[0][0].k === "1" && segs[1].alts[0][0].v.k === "y") {
      const x = e.syms.get(segs[0].v.id), y = e.syms.get(segs[1].alts[0][0].v.id), d = x && x.derive;
      const sep = d && d.op === "splitElem" && y.derive && y.derive.op === "splitElem" && key(d.args[0]) === key(y.derive.args[0]) && key(d.args[1]) === key(y.derive.args[1]) && segs[0].v.id.startsWith("split0(") ? litOf(d.args[1]) : null;
      if (sep && !sep.startsWith("re:")) return F["String.prototype.replaceAll"](d.args[0], [one(str(sep)), one(str(l.replace(/\$/g, "$$$$")))], st, n);
    }
    return e.joinSegsStr(st, segs, l, n); });
  A("toString", (t, segs, a, st, n) => e.joinSegsStr(st, segs, ",", n));
  const mutArr = (t, st, n, what, f) => { if (t.k === "o") { const o = st.get(t.id); if (o.frozen) return e.throwErr(st, "TypeError", "Cannot add property, object is not extensible", n); e.mutated(st, t, what, n); const c = cloneObj(o); const r = f(c); st.set(t.id, c); return ok(st, r); } if (t.k === "y") { e.mutated(st, t, what, n); return ok(st, e.opaque(what, [t])); } return ok(st, U); };
  A("push", (t, segs, a, st, n) => mutArr(t, st, n, "push", (c) => { c.segs = [...c.segs, ...a]; return c.segs.every((s) => s.k === "1") ? num(c.segs.length) : e.opaque("pushlen", [t], { ty: T.D, lo: 0, nan: false, int: true }); }));
  A("unshift", (t, segs, a, st, n) => mutArr(t, st, n, "unshift", (c) => { c.segs = [...a, ...c.segs]; return e.opaque("pushlen", [t], { ty: T.D }); }));
  A("pop", (t, segs, a, st, n) => mutArr(t, st, n, "pop", (c) => { const l = c.segs[c.segs.length - 1]; if (!l) return U; if (l.k === "1") { c.segs = c.segs.slice(0, -1); return l.v; } return e.opaque("pop", [t]); }));
  A("shift", (t, segs, a, st, n) => mutArr(t, st, n, "shift", (c) => { const l = c.segs[0]; if (!l) return U; if (l.k === "1") { c.segs = c.segs.slice(1); return l.v; } const r = e.segIndex(c.segs, 0, st); return r; }));
  const elems = (segs) => { const es = []; const w = (x) => { if (x.k === "1") es.push(x.v); else if (x.k === "*") x.alts.forEach((q) => q.forEach(w)); else { x.a.forEach(w); x.b.forEach(w); } }; segs.forEach(w); return es; };
  e.segElems = elems;
  // the exact order, where the elements are literals or the comparator always answers with a known number
  const exactSort = (segs, a, st, n) => {
    if (segs.length < 2 && segs.every((s) => s.k === "1")) return [{ st, segs }];
    if (segs.length > 64 || segs.some((s) => s.k !== "1")) return null;
    const f = a.length ? e.resolve(arg(a, 0, st), st) : U;
    if (f.k === "u") {
      const ks = segs.map((s) => { const v = e.resolve(s.v, st); return v.k === "d" ? String(v.v) : v.k === "b" ? String(v.v) : litOf(v); });
      if (ks.some((k) => k === null)) return null;
      return [{ st, segs: segs.map((s, i) => [ks[i], s]).sort((x, y) => (x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : 0)).map((x) => x[1]) }];
    }
    if (segs.length > 24) return null;
    let work = [{ st, segs: [] }];
    const out = [];
    for (const x of segs) {
      const next = [];
      let pend = work.map((w) => ({ ...w, j: w.segs.length }));
      while (pend.length) {
        const w = pend.pop();
        if (w.j === 0) { next.push({ st: w.st, segs: [x, ...w.segs] }); continue; }
        for (const o of e.call(f, U, [w.segs[w.j - 1], x], w.st, n)) {
          if (o.thr) { out.push(o); continue; }
          const v = e.resolve(o.v, o.st);
          const c = v.k === "d" ? v.v : v.k === "b" ? Number(v.v) : v.k === "u" ? NaN : null;
          if (c === null) return null;
          if (c > 0) pend.push({ st: o.st, segs: w.segs, j: w.j - 1 });
          else next.push({ st: o.st, segs: [...w.segs.slice(0, w.j), x, ...w.segs.slice(w.j)] });
        }
        if (pend.length + next.length > 64) return null;
      }
      work = next;
    }
    return [...work, ...out];
  };
  const fork = (st) => (st.clone ? st.clone() : st);
  const sortWith = (t, segs, a, st, n, done, rough) => {
    const r = exactSort(segs, a, fork(st), n);
    if (!r) return rough(st);
    return r.flatMap((o) => (o.thr ? [o] : done(o.st, o.segs)));
  };
  const anyOrder = (segs) => (segs.length > 1 || segs.some((s) => s.k !== "1") ? [{ k: "*", alts: elems(segs).map((v) => [one(v)]) }] : segs);
  A("sort", (t, segs, a, st, n) => { const set = (st, q) => e.seq(mutArr(t, st, n, "sort", (c) => { c.segs = q; return t; }), (st) => ok(st, t)); return sortWith(t, segs, a, st, n, set, (st) => set(st, anyOrder(segs))); });
  A("toSorted", (t, segs, a, st, n) => { const set = (st, q) => ok(st, e.allocArr(st, q, n, "sorted")); return sortWith(t, segs, a, st, n, set, (st) => set(st, anyOrder(segs))); });
  A("reverse", (t, segs, a, st, n) => mutArr(t, st, n, "reverse", (c) => { c.segs = c.segs.slice().reverse(); return t; }));
  A("toReversed", (t, segs, a, st, n) => ok(st, e.allocArr(st, segs.slice().reverse(), n, "rev")));
  A("splice", (t, segs, a, st, n) => mutArr(t, st, n, "splice", (c) => { const i = e.resolve(arg(a, 0, st), st), d = a.length > 1 ? e.resolve(arg(a, 1, st), st) : num(Infinity); if (i.k === "d" && d.k === "d" && c.segs.every((s) => s.k === "1")) { const q = c.segs.slice(); const rem = q.splice(i.v, d.v, ...a.slice(2)); c.segs = q; return e.allocArr(st, rem, n, "spliced"); } c.segs = [{ k: "*", alts: [...elems(c.segs), ...elems(a.slice(2))].map((v) => [one(v)]) }]; return e.allocArr(st, [{ k: "*", alts: elems(segs).map((v) => [one(v)]) }], n, "spliced"); }));
  A("fill", (t, segs, a, st, n) => mutArr(t, st, n, "fill", (c) => { c.segs = c.segs.map((s) => (s.k === "1" ? one(arg(a, 0, st)) : { k: "*", alts: [[one(arg(a, 0, st))]] })); return t; }));
  A("slice", (t, segs, a, st, n) => {
    const i = a.length ? e.resolve(arg(a, 0, st), st) : num(0), j = a.length > 1 ? e.resolve(arg(a, 1, st), st) : U;
    if (segs.every((s) => s.k === "1") && i.k === "d" && (j.k === "u" || j.k === "d")) return ok(st, e.allocArr(st, segs.slice(i.v, j.k === "d" ? j.v : undefined), n, "slice"));
    if (i.k === "d" && i.v === 0 && j.k === "u") return ok(st, e.allocArr(st, segs, n, "slice"));
    if (i.k === "d" && i.v > 0 && j.k === "u" && segs.slice(0, i.v).length === i.v && segs.slice(0, i.v).every((s) => s.k === "1")) return ok(st, e.allocArr(st, segs.slice(i.v), n, "slice"));
    return ok(st, e.allocArr(st, [{ k: "*", alts: elems(segs).map((v) => [one(v)]) }], n, "slice"));
  });
  A("concat", (t, segs, a, st, n) => { let outs = ok(st, segs); for (const s of a) { outs = e.seq(outs, (st, acc) => { if (s.k !== "1") return ok(st, [...acc, s]); return e.seq(e.strict(s.v, st), (st, v) => (v.k === "o" && st.get(v.id).cls === "Array" ? ok(st, [...acc, ...st.get(v.id).segs]) : v.k === "y" && e.fact(v.id, st).ty === T.A ? e.seq(e.iterSegs(v, st, n), (st, q) => ok(st, [...acc, ...q])) : ok(st, [...acc, one(v)]))); }); } return e.seq(outs, (st, s) => ok(st, e.allocArr(st, s, n, "concat"))); });
  const kz = (x) => (x.k === "d" && x.v === 0 ? "0" : key(x));
  const includes = (t, segs, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => {
    const es = elems(segs);
    if (segs.every((s) => s.k === "1") && es.every((x) => isConst(e.resolve(x, st)))) {
      const cs = es.map((x) => e.resolve(x, st));
      if (isConst(v)) return ok(st, bool(cs.some((x) => kz(x) === kz(v))));
      if (cs.every((x) => x.k === "s") && (v.k === "y" || v.k === "s")) {
        const D = L.lits(cs.map(litOf));
        if (isStrV(v, st)) return e.splitLang(st, v, D);
        if (v.k === "y") { const f = e.fact(v.id, st); if (!(f.ty & T.S)) return ok(st, FALSE); return e.seq(e.splitType(st, v, T.S), (st, b) => (b.v ? e.splitLang(st, v, D) : ok(st, FALSE))); }
      }
      if (cs.length <= 12) { let outs = [{ st, v: FALSE }]; for (const c of cs) outs = outs.flatMap((o) => (o.v.v ? [o] : e.eqStrict(v, c, o.st, n).map((q) => q))); return outs; }
    }
    if (!es.length) return ok(st, FALSE);
    if (segs.some((s) => s.k === "1" && same(e.resolve(s.v, st), v))) return ok(st, TRUE);
    // elements that cannot be equal: other types, objects of another identity, texts of disjoint languages
    const differs = (x) => {
      x = e.resolve(x, st);
      if (x.k === "i" || v.k === "i") return false;
      const a = e.typeMask(x, st), b = e.typeMask(v, st);
      if (!(a & b)) return true;
      if (isConst(x) && isConst(v)) return x.k === "d" && v.k === "d" ? !(x.v === v.v || (x.v !== x.v && v.v !== v.v)) : key(x) !== key(v);
      if (x.k === "y" && v.k === "y" && x.id !== v.id && (e.syms.get(x.id) || {}).known && (e.syms.get(v.id) || {}).known) return true;
      if (x.k === "o" && v.k === "o") return x.id !== v.id && !st.get(x.id).summary && !st.get(v.id).summary;
      if ((x.k === "nat" && (v.k === "o" || v.k === "nat")) || (v.k === "nat" && x.k === "o")) return key(x) !== key(v);
      if (a === T.S && b === T.S) return L.isEmpty(L.inter(e.langOf(x, st), e.langOf(v, st)));
      return false;
    };
    if (segs.every((s) => s.k === "1") && es.length <= 64 && es.every(differs)) return ok(st, FALSE);
    // unknown contents: membership is an opaque condition tied to array and value
    if (segs.some((s) => s.k === "1" && isConst(e.resolve(s.v, st)) && isConst(v) && !differs(s.v))) return ok(st, TRUE);
    return e.forkCond("inc:" + segs.map(segKey).join(",") + ":" + key(v), st, (s) => { e.markImprecise(s, v); return true; });
  });
  A("includes", includes);
  A("indexOf", (t, segs, a, st, n) => e.seq(includes(t, segs, a, st, n), (st, b) => { if (!b.v) return ok(st, num(-1)); const v = e.resolve(arg(a, 0, st), st); if (isConst(v) && segs.every((s) => s.k === "1")) { const i = segs.findIndex((s) => kz(e.resolve(s.v, st)) === kz(v)); if (i >= 0) return ok(st, num(i)); } return ok(st, e.opaque("aindexOf", [t, v], { ty: T.D, lo: 0, hi: segs.every((s) => s.k === "1") ? segs.length - 1 : undefined, nan: false, int: true })); }));
  A("lastIndexOf", (t, segs, a, st, n) => F["Array.prototype.indexOf"](t, a, st, n));
  A("at", (t, segs, a, st) => { const i = e.resolve(arg(a, 0, st), st); if (i.k === "d" && i.v >= 0) return ok(st, e.segIndex(segs, i.v, st)); if (i.k === "d" && segs.slice(i.v).every((s) => s.k === "1") && segs.slice(i.v).length === -i.v) return ok(st, segs[segs.length + i.v].v); return ok(st, elems(segs).reduce((r, x) => mkIte(newCond("ix"), x, r), U)); });
  A("keys", (t, segs, a, st, n) => ok(st, e.allocArr(st, segs.every((s) => s.k === "1") ? segs.map((_, i) => one(num(i))) : [{ k: "*", alts: [[one(e.syms.named("ki@" + e.siteKey(n), "index", { ty: T.D, lo: 0, nan: false, int: true }, { rep: true }))]] }], n, "keys")));
  A("values", (t, segs, a, st, n) => ok(st, e.allocArr(st, segs, n, "values")));
  F["Array.prototype.@@iterator"] = F["Array.prototype.values"];
  A("entries", (t, segs, a, st, n) => e.seq(e.mapSegs(segs, st, (st, v, i) => ok(st, e.allocArr(st, [one(idx(segs, i) !== null ? num(i) : e.syms.named("ei@" + e.siteKey(n), "index", { ty: T.D, lo: 0, nan: false, int: true }, { rep: true })), one(v)], n, "ent" + i))), (st, s) => ok(st, e.allocArr(st, s, n, "entries"))));
  F["Array"] = (t, a, st, n) => ok(st, e.allocArr(st, a, n, "arr"));

  // ------------------------------------------------------------ Map / Set
  const pairK = (s) => (s.v.k === "pair" ? s.v.a : null);
  const mapFind = (o, k, st, found, missing) => {
    k = e.resolve(k, st);
    const segs = e.resolveSegs(o.segs, st);
    const kc = isConst(k) || k.k === "o" || k.k === "nat" || k.k === "S";
    if (segs.every((s) => s.k === "1" && (isConst(e.resolve(pairK(s), st)) || e.resolve(pairK(s), st).k === "o" || e.resolve(pairK(s), st).k === "nat"))) {
      if (kc) { const i = segs.findIndex((s) => kz(e.resolve(pairK(s), st)) === kz(k)); return i >= 0 ? found(st, segs[i].v.b, i) : missing(st); }
      const lits = segs.map((s) => litOf(e.resolve(pairK(s), st)));
      if (lits.every((x) => x !== null)) {
        const m = e.typeMask(k, st);
        if (!(m & T.S)) return missing(st);
        const run = (st) => {
          const D = L.lits(lits);
          return e.seq(e.splitLang(st, k, D), (st, b) => {
            if (!b.v) return missing(st);
            const cand = segs.filter((s, i) => e.langOf(k, st).accepts(lits[i]));
            if (cand.length <= 30) { const out = []; cand.forEach((s) => { const s2 = st.clone(); if (e.refineStr(s2, k, L.lit(litOf(e.resolve(pairK(s), st))))) out.push(...found(s2, s.v.b, segs.indexOf(s))); }); return out; }
            return found(st, e.derived("?mapval", [k], { ty: cand.reduce((q, s) => q | e.typeMask(e.resolve(s.v.b, st), st), 0) }), null);
          });
        };
        if (m === T.S) return run(st);
        return e.seq(e.splitType(st, k, T.S), (st, b) => (b.v ? run(st) : missing(st)));
      }
    }
    // look for the same abstract key
    for (let i = segs.length - 1; i >= 0; i--) if (segs[i].k === "1" && same(e.resolve(pairK(segs[i]), st), k)) return found(st, segs[i].v.b, i);
    if (!segs.length) return missing(st);
    const s2 = st.clone();
    let r = null;
    for (const s of elems(segs)) if (s.k === "pair") r = r ? mkIte(newCond("mp"), s.b, r) : s.b;
    const c = "map:" + segs.map(segKey).join(",").length + ":" + key(k);
    const out = [];
    if (e.decide(st, c, true)) out.push(...found(st, r || U, null));
    if (e.decide(s2, c, false)) out.push(...missing(s2));
    return out;
  };
  const M = (name, f) => { F["Map.prototype." + name] = F["WeakMap.prototype." + name] = (t, a, st, n) => e.seq(e.strict(t, st), (st, t) => (t.k === "o" && st.get(t.id).segs ? f(t, st.get(t.id), a, st, n) : ok(st, e.opaque("map." + name, [t, ...argVals(a, st)])))); };
  M("get", (t, o, a, st) => mapFind(o, arg(a, 0, st), st, (st, v) => ok(st, v), (st) => ok(st, U)));
  M("has", (t, o, a, st) => mapFind(o, arg(a, 0, st), st, (st) => ok(st, TRUE), (st) => ok(st, FALSE)));
  M("set", (t, o, a, st, n) => mapFind(o, arg(a, 0, st), st, (st, v, i) => { e.mutated(st, t, "set", n); const c = cloneObj(st.get(t.id)); const p = one({ k: "pair", a: arg(a, 0, st), b: arg(a, 1, st) }); if (i !== null) c.segs[i] = p; else c.segs = [...c.segs, p]; st.set(t.id, c); return ok(st, t); }, (st) => { e.mutated(st, t, "set", n); const c = cloneObj(st.get(t.id)); c.segs = [...c.segs, one({ k: "pair", a: arg(a, 0, st), b: arg(a, 1, st) })]; st.set(t.id, c); return ok(st, t); }));
  M("delete", (t, o, a, st, n) => mapFind(o, arg(a, 0, st), st, (st, v, i) => { e.mutated(st, t, "delete", n); const c = cloneObj(st.get(t.id)); if (i !== null) c.segs = c.segs.filter((_, j) => j !== i); st.set(t.id, c); return ok(st, TRUE); }, (st) => ok(st, FALSE)));
  M("clear", (t, o, a, st, n) => { e.mutated(st, t, "clear", n); const c = cloneObj(o); c.segs = []; st.set(t.id, c); return ok(st, U); });
  M("keys", (t, o, a, st, n) => ok(st, e.allocArr(st, mapSegsPure(o.segs, (v) => v.a), n, "mk")));
  M("values", (t, o, a, st, n) => ok(st, e.allocArr(st, mapSegsPure(o.segs, (v) => v.b), n, "mv")));
  M("entries", (t, o, a, st, n) => ok(st, e.allocArr(st, o.segs.map((s) => e.unpair(s, st, n)), n, "me")));
  M("forEach", (t, o, a, st, n) => { const r = e.loopSegs(o.segs, [st], (st, v) => e.call(arg(a, 0, st), U, [one(v.b), one(v.a), one(t)], st, n).map((x) => (x.thr ? { st: x.st, c: "thr", v: x.thr } : { st: x.st })), n); return [...r.ends.map((st) => ({ st, v: U })), ...r.abrupt.map((x) => ({ st: x.st, thr: x.v }))]; });
  const mapSegsPure = (segs, f) => segs.map((s) => (s.k === "1" ? one(f(s.v)) : s.k === "*" ? { ...s, alts: s.alts.map((q) => mapSegsPure(q, f)) } : { ...s, a: mapSegsPure(s.a, f), b: mapSegsPure(s.b, f) }));
  const Sx = (name, f) => { F["Set.prototype." + name] = F["WeakSet.prototype." + name] = (t, a, st, n) => e.seq(e.strict(t, st), (st, t) => (t.k === "o" && st.get(t.id).segs ? f(t, st.get(t.id), a, st, n) : ok(st, e.opaque("set." + name, [t, ...argVals(a, st)])))); };
  Sx("has", (t, o, a, st, n) => includes(t, e.resolveSegs(o.segs, st), a, st, n));
  Sx("add", (t, o, a, st, n) => e.seq(includes(t, e.resolveSegs(o.segs, st), a, st, n), (st, b) => { if (b.v) return ok(st, t); e.mutated(st, t, "add", n); const c = cloneObj(st.get(t.id)); c.segs = [...c.segs, one(arg(a, 0, st))]; st.set(t.id, c); return ok(st, t); }));
  Sx("delete", (t, o, a, st, n) => e.seq(includes(t, e.resolveSegs(o.segs, st), a, st, n), (st, b) => { if (!b.v) return ok(st, FALSE); e.mutated(st, t, "delete", n); const c = cloneObj(st.get(t.id)); const v = e.resolve(arg(a, 0, st), st); c.segs = c.segs.filter((s) => !(s.k === "1" && same(e.resolve(s.v, st), v))); st.set(t.id, c); return ok(st, TRUE); }));
  Sx("clear", (t, o, a, st, n) => { e.mutated(st, t, "clear", n); const c = cloneObj(o); c.segs = []; st.set(t.id, c); return ok(st, U); });
  Sx("values", (t, o, a, st, n) => ok(st, e.allocArr(st, o.segs, n, "sv")));
  F["Set.prototype.keys"] = F["Set.prototype.@@iterator"] = F["Set.prototype.values"];
  F["Map.prototype.@@iterator"] = F["Map.prototype.entries"];
  Sx("forEach", (t, o, a, st, n) => { const r = e.loopSegs(o.segs, [st], (st, v) => e.call(arg(a, 0, st), U, [one(v), one(v), one(t)], st, n).map((x) => (x.thr ? { st: x.st, c: "thr", v: x.thr } : { st: x.st })), n); return [...r.ends.map((st) => ({ st, v: U })), ...r.abrupt.map((x) => ({ st: x.st, thr: x.v }))]; });

  // ------------------------------------------------------------ JSON
  const JSONT = T.N | T.B | T.D | T.S | T.A | T.O;
  const jsonInfo = (extra = {}) => ({ plain: true, deepBase: true, childBase: () => ({ ty: JSONT | T.U, nan: false }), dynBase: { ty: JSONT | T.U, nan: false }, elemBase: { ty: JSONT, nan: false }, elemChildBase: () => ({ ty: JSONT | T.U, nan: false }), elemExtra: { plain: true, deepBase: true, elemBase: { ty: JSONT, nan: false }, json: true }, dynExtra: { plain: true, json: true }, childExtra: () => ({ plain: true, json: true, elemBase: { ty: JSONT, nan: false }, elemChildBase: () => ({ ty: JSONT | T.U, nan: false }), elemExtra: { plain: true, json: true } }), json: true, ...extra });
  e.jsonInfo = jsonInfo; e.JSONT = JSONT;
  F["JSON.parse"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => {
    if (e.hooks.onJsonParse) { const r = e.hooks.onJsonParse(v, a, st, n); if (r) return r; }
    const l = litOf(v);
    if (l !== null) { let x; try { x = JSON.parse(l); } catch { return e.throwErr(st, "SyntaxError", "bad JSON", n); } if (x === null || typeof x !== "object" || a.length < 2) return ok(st, e.jsonBuild(st, x, n, "json")); }
    const m = e.typeMask(v, st);
    if (!(m & (T.S | T.N | T.B | T.D | T.O | T.A))) return e.throwErr(st, "SyntaxError", "bad JSON", n);
    const s2 = st.clone();
    const r = e.syms.named("json(" + key(v) + ")", "JSON.parse(" + e.show(v) + ")", { ty: JSONT, nan: false }, jsonInfo({ jsonOf: v }));
    st.conds.set("jsonok:" + key(v), true); s2.conds.set("jsonok:" + key(v), false);
    const rev = a.length > 1 ? e.resolve(arg(a, 1, st), st) : U;
    const out = [...e.throwErr(s2, "SyntaxError", e.opaque("jsonerr", [v], { ty: T.S }), n)];
    if (rev.k === "u") out.push({ st, v: r });
    else out.push(...e.seq(e.call(rev, U, [one(e.syms.named("jsonkey", "key", { ty: T.S }, { rep: true })), one(r)], st, n), (st, x) => ok(st, x)));
    return out;
  });
  // the value of a JSON document; leaves may be abstract values already
  e.jsonBuild = (st, x, n, tag) => {
    if (x === null) return NULL;
    if (typeof x === "string") return str(x);
    if (typeof x === "number") return num(x);
    if (typeof x === "boolean") return bool(x);
    if (x.k !== undefined && typeof x.k === "string" && x.abs !== undefined) return x.abs;
    if (Array.isArray(x)) return e.allocArr(st, x.map((y, i) => one(e.jsonBuild(st, y, n, tag + "." + i))), n, tag);
    const m = new Map();
    for (const k of Object.keys(x)) m.set(k, { v: e.jsonBuild(st, x[k], n, tag + "." + k) });
    return e.alloc(st, { cls: "Object", layers: [m] }, n, tag);
  };
  const JSONLANG = L.without([[0, 31]]);
  F["JSON.stringify"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => {
    if (e.hooks.onJsonStringify) { const r = e.hooks.onJsonStringify(v, a, st, n); if (r) return r; }
    if (isConst(v) && v.k !== "u") return ok(st, str(JSON.stringify(v.k === "n" ? null : v.k === "s" ? litOf(v) : v.v)));
    if (v.k === "u") return ok(st, U);
    const ind = a.length > 2 && e.resolve(arg(a, 2, st), st).k !== "u";
    return ok(st, e.syms.named("stringify(" + key(v) + ")" + (ind ? "i" : ""), "JSON.stringify(" + e.show(v) + ")", { ty: T.S, ...(ind ? {} : { lang: L.inter(JSONLANG, L.NONEMPTY) }) }, { derive: { op: "stringify", args: [v] } }));
  });

  // ------------------------------------------------------------ Promise, timers
  F["Promise.resolve"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => (v.k === "o" && st.get(v.id).cls === "Promise" ? ok(st, v) : ok(st, e.mkPromise(st, "ok", v, n))));
  F["Promise.reject"] = (t, a, st, n) => ok(st, e.mkPromise(st, "err", arg(a, 0, st), n));
  const settleAll = (a, st, n, f) => e.seq(e.iterSegs(arg(a, 0, st), st, n), f);
  F["Promise.all"] = (t, a, st, n) => settleAll(a, st, n, (st, segs) => e.mapSegs(segs, st, (st, v) => e.awaitV(v, st, n)).map((o) => ({ st: o.st, v: o.thr ? e.mkPromise(o.st, "err", o.thr, n) : e.mkPromise(o.st, "ok", e.allocArr(o.st, o.v, n, "all"), n) })));
  F["Promise.allSettled"] = (t, a, st, n) => settleAll(a, st, n, (st, segs) => e.seq(e.mapSegs(segs, st, (st, v) => e.awaitV(v, st, n).map((o) => (o.thr ? { st: o.st, v: e.allocObj(o.st, n, { status: str("rejected"), reason: o.thr }, "rej") } : { st: o.st, v: e.allocObj(o.st, n, { status: str("fulfilled"), value: o.v }, "ful") }))), (st, s) => ok(st, e.mkPromise(st, "ok", e.allocArr(st, s, n, "alls"), n))));
  F["Promise.race"] = F["Promise.any"] = (t, a, st, n) => settleAll(a, st, n, (st, segs) => {
    const es = elems(segs);
    const out = [];
    if (e.opts.loop) {
      const q = e.mkPromise(st, "pending", U, n, "race" + pcount++);
      let cur = [st];
      for (const v of es) cur = cur.flatMap((st) => {
        const id = isPending(v, st);
        if (id !== null) { e.react(id, st, (st, how, w) => e.settlePromise(q.id, st, how, w, n)); return [st]; }
        handled(v, st);
        return e.awaitV(v, st, n).flatMap((w) => e.settlePromise(q.id, w.st, w.thr ? "err" : "ok", w.thr || w.v, n));
      });
      return cur.map((st) => ({ st, v: q }));
    }
    es.forEach((v, i) => { const s = i === es.length - 1 ? st : st.clone(); s.event({ name: "race-won", index: i, tkey: String(i), node: n }); out.push(...e.awaitV(v, s, n).map((o) => ({ st: o.st, v: o.thr ? e.mkPromise(o.st, "err", o.thr, n, "race" + i) : e.mkPromise(o.st, "ok", o.v, n, "race" + i) }))); });
    return out;
  });
  // event-loop mode: reactions of pending promises run when they settle
  const isPending = (t, st) => { const v = e.resolve(t, st); return e.opts.loop && v.k === "o" && st.get(v.id).cls === "Promise" && st.get(v.id).pstate === "pending" ? v.id : null; };
  const handled = (t, st) => { const v = e.resolve(t, st); if (e.opts.loop && v.k === "o" && st.get(v.id).cls === "Promise" && !st.get(v.id).handled) st.set(v.id, { ...st.get(v.id), handled: true }); };
  // settles promise id; returns the states after its reactions
  e.settlePromise = (id, st, how, v, n) => {
    const o = st.get(id);
    if (o.pstate !== "pending") return [st];
    const rv = e.resolve(v, st);
    if (how === "ok" && rv.k === "o" && st.get(rv.id).cls === "Promise") {
      handled(rv, st);
      const q = st.get(rv.id);
      if (q.pstate === "pending") { e.react(rv.id, st, (st, h, w) => e.settlePromise(id, st, h, w, n)); return [st]; }
      if (q.pstate === "ok" || q.pstate === "err") return e.settlePromise(id, st, q.pstate, q.pv, n);
      return e.awaitV(rv, st, n).flatMap((w) => e.settlePromise(id, w.st, w.thr ? "err" : "ok", w.thr || w.v, n));
    }
    st.set(id, { ...o, pstate: how, pv: v, reacts: undefined });
    let cur = [st];
    for (const r of o.reacts || []) cur = cur.flatMap((s) => r(s, how, v));
    return cur;
  };
  e.react = (id, st, f) => { const o = st.get(id); st.set(id, { ...o, handled: true, reacts: [...(o.reacts || []), f] }); };
  let pcount = 0;
  const derive = (id, st, n, step) => {
    const q = e.mkPromise(st, "pending", U, n, "react" + pcount++);
    e.react(id, st, (st, how, v) => step(st, how, v).flatMap((o) => (o.thr ? e.settlePromise(q.id, o.st, "err", o.thr, n) : e.settlePromise(q.id, o.st, "ok", o.v, n))));
    return ok(st, q);
  };
  const chain = (t, st, n, onOk, onErr) => {
    const id = isPending(t, st);
    if (id !== null) return derive(id, st, n, (st, how, v) => { const h = how === "err" ? onErr : onOk; const hv = h ? e.resolve(h, st) : U; if (hv.k === "u" || hv.k === "n") return how === "err" ? [{ st, thr: v }] : [{ st, v }]; return e.call(hv, U, [one(v)], st, n); });
    handled(t, st);
    return chain0(t, st, n, onOk, onErr);
  };
  const chain0 = (t, st, n, onOk, onErr) => e.awaitV(t, st, n).flatMap((o) => {
    const h = o.thr ? onErr : onOk;
    const hv = h ? e.resolve(h, o.st) : U;
    if (hv.k === "u" || hv.k === "n") return [{ st: o.st, v: o.thr ? e.mkPromise(o.st, "err", o.thr, n, "th") : e.mkPromise(o.st, "ok", o.v, n, "th") }];
    return e.call(hv, U, [one(o.thr || o.v)], o.st, n).map((q) => e.settle(q, n));
  });
  F["Promise.prototype.then"] = (t, a, st, n) => chain(t, st, n, arg(a, 0, st), a.length > 1 ? arg(a, 1, st) : null);
  F["Promise.prototype.catch"] = (t, a, st, n) => chain(t, st, n, null, arg(a, 0, st));
  F["Promise.prototype.finally"] = (t, a, st, n) => { const id = isPending(t, st); if (id !== null) return derive(id, st, n, (st, how, v) => e.call(arg(a, 0, st), U, [], st, n).flatMap((q) => (q.thr ? [q] : e.awaitV(q.v, q.st, n).map((w) => (w.thr ? w : how === "err" ? { st: w.st, thr: v } : { st: w.st, v }))))); handled(t, st); return finally0(t, a, st, n); };
  const finally0 = (t, a, st, n) => e.awaitV(t, st, n).flatMap((o) => e.call(arg(a, 0, o.st), U, [], o.st, n).flatMap((q) => (q.thr ? [{ st: q.st, v: e.mkPromise(q.st, "err", q.thr, n, "fin") }] : e.awaitV(q.v, q.st, n).map((w) => ({ st: w.st, v: w.thr ? e.mkPromise(w.st, "err", w.thr, n, "fin") : o.thr ? e.mkPromise(w.st, "err", o.thr, n, "fin") : e.mkPromise(w.st, "ok", o.v, n, "fin") })))));
  // timers in due order (known delays; the order of creation breaks ties)
  e.sortTimers = (st) => { const d = (t) => { if (t.due !== undefined) return t.due; const v = e.resolve(t.ms, st); return v.k === "d" ? (st.extra.now || 0) + v.v : Infinity; }; st.timers = st.timers.map((t) => ({ ...t, due: d(t) })).sort((x, y) => x.due - y.due); };
  F["setTimeout"] = F["setImmediate"] = (t, a, st, n) => {
    const h = e.alloc(st, { cls: "Timeout", layers: [new Map()] }, n, "tmo" + st.timers.length);
    st.timers = [...st.timers, { id: h.id, cb: arg(a, 0, st), args: a.slice(2), ms: a.length > 1 ? arg(a, 1, st) : num(0), node: n }];
    if (e.opts.loop) e.sortTimers(st);
    st.event({ name: "setTimeout", ms: a.length > 1 ? arg(a, 1, st) : num(0), node: n });
    return ok(st, h);
  };
  F["clearTimeout"] = F["clearImmediate"] = (t, a, st) => { const v = e.resolve(arg(a, 0, st), st); if (v.k === "o") { st.timers = st.timers.filter((x) => x.id !== v.id); st.event({ name: "clearTimeout" }); } return ok(st, U); };
  F["setInterval"] = (t, a, st, n) => { st.event({ name: "setInterval", node: n }); return ok(st, e.alloc(st, { cls: "Timeout", layers: [new Map()] }, n, "intv")); };
  F["clearInterval"] = (t, a, st) => ok(st, U);
  F["queueMicrotask"] = F["process.nextTick"] = (t, a, st, n) => e.seq(e.call(arg(a, 0, st), U, [], st, n), (st) => ok(st, U));
  F["Timeout.prototype.unref"] = (t, a, st) => { st.event({ name: "unref" }); return ok(st, t); };
  F["Timeout.prototype.ref"] = (t, a, st) => ok(st, t);
  F["Timeout.prototype.hasRef"] = (t, a, st) => ok(st, TRUE);

  // ------------------------------------------------------------ Buffer / binary
  const mkBuf = (st, n, from, enc) => e.syms.named("buf(" + key(from) + "," + key(enc) + ")", "Buffer.from(" + e.show(from) + ")", { ty: T.O, tr: true, cls: "Buffer" }, { cls: "Buffer", extMethods: "Buffer", bufFrom: from, enc, derive: { op: "buffer", args: [from, enc] } });
  F["Buffer.from"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => ok(st, mkBuf(st, n, v, a.length > 1 ? e.resolve(arg(a, 1, st), st) : U)));
  F["Buffer.alloc"] = F["Buffer.concat"] = F["Buffer.allocUnsafe"] = (t, a, st, n) => ok(st, mkBuf(st, n, e.opaque("bufalloc", argVals(a, st)), U));
  F["Buffer.isBuffer"] = (t, a, st) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => (v.k === "y" ? e.splitCls(st, v, "Buffer") : ok(st, bool(v.k === "o" && st.get(v.id).cls === "Buffer"))));
  F["Buffer.byteLength"] = (t, a, st) => ok(st, e.opaque("byteLength", [arg(a, 0, st)], { ty: T.D, lo: 0, nan: false, int: true }));
  F["Buffer.prototype.toString"] = (t, a, st) => { const enc = a.length ? e.resolve(arg(a, 0, st), st) : str("utf8"); const l = litOf(enc); const lang = l === "base64" ? L.reExact("[A-Za-z0-9+/]*={0,2}") : l === "hex" ? L.reExact("(?:[0-9a-f]{2})*") : undefined; return ok(st, e.derived("bufstr", [t, enc], { ty: T.S, ...(lang ? { lang } : {}) })); };
  F["Buffer.prototype.equals"] = (t, a, st) => { const x = e.resolve(arg(a, 0, st), st); return key(x) === key(t) ? ok(st, TRUE) : e.forkCond("bufeq:" + key(t) + key(x), st); };

  // ------------------------------------------------------------ Symbol, Date, Error, process, console
  F["Symbol"] = (t, a, st, n) => ok(st, jssym("local:" + e.siteKey(n)));
  F["Symbol.for"] = (t, a, st) => ok(st, jssym("for:" + (litOf(e.resolve(arg(a, 0, st), st)) || "?")));
  F["Date.now"] = (t, a, st, n) => ok(st, e.syms.named("now@" + e.siteKey(n), "Date.now()", { ty: T.D, lo: 0, nan: false, int: true }));
  F["Date.parse"] = F["Date.UTC"] = (t, a, st) => ok(st, e.opaque("Date.parse", argVals(a, st), { ty: T.D }));
  F["Date.prototype.getTime"] = F["Date.prototype.valueOf"] = (t, a, st) => ok(st, e.derived("getTime", [t], { ty: T.D }));
  F["Date.prototype.toISOString"] = F["Date.prototype.toJSON"] = F["Date.prototype.toString"] = (t, a, st) => ok(st, e.derived("dateISO", [t], { ty: T.S }));
  F["Date.prototype.getTimezoneOffset"] = F["Date.prototype.getFullYear"] = (t, a, st) => ok(st, e.opaque("dateNum", [t], { ty: T.D }));
  F["Error"] = (t, a, st, n) => F_construct("Error", a, st, n);
  F["Error.captureStackTrace"] = (t, a, st) => ok(st, U);
  F["Error.prototype.toString"] = (t, a, st, n) => e.toStr(t, st, n);
  for (const m of ["log", "warn", "error", "info", "debug", "dir", "table", "trace"]) F["console." + m] = (t, a, st, n) => { st.event({ name: "console", level: m, node: n, tkey: "" }); return ok(st, U); };
  F["process.on"] = F["process.once"] = F["process.off"] = (t, a, st, n) => { st.event({ name: "process.on", ev: litOf(e.resolve(arg(a, 0, st), st)), node: n }); return ok(st, nat("process")); };
  F["process.hrtime"] = (t, a, st) => ok(st, e.opaque("hrtime", []));
  F["process.cwd"] = (t, a, st) => ok(st, e.syms.named("cwd", "process.cwd()", { ty: T.S, lang: L.reExact("/[^\\0]*") }));
  F["process.emitWarning"] = (t, a, st) => ok(st, U);
  F["encodeURIComponent"] = (t, a, st) => ok(st, e.opaque("euc", argVals(a, st), { ty: T.S }));
  F["String.raw"] = (t, a, st, n) => e.undecided("String.raw call", n);

  // ------------------------------------------------------------ node modules
  const absLang = () => (e.platform === "win32" ? L.reExact("(?:[A-Za-z]:)?\\\\[^]*") : L.reExact("/[^]*"));
  const NORMAL = L.reExact("(?:/(?:[^/.][^/]*|\\.[^/.][^/]*|\\.\\.[^/]+))+");
  F["path.resolve"] = (t, a, st, n) => {
    // throws on non-string arguments
    let outs = ok(st, []);
    for (const s of a) outs = e.seq(outs, (st, acc) => { if (s.k !== "1") return ok(st, [...acc, e.opaque("segs", [], { ty: T.S })]); return e.seq(e.strict(s.v, st), (st, v) => { const m = e.typeMask(v, st); if (m === T.S) return ok(st, [...acc, v]); if (!(m & T.S)) return e.throwErr(st, "TypeError", "The \"paths[0]\" argument must be of type string", n); return e.seq(e.splitType(st, v, T.S), (st, b) => (b.v ? ok(st, [...acc, v]) : e.throwErr(st, "TypeError", "The path argument must be of type string", n))); }); });
    return e.seq(outs, (st, vs) => {
      const np = require("path"), isAbs = (x) => (e.platform === "win32" ? /^[A-Za-z]:[\\/]/ : /^\//).test(x || "");
      vs = vs.filter((v, i) => vs.length === 1 || litOf(v) !== "" && !(i < vs.length - 1 && litOf(v) === "." && !i));
      if (!vs.length) vs = [str("")];
      // everything before an absolute segment is ignored
      for (let i = vs.length - 1; i > 0; i--) {
        const y = e.resolve(vs[i], st);
        if (litOf(vs[i]) !== null ? isAbs(litOf(vs[i])) : y.k === "y" && e.syms.get(y.id) && (e.syms.get(y.id).absPath || y.id === "cwd")) { vs = vs.slice(i); break; }
      }
      if (vs.length > 1) { const y = e.resolve(vs[0], st); if (y.k === "y" && y.id === "cwd") vs = vs.slice(1); }
      if (isAbs(litOf(vs[0])) && vs.every((v) => litOf(v) !== null)) return ok(st, str((e.platform === "win32" ? np.win32 : np.posix).resolve(...vs.map(litOf))));
      if (vs.length === 1) { const y = e.resolve(vs[0], st); if (y.k === "y" && e.syms.get(y.id) && e.syms.get(y.id).absPath) return ok(st, vs[0]); }
      return ok(st, e.syms.named("resolve(" + vs.map(key).join(",") + ")", "path.resolve(" + vs.map((v) => e.show(v)).join(", ") + ")", { ty: T.S, lang: absLang() }, { derive: { op: "resolve", args: vs }, absPath: true }));
    });
  };
  for (const m of ["join", "normalize", "dirname", "basename", "extname", "relative"]) F["path." + m] = (t, a, st, n) => {
    const vs = argVals(a, st);
    const ls = vs.map(litOf);
    if (e.platform !== "win32" && ls.every((x) => x !== null)) return ok(st, str(require("path").posix[m](...ls)));
    if (m === "normalize" && vs[0]) { const y = e.resolve(vs[0], st); if (y.k === "y" && e.syms.get(y.id) && e.syms.get(y.id).absPath) return ok(st, vs[0]); }
    // an absolute path without empty, "." or ".." segments is its own normal form
    if (m === "normalize" && e.platform !== "win32" && vs[0] && e.typeMask(e.resolve(vs[0], st), st) === T.S && L.subset(e.langOf(e.resolve(vs[0], st), st), NORMAL)) return ok(st, vs[0]);
    const r = e.derived("path." + m, vs, { ty: T.S });
    return ok(st, r);
  };
  F["path.isAbsolute"] = (t, a, st, n) => e.seq(e.toStr(arg(a, 0, st), st, n), (st, v) => e.splitLang(st, v, absLang()));
  F["path.parse"] = (t, a, st) => ok(st, e.opaque("path.parse", argVals(a, st), { ty: T.O, tr: true }));
  F["os.platform"] = (t, a, st) => ok(st, str(e.platform));
  F["os.tmpdir"] = F["os.homedir"] = (t, a, st) => ok(st, e.opts.tmpdir ? str(e.opts.tmpdir) : e.syms.named("os.dir", "os directory", { ty: T.S, lang: absLang() }));
  F["os.cpus"] = (t, a, st, n) => e.opts.os ? ok(st, e.allocArr(st, Array.from({ length: e.opts.os.cpus }, () => one(num(1))), n)) : ok(st, e.syms.named("os.cpus", "os.cpus()", { ty: T.A }, {}));
  F["os.availableParallelism"] = (t, a, st) => e.opts.os ? ok(st, num(e.opts.os.cpus)) : ok(st, e.syms.named("os.par", "availableParallelism()", { ty: T.D, lo: 1, nan: false, int: true }));
  F["util.debuglog"] = (t, a, st, n) => ok(st, e.alloc(st, { cls: "Function", native: (t, a, st) => ok(st, U), layers: [new Map([["enabled", { v: e.syms.named("debuglog.enabled", "NODE_DEBUG", { ty: T.B }) }]])] }, n, "dbg"));
  F["util.promisify"] = (t, a, st) => ok(st, e.opaque("promisified", argVals(a, st), { ty: T.F }));
  F["util.inspect"] = (t, a, st) => ok(st, e.opaque("inspect", argVals(a, st), { ty: T.S }));
  F["fs.existsSync"] = (t, a, st, n) => { if (e.hooks.onFs) { const r = e.hooks.onFs("exists", a, st, n, e); if (r) return r; } if (e.opts.quietFs) return ok(st, TRUE); st.event({ name: "fs.exists", path: arg(a, 0, st), node: n, tkey: "" }); const v = e.resolve(arg(a, 0, st), st); return ok(st, e.syms.named("exists(" + key(v) + ")", "file exists: " + e.show(v), { ty: T.B }, {})); };
  const fsOp = (name, kind, sync, res) => { F[(sync ? "fs." : "fs/promises.") + name] = (t, a, st, n) => { if (e.hooks.onFs) { const r = e.hooks.onFs(name, a, st, n, e); if (r) return r; } if (e.opts.quietFs && kind === "read") { const r = res ? res(a, st, n) : U; return ok(st, sync ? r : e.mkPromise(st, "ok", r, n, "fs" + name)); } st.event({ name: "fs." + name.replace(/Sync$/, ""), kind, path: arg(a, 0, st), args: a, node: n }); const r = res ? res(a, st, n) : U; if (sync) { if (e.opts.fsNoFail) return ok(st, r); const s2 = st.clone(); return [{ st, v: r }, { st: s2, thr: e.syms.named("fserr:" + name + e.siteKey(n), "fs." + name + " failure", { ty: T.O, tr: true }, { isError: true }) }]; } return ok(st, e.mkPromiseX(st, n, r, "fs." + name)); }; F["fs.promises." + name] = F["fs/promises." + name]; };
  e.mkPromiseX = (st, n, pv, what) => { const p = e.mkPromise(st, "ext", pv, n, what); st.set(p.id, { ...st.get(p.id), what }); return p; };
  const readRes = (a, st) => e.syms.named("file(" + key(e.resolve(arg(a, 0, st), st)) + ")", "contents of " + e.show(arg(a, 0, st), st), { ty: T.S }, { fileText: true });
  for (const sync of [true, false]) {
    const sfx = sync ? "Sync" : "";
    fsOp("readFile" + sfx, "read", sync, readRes); fsOp("writeFile" + sfx, "write", sync); fsOp("mkdir" + sfx, "write", sync); fsOp("unlink" + sfx, "write", sync); fsOp("rm" + sfx, "write", sync); fsOp("rename" + sfx, "write", sync); fsOp("copyFile" + sfx, "write", sync); fsOp("appendFile" + sfx, "write", sync);
    fsOp("stat" + sfx, "read", sync, (a, st) => e.syms.named("stat(" + key(e.resolve(arg(a, 0, st), st)) + ")", "stat", { ty: T.O, tr: true }, { childBase: (k) => (/^is/.test(k) ? { ty: T.F } : { ty: T.D, nan: false }) }));
    fsOp("access" + sfx, "read", sync); fsOp("readdir" + sfx, "read", sync, (a, st) => e.syms.named("readdir", "readdir", { ty: T.A }, { elemBase: { ty: T.S } })); fsOp("realpath" + sfx, "read", sync, (a, st) => e.opaque("realpath", [arg(a, 0, st)], { ty: T.S, lang: absLang() }));
  }
  F["child_process.spawn"] = F["child_process.execFile"] = F["child_process.exec"] = F["child_process.fork"] = F["child_process.spawnSync"] = F["child_process.execFileSync"] = F["child_process.execSync"] = null;
  for (const k of ["spawn", "execFile", "exec", "fork", "spawnSync", "execFileSync", "execSync"]) F["child_process." + k] = (t, a, st, n) => { st.event({ name: "spawn", how: k, cmd: arg(a, 0, st), args: a, node: n, tkey: e.siteKey(n) }); if (e.hooks.onSpawn) e.hooks.onSpawn(k, a, st, n); return ok(st, e.syms.named("proc@" + e.siteKey(n), "child process", { ty: T.O, tr: true }, {})); };
  const HESET = [[1, 9], [0x0b, 0x0c], [0x0e, 0x1f], [0x7f, 0x7f], [0x81, 0x81], [0x8d, 0x8d], [0x8f, 0x90], [0x9d, 0x9d], [0xa0, 0xffff]];
  const UNSAFE = [[0x22, 0x22], [0x26, 0x27], [0x3c, 0x3c], [0x3e, 0x3e], [0x60, 0x60]];
  F["he.encode"] = (t, a, st, n) => e.seq(e.toStr(arg(a, 0, st), st, n), (st, v) => {
    const o = a.length > 1 ? arg(a, 1, st) : U;
    const flag = (k) => { const r = e.resolve(o, st); if (r.k !== "o") return false; const x = e.ownLookup(st.get(r.id), k, st).v; const y = x && e.resolve(x, st); return !!(y && y.k === "b" && y.v); };
    const dec = flag("decimal"), every = flag("encodeEverything"), named = flag("useNamedReferences"), unsafe = flag("allowUnsafeSymbols");
    const ref = named ? L.reExact("&[A-Za-z#0-9]+;") : dec ? L.reExact("&#[0-9]+;") : L.reExact("&#x[0-9A-F]+;");
    let set = HESET.map((x) => [...x]);
    if (!unsafe) set.push(...UNSAFE.map((x) => [...x]));
    if (every) set.push([1, 0x7f]);
    set = L.normSet(set);
    const m = e.syms.named("m:he" + key(v), "encoded character", { ty: T.S, lang: L.inter(L.lenBetween(1, 1), L.without(L.negSet(set))) }, { rep: true });
    const id = "he:" + [dec, every, named, unsafe].join();
    e.replTable.set(id, [{ set, lang: ref, val: dec && !named ? mkStr(["&#", { sym: e.derived("tostr", [e.derived("code", [m], { ty: T.D })]).id }, ";"]) : null, m, entity: true }]);
    return ok(st, e.derived("replaceC", [v, str(id)], { ty: T.S }));
  });
  F["he.escape"] = F["he.encode"];
  F["he.decode"] = F["he.unescape"] = (t, a, st) => ok(st, e.opaque("heDecode", [arg(a, 0, st)], { ty: T.S }));
  F["@photostructure/tz-lookup"] = (t, a, st, n) => { const s2 = st.clone(); const vs = argVals(a, st); return [{ st, v: e.syms.named("tz(" + vs.map(key).join(",") + ")", "tz-lookup result", { ty: T.S }) }, { st: s2, thr: e.syms.named("tzerr", "tz-lookup error", { ty: T.O, tr: true }, { isError: true }) }]; };
  F["@photostructure/tz-lookup.default"] = F["@photostructure/tz-lookup"];
  F["crypto.createHash"] = (t, a, st) => ok(st, e.opaque("hash", [], { ty: T.O }));

  // ------------------------------------------------------------ luxon (opaque values; never executed)
  const DTnum = new Set(["year", "month", "day", "hour", "minute", "second", "millisecond", "offset", "ordinal", "weekday"]);
  const dtInfo = () => ({ cls: "DateTime", extMethods: "DateTime", luxon: true, childBase: (k) => (k === "isValid" ? { ty: T.B } : DTnum.has(k) ? { ty: T.D } : k === "zoneName" || k === "invalidReason" || k === "invalidExplanation" ? { ty: T.S | T.N } : k === "zone" ? { ty: T.O, tr: true, cls: "Zone" } : {}), childExtra: (k) => (k === "zone" ? { cls: "Zone", extMethods: "Zone", childBase: zoneChild } : {}) });
  const zoneChild = (k) => (k === "isValid" || k === "isUniversal" ? { ty: T.B } : k === "name" || k === "type" ? { ty: T.S } : {});
  const dt = (what, vs) => e.syms.named("dt:" + what + "(" + vs.map(key).join(",") + ")", "DateTime." + what, { ty: T.O, tr: true, cls: "DateTime" }, { ...dtInfo(), derive: { op: "dt:" + what, args: vs } });
  for (const k of ["fromISO", "fromFormat", "fromObject", "fromMillis", "fromSeconds", "fromJSDate", "now", "local", "utc", "fromSQL", "fromHTTP", "fromRFC2822", "fromFormatExplain", "invalid"]) F["luxon.DateTime." + k] = (t, a, st, n) => { const vs = argVals(a, st); st.event({ name: "luxon." + k, args: a, node: n, tkey: "" }); return ok(st, dt(k, vs)); };
  F["luxon.DateTime.isDateTime"] = (t, a, st) => e.seq(e.strict(arg(a, 0, st), st), (st, v) => (v.k === "y" ? e.splitCls(st, v, "DateTime") : ok(st, FALSE)));
  for (const k of ["setZone", "plus", "minus", "set", "toUTC", "toLocal", "startOf", "endOf", "setLocale", "reconfigure", "shiftTo"]) F["DateTime.prototype." + k] = (t, a, st, n) => ok(st, dt(k, [t, ...argVals(a, st)]));
  for (const k of ["toISO", "toISODate", "toISOTime", "toFormat", "toString", "toJSON", "toSQL", "toHTTP"]) F["DateTime.prototype." + k] = (t, a, st) => { const vs = argVals(a, st); return ok(st, e.derived("dtstr:" + k, [t, ...vs], { ty: k === "toFormat" || k === "toString" ? T.S : T.S | T.N })); };
  for (const k of ["toMillis", "valueOf", "toUnixInteger", "toSeconds"]) F["DateTime.prototype." + k] = (t, a, st) => ok(st, e.derived("dtnum:" + k, [t], { ty: T.D }));
  F["DateTime.prototype.toJSDate"] = (t, a, st) => ok(st, e.derived("dtdate", [t], { ty: T.O, tr: true, cls: "Date" }));
  F["DateTime.prototype.equals"] = F["DateTime.prototype.hasSame"] = (t, a, st) => ok(st, e.opaque("dteq", [t, arg(a, 0, st)], { ty: T.B }));
  F["DateTime.prototype.toObject"] = (t, a, st) => ok(st, e.opaque("dtobj", [t], { ty: T.O }));
  const zone = (what, vs) => e.syms.named("zone:" + what + "(" + vs.map(key).join(",") + ")", "Zone." + what, { ty: T.O, tr: true, cls: what === "IANA" ? "IANAZone" : "Zone" }, { cls: "Zone", extMethods: "Zone", childBase: zoneChild, derive: { op: "zone:" + what, args: vs } });
  F["luxon.Info.normalizeZone"] = (t, a, st) => ok(st, zone("normalize", argVals(a, st)));
  F["luxon.Info.isValidIANAZone"] = F["luxon.IANAZone.isValidZone"] = (t, a, st) => ok(st, e.opaque("isValidZone", argVals(a, st), { ty: T.B }));
  F["luxon.FixedOffsetZone.instance"] = (t, a, st) => ok(st, zone("fixed", argVals(a, st)));
  F["luxon.FixedOffsetZone.parseSpecifier"] = F["luxon.IANAZone.create"] = (t, a, st) => ok(st, zone("named", argVals(a, st)));
  F["Zone.prototype.offset"] = (t, a, st) => ok(st, e.opaque("zoffset", [t, ...argVals(a, st)], { ty: T.D }));
  F["Zone.prototype.formatOffset"] = F["Zone.prototype.offsetName"] = (t, a, st) => ok(st, e.opaque("zfmt", [t, ...argVals(a, st)], { ty: T.S }));
  F["Zone.prototype.equals"] = (t, a, st) => e.forkCond("zeq:" + key(t) + "=" + key(e.resolve(arg(a, 0, st), st)), st);

  // ------------------------------------------------------------ batch-cluster
  F["batch-cluster.logger"] = F["batch-cluster.ConsoleLogger"] = (t, a, st, n) => ok(st, e.syms.named("logger", "batch-cluster logger", { ty: T.O, tr: true }, { isLogger: true, childBase: () => ({ ty: T.F }), childExtra: () => ({ nothrow: true, retBase: { ty: T.U }, logCall: true }) }));
  F["batch-cluster.setLogger"] = (t, a, st, n) => { if (e.hooks.onSetLogger) e.hooks.onSetLogger(arg(a, 0, st), st, n); return ok(st, U); };
  F["BatchCluster.prototype.enqueueTask"] = (t, a, st, n) => e.seq(e.strict(arg(a, 0, st), st), (st, task) => {
    st.event({ name: "enqueue", task, node: n, tkey: task.k === "o" && st.get(task.id).ctor !== undefined ? st.get(st.get(task.id).ctor).name : "" });
    if (e.hooks.onEnqueue) { const r = e.hooks.onEnqueue(task, st, n, t); if (r) return r; }
    if (e.opts.enqueueOk) return ok(st, e.mkPromise(st, "ok", e.syms.named("taskResult:" + key(task), "task result", {}, {}), n, "task"));
    return ok(st, e.mkPromiseX(st, n, e.syms.named("taskResult:" + key(task), "task result", {}, {}), "task"));
  });
  F["BatchCluster.prototype.end"] = (t, a, st, n) => { if (e.hooks.onEnd) { const r = e.hooks.onEnd(a, st, n, e, t); if (r) return r; } st.event({ name: "bc.end", gracefully: a.length ? arg(a, 0, st) : TRUE, node: n, tkey: a.length ? key(e.resolve(arg(a, 0, st), st)) : "d" }); const p = e.mkPromiseX(st, n, U, "BatchCluster.end"); const d = e.alloc(st, { cls: "Deferred", layers: [new Map([["promise", { v: p }]])] }, n, "deferred"); return ok(st, d); };
  F["BatchCluster.prototype.closeChildProcesses"] = (t, a, st, n) => { if (e.hooks.onClose) { const r = e.hooks.onClose(a, st, n, e, t); if (r) return r; } st.event({ name: "bc.close", gracefully: a.length ? arg(a, 0, st) : TRUE, node: n, tkey: "" }); return ok(st, e.mkPromiseX(st, n, U, "closeChildProcesses")); };
  F["BatchCluster.prototype.pids"] = (t, a, st) => ok(st, e.syms.named("pids", "pids", { ty: T.A }, { elemBase: { ty: T.D } }));
  for (const k of ["on", "off", "once", "removeListener", "addListener"]) F["BatchCluster.prototype." + k] = (t, a, st, n) => { st.event({ name: "bc." + k, ev: litOf(e.resolve(arg(a, 0, st), st)), args: a, node: n, tkey: litOf(e.resolve(arg(a, 0, st), st)) || "" }); return ok(st, t); };
  F["Task.prototype.onStderr"] = F["Task.prototype.onStdout"] = (t, a, st, n) => { st.event({ name: "task.onStderr", node: n, tkey: "" }); return ok(st, U); };
  F["Task.prototype.toString"] = (t, a, st, n) => ok(st, e.opaque("taskstr", [], { ty: T.S }));

  // ------------------------------------------------------------ construction
  function F_construct(name, a, st, n) {
    const short = name.replace(/^(batch-cluster|luxon|buffer|events)\./, "");
    if (/Error$/.test(short)) {
      const m = a.length ? arg(a, 0, st) : U;
      return e.seq(e.isUndef(m, st), (st, b) => e.seq(b.v ? ok(st, str("")) : e.toStr(m, st, n), (st, ms) => { const v = e.allocErr(st, short, ms, n, "new" + key(ms).slice(0, 80)); const o = e.resolve(a.length > 1 ? arg(a, 1, st) : U, st); if (o.k === "o") { const c = e.ownLookup(st.get(o.id), "cause", st).v; if (c && c.k !== "x") { const q = cloneObj(st.get(v.id)); q.layers[0].set("cause", { v: c, ne: true }); st.set(v.id, q); } } return ok(st, v); }));
    }
    switch (short) {
      case "Map": case "WeakMap": return e.seq(a.length ? e.isNullish(arg(a, 0, st), st) : ok(st, TRUE), (st, b) => { if (b.v) return ok(st, e.alloc(st, { cls: short, segs: [], layers: [new Map()] }, n)); return e.seq(e.iterSegs(arg(a, 0, st), st, n), (st, segs) => e.seq(e.mapSegs(segs, st, (st, p) => e.seq(e.getProp(p, str("0"), st, n), (st, k) => e.seq(e.getProp(p, str("1"), st, n), (st, v) => ok(st, { k: "pair", a: k, b: v })))), (st, s) => ok(st, e.alloc(st, { cls: short, segs: s, layers: [new Map()] }, n)))); });
      case "Set": case "WeakSet": return e.seq(a.length ? e.isNullish(arg(a, 0, st), st) : ok(st, TRUE), (st, b) => { if (b.v) return ok(st, e.alloc(st, { cls: short, segs: [], layers: [new Map()] }, n)); return e.seq(e.iterSegs(arg(a, 0, st), st, n), (st, segs) => { const seen = new Set(), out = []; for (const s of segs) { if (s.k === "1" && isConst(s.v)) { if (seen.has(key(s.v))) continue; seen.add(key(s.v)); } out.push(s); } return ok(st, e.alloc(st, { cls: short, segs: out, layers: [new Map()] }, n)); }); });
      case "Promise": {
        const p = e.mkPromise(st, "pending", U, n, "new" + st.traceKey.length);
        const fin = (how) => e.alloc(st, { cls: "Function", layers: [new Map()], native: (t, x, s) => { const o = s.get(p.id); if (e.opts.loop) return e.settlePromise(p.id, s, how, x.length ? e.argAt(x, 0, s) : U, n).map((s) => ({ st: s, v: U })); if (o.pstate === "pending") { const v = x.length ? e.argAt(x, 0, s) : U; const rv = e.resolve(v, s); if (how === "ok" && rv.k === "o" && s.get(rv.id).cls === "Promise") { const q = s.get(rv.id); s.set(p.id, { ...o, pstate: q.pstate, pv: q.pv }); } else s.set(p.id, { ...o, pstate: how, pv: v }); } return ok(s, U); } }, n, "res" + how + p.id);
        return e.call(arg(a, 0, st), U, [one(fin("ok")), one(fin("err"))], st, n).map((o) => { if (o.thr && o.st.get(p.id).pstate === "pending") { o.st.set(p.id, { ...o.st.get(p.id), pstate: "err", pv: o.thr }); } return { st: o.st, v: p }; });
      }
      case "RegExp": { const s = e.resolve(arg(a, 0, st), st); const l = litOf(s); const f = a.length > 1 ? litOf(e.resolve(arg(a, 1, st), st)) : ""; if (l !== null) return ok(st, e.alloc(st, { cls: "RegExp", src: l, flags: f || "", lastIndex: num(0), layers: [new Map()] }, n, "re" + l)); if (s.k === "o") { const o = st.get(s.id); return ok(st, e.alloc(st, { cls: "RegExp", src: o.src, flags: a.length > 1 ? f : o.flags, lastIndex: num(0), layers: [new Map()] }, n, "re")); } return ok(st, e.syms.named("re@" + e.siteKey(n), "dynamic RegExp", { ty: T.O, tr: true, cls: "RegExp" }, { cls: "RegExp", extMethods: "RegExpDyn", src: s })); }
      case "Date": return ok(st, e.syms.named("date(" + argVals(a, st).map(key).join(",") + ")" + (a.length ? "" : "@" + e.siteKey(n)), "new Date(...)", { ty: T.O, tr: true, cls: "Date" }, { cls: "Date", extMethods: "Date", derive: { op: "newDate", args: argVals(a, st) } }));
      case "Uint8Array": return e.seq(e.strict(arg(a, 0, st), st), (st, v) => ok(st, e.syms.named("u8(" + key(v) + ")", "Uint8Array", { ty: T.O, tr: true, cls: "Uint8Array" }, { cls: "Uint8Array", extMethods: "Buffer", derive: { op: "u8", args: [v] } })));
      case "Array": { const v = a.length === 1 ? e.resolve(arg(a, 0, st), st) : null; if (v && v.k === "d") return ok(st, e.allocArr(st, Array.from({ length: Math.min(v.v, 200) }, () => one(U)), n)); return ok(st, e.allocArr(st, a, n)); }
      case "BatchCluster": { st.event({ name: "new BatchCluster", opts: arg(a, 0, st), node: n }); return ok(st, e.alloc(st, { cls: "BatchCluster", layers: [new Map([["options", { v: arg(a, 0, st) }], ["pids", undefined], ["emitter", { v: e.opaque("emitter", [], { ty: T.O, tr: true }) }]].filter((x) => x[1]))] }, n)); }
      case "BatchClusterOptions": return ok(st, e.alloc(st, { cls: "Object", layers: [bcDefaults()] }, n, "bco"));
      case "Object": return ok(st, e.alloc(st, { cls: "Object", layers: [new Map()] }, n));
      case "Proxy": return e.undecided("Proxy", n);
    }
    if (e.hooks.onConstruct) { const r = e.hooks.onConstruct(name, a, st, n); if (r) return r; }
    e.stats.unmodelled.set("new " + name, (e.stats.unmodelled.get("new " + name) || 0) + 1);
    return ok(st, e.syms.named("new:" + name + "@" + e.siteKey(n) + e.ctx.join("/"), "new " + name, { ty: T.O, tr: true }, {}));
  }
  const bcDefaults = () => { const m = new Map(); for (const [k, v] of Object.entries({ maxProcs: 1, maxProcAgeMillis: 300000, onIdleIntervalMillis: 10000, spawnTimeoutMillis: 15000, minDelayBetweenSpawnMillis: 1500, taskTimeoutMillis: 0, maxTasksPerProcess: 500, endGracefulWaitTimeMillis: 500, streamFlushMillis: 30, cleanupChildProcs: true, maxIdleMsPerProcess: 0, maxFailedTasksPerProcess: 0, killProcessGroup: false, healthCheckIntervalMillis: 0, pidCheckIntervalMillis: 120000, unrefStreams: true, cleanupChildProcsOnExit: true })) m.set(k, { v: typeof v === "number" ? num(v) : bool(v) }); m.set("logger", { v: nat("batch-cluster.logger") }); return m; };

  // batch-cluster NoLogger etc.
  const CONST = {
    "Math.PI": num(Math.PI), "Number.MAX_SAFE_INTEGER": num(Number.MAX_SAFE_INTEGER), "Number.MIN_SAFE_INTEGER": num(Number.MIN_SAFE_INTEGER), "Number.MAX_VALUE": num(Number.MAX_VALUE), "Number.EPSILON": num(Number.EPSILON), "Number.NaN": num(NaN), "Number.POSITIVE_INFINITY": num(Infinity), "Number.NEGATIVE_INFINITY": num(-Infinity),
    "process.platform": null, "path.delimiter": null, "path.sep": null,
    "Symbol.iterator": jssym("iterator"), "Symbol.asyncIterator": jssym("asyncIterator"), "Symbol.dispose": jssym("dispose"), "Symbol.asyncDispose": jssym("asyncDispose"), "Symbol.toStringTag": jssym("toStringTag"), "Symbol.toPrimitive": jssym("toPrimitive"), "Symbol.hasInstance": jssym("hasInstance"),
    "fs.constants": null, "luxon.FixedOffsetZone.utcInstance": null,
  };
  const PROTO = {
    Object: ["hasOwnProperty", "toString", "valueOf", "isPrototypeOf", "propertyIsEnumerable", "toLocaleString"],
  };
  const memberNames = (cls) => Object.keys(F).filter((k) => k.startsWith(cls + ".prototype.")).map((k) => k.slice(cls.length + 11));
  const memo = new Map();
  const hasMember = (cls, k) => { if (!memo.has(cls)) memo.set(cls, new Set(memberNames(cls))); return memo.get(cls).has(k); };
  const ANY = new Set();
  const api = {
    F,
    global(name) {
      if (name === "NaN") return num(NaN);
      if (name === "Infinity") return num(Infinity);
      if (name === "__dirname") return str("/repo/dist");
      if (name === "require") return nat("require");
      return GLOBALS.has(name) ? nat(name) : null;
    },
    natProp(v, k) {
      const nm = v.name + "." + k;
      if (v.name === "globalThis") return api.global(k) || U;
      if (nm === "process.platform") return str(e.platform);
      if (nm === "path.delimiter") return str(e.platform === "win32" ? ";" : ":");
      if (nm === "os.availableParallelism" && e.opts.os && e.opts.os.how === "cpus") return U;
      if (nm === "path.sep") return str(e.platform === "win32" ? "\\" : "/");
      if (nm === "process.env" && e.hooks.env) return e.syms.named("process.env*", "process.env", { ty: T.O, tr: true }, { childConst: (k) => (e.hooks.env[k] === undefined ? U : str(e.hooks.env[k])), foreign: false, shared: "process.env" });
      if (nm === "process.env") return e.syms.named("process.env", "process.env", { ty: T.O, tr: true }, { childBase: () => ({ ty: T.S | T.U }), foreign: false, shared: "process.env" });
      if (nm === "process.versions") return e.syms.named("process.versions", "process.versions", { ty: T.O, tr: true }, {});
      if (nm === "fs.constants") return e.syms.named("fs.constants", "fs.constants", { ty: T.O, tr: true }, { childBase: () => ({ ty: T.D, nan: false }) });
      if (nm === "luxon.FixedOffsetZone.utcInstance" && e.luxonUtc) return e.luxonUtc();
      if (nm === "luxon.FixedOffsetZone.utcInstance") return e.syms.named("zone:utc", "UTC zone", { ty: T.O, tr: true, cls: "Zone" }, { cls: "Zone", extMethods: "Zone", childBase: zoneChild });
      if (nm === "batch-cluster.NoLogger") return e.syms.named("NoLogger", "NoLogger", { ty: T.O, tr: true }, { isLogger: true, childBase: () => ({ ty: T.F }), childExtra: () => ({ nothrow: true, retBase: { ty: T.U }, logCall: true }) });
      if (nm === "fs.promises") return nat("fs/promises");
      if (CONST[nm]) return CONST[nm];
      if (k === "constructor" && /\.prototype$/.test(v.name)) return nat(v.name.slice(0, -10));
      if (F[nm] !== undefined) return nat(nm);
      if (k === "prototype") return nat(nm);
      if (k === "name" && !NAMESPACES.has(v.name)) return str(v.name.split(".").pop());
      if (NAMESPACES.has(v.name) || /^(luxon|batch-cluster)\./.test(v.name) || /\.prototype$/.test(v.name) || v.name === "Intl") return nat(nm);
      if (hasMember("Function", k)) return nat("Function.prototype." + k);
      if (k === "default") return v;
      return nat(nm);
    },
    F,
    isNamespace: (n) => NAMESPACES.has(n),
    has: (n) => F[n] !== undefined,
    anyMethod(k) {
      if (!ANY.size) for (const c of ["String", "Array", "Number", "Map", "Set"]) for (const m of memberNames(c)) ANY.add(m);
      return ANY.has(k);
    },
    protoMember(cls, k) {
      const short = cls.replace(/^(batch-cluster|luxon|buffer|events)\./, "");
      if (hasMember(short, k)) return nat(short + ".prototype." + k);
      if (/Error$/.test(short) && hasMember("Error", k)) return nat("Error.prototype." + k);
      if (short === "Function" && hasMember("Function", k)) return nat("Function.prototype." + k);
      if (k === "constructor") return nat(short);
      if (PROTO.Object.includes(k)) return nat("Object.prototype." + k);
      return U;
    },
    construct: F_construct,
    superInit(name, thisV, a, st, n) {
      const short = name.replace(/^(batch-cluster|luxon|buffer|events)\./, "");
      const o = cloneObj(st.get(thisV.id));
      if (/Error$/.test(short)) {
        const m = a.length ? arg(a, 0, st) : U;
        return e.seq(e.toStr(e.resolve(m, st).k === "u" ? str("") : m, st, n), (st, ms) => { const q = cloneObj(st.get(thisV.id)); e.putOwn(q, "message", { v: ms, ne: true }); e.putOwn(q, "name", { v: str(short), ne: true }); st.set(thisV.id, q); return ok(st, U); });
      }
      if (short === "Task") {
        e.putOwn(o, "command", { v: arg(a, 0, st) });
        e.putOwn(o, "parser", { v: arg(a, 1, st) });
        e.putOwn(o, "taskId", { v: e.opaque("taskId", [], { ty: T.D, lo: 1, nan: false, int: true }) });
        st.set(thisV.id, o);
        return ok(st, U);
      }
      e.stats.unmodelled.set("super " + name, 1);
      return ok(st, U);
    },
    call(name, thisV, a, st, n) {
      if (name.startsWith("any.")) return anyCall(name.slice(4), thisV, a, st, n);
      const f = F[name];
      if (f) return f(thisV, a, st, n);
      if (/^(Error|TypeError|RangeError|SyntaxError)$/.test(name)) return F_construct(name, a, st, n);
      if (/^(Map|Set|Promise|Date)$/.test(name)) return e.throwErr(st, "TypeError", "Constructor requires 'new'", n);
      e.stats.unmodelled.set(name, (e.stats.unmodelled.get(name) || 0) + 1);
      if (e.hooks.onUnmodelled) { const r = e.hooks.onUnmodelled(name, thisV, a, st, n); if (r) return r; }
      const vs = argVals(a, st);
      return ok(st, e.opaque("call:" + name, [thisV && thisV.k !== "short" ? thisV : U, ...vs]));
    },
  };
  function anyCall(k, thisV, a, st, n) {
    return e.seq(e.strict(thisV, st), (st, v) => {
      if (v.k !== "y") return e.seq(e.getProp(v, k, st, n), (st, f) => (f.k === "nat" && f.name === "any." + k ? e.undecided("any." + k, n) : e.call(f, v, a, st, n)));
      const f = e.fact(v.id, st);
      if (k === "toString" && !(f.ty & (T.U | T.N))) return a.length ? ok(st, e.opaque("toString", [v, ...argVals(a, st)], { ty: T.S })) : e.toStr(v, st, n);
      const out = [];
      let rest = st;
      for (const [bit, cls] of [[T.S, "String"], [T.A, "Array"], [T.D, "Number"]]) {
        const g = e.fact(v.id, rest);
        if (!(g.ty & bit) || !F[cls + ".prototype." + k]) continue;
        if (g.ty === bit) { out.push(...F[cls + ".prototype." + k](v, a, rest, n)); return out; }
        const s2 = rest.clone();
        if (e.refine(s2, v.id, { ty: bit })) out.push(...F[cls + ".prototype." + k](v, a, s2, n));
        if (!e.refine(rest, v.id, { ty: ANYT & ~bit })) return out;
      }
      const g = e.fact(v.id, rest);
      if (g.ty & (T.O | T.F | T.A)) {
        const s2 = rest.clone();
        if (e.refine(s2, v.id, { ty: T.O | T.F | T.A })) {
          const info = e.syms.get(v.id);
          if (info.plain) { // JSON data has no methods
            const s3 = s2.clone();
            out.push(...e.throwErr(s3, "TypeError", k + " is not a function", n));
          } else out.push(...e.call(e.symProp(v.id, k, s2), v, a, s2, n));
        }
        if (!e.refine(rest, v.id, { ty: ANYT & ~(T.O | T.F | T.A) })) return out;
      }
      out.push(...e.throwErr(rest, "TypeError", k + " is not a function", n));
      return out;
    });
  }
  return api;
};

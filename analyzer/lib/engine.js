"use strict";
// Abstract interpreter over the TypeScript sources of /repo (never executed).
// Disjunctive abstract states with lossless joins, regular-language / interval / type-set
// facts per symbol, fixpoints with widening for loops over unknown collections.
const fs = require("fs");
const path = require("path");
const L = require("./lang");
const PMap = require("./pmap");
const V = require("./values");
const { T, ANYT, OBJT, U, NULL, TRUE, FALSE, ABSENT, bool, num, str, obj, symv, nat, jssym, isConst, litOf, segKey, key, same, mkIte, mkStr, partsOf, meetFact, joinFact, normFact, State, cloneObj, joinStates, newCond } = V;

let ts;
try { ts = require("/repo/node_modules/typescript"); if (!ts.createSourceFile) throw 0; } catch { ts = require("/opt/veriftools/node/node_modules/typescript"); }
const SK = ts.SyntaxKind;

const primNat = (cls, k) => (k === null || k in globalThis[cls].prototype || typeof k !== "string" ? nat(cls + ".prototype." + k) : U);
class Undecided extends Error {}
class LocalBudget extends Error {}
const one = (v) => ({ k: "1", v });
const SHORT = { k: "short" };
const PROTO_NAMES = ["constructor", "__defineGetter__", "__defineSetter__", "hasOwnProperty", "__lookupGetter__", "__lookupSetter__", "isPrototypeOf", "propertyIsEnumerable", "toString", "valueOf", "__proto__", "toLocaleString"];
const MERGE_AT = 6;

class Engine {
  constructor(opts = {}) {
    this.root = opts.root || "/repo";
    this.platform = opts.platform || "linux";
    this.opts = opts;
    this.syms = new V.Symbols();
    this.base = new Map();
    this.modules = new Map();
    this.ctx = [];
    this.stack = [];
    this.steps = 0;
    this.maxSteps = opts.maxSteps || 4e6;
    this.deadline = Date.now() + (opts.maxMs || 240000);
    this.stats = { calls: 0, fns: new Set(), unmodelled: new Map(), joins: 0, recursions: new Map(), maxStates: 0 };
    this.hooks = opts.hooks || {};
    this.natives = require("./natives")(this);
    if (opts.luxon) require("./luxon")(this);
    this.unstable = opts.unstable || false;
    this.idn = 0;
    this.initDone = false;
  }
  // ------------------------------------------------------------ basics
  undecided(msg, node) { throw new Undecided(msg + (node ? " at " + this.loc(node) : "")); }
  loc(node) {
    if (!node || !node.getSourceFile) return "?";
    const sf = node.getSourceFile();
    const { line } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
    return path.relative(this.root, sf.fileName) + ":" + (line + 1);
  }
  siteKey(node) {
    const sf = node && node.getSourceFile ? node.getSourceFile() : null;
    return sf ? path.basename(sf.fileName, ".ts") + "@" + node.pos + ":" + node.end : String(node);
  }
  tick() { if (this.localLimit !== undefined && this.steps > this.localLimit) { const x = new LocalBudget("local budget"); x.lim = this.localLimit; throw x; } if (++this.steps > this.maxSteps || ((this.steps & 1023) === 0 && Date.now() > this.deadline)) { if (this.opts.debug) console.error(this.stack.map((x) => fnName(x.fnNode)).join(" > "), "ctx", this.ctx.length); this.undecided("analysis budget exceeded"); } }
  allocId(node, tag = "") {
    const k = this.ctx.join("/") + "|" + this.siteKey(node) + tag;
    this.ids = this.ids || new Map();
    let id = this.ids.get(k);
    if (id === undefined) { id = ++this.idn; this.ids.set(k, id); }
    return id;
  }
  alloc(st, o, node, tag) {
    const id = node ? this.allocId(node, (tag || "") + (o.cls || "")) : ++this.idn;
    st.set(id, { ...o, node });
    if (o.cls !== "$S" && this.initDone) (st.extra.fresh = st.extra.fresh || null);
    return obj(id);
  }
  allocObj(st, node, props = {}, tag) {
    const m = new Map();
    for (const k of Object.keys(props)) m.set(k, { v: props[k] });
    return this.alloc(st, { cls: "Object", layers: [m] }, node, tag);
  }
  allocArr(st, segs, node, tag) { return this.alloc(st, { cls: "Array", layers: [new Map()], segs }, node, tag); }
  allocErr(st, cls, msgV, node, tag) {
    return this.alloc(st, { cls, layers: [new Map([["message", { v: msgV, ne: true }], ["name", { v: str(cls), ne: true }]])] }, node, tag || "err" + key(msgV).slice(0, 60));
  }
  throwErr(st, cls, msg, node) { return [{ st, thr: this.allocErr(st, cls, typeof msg === "string" ? str(msg) : msg, node, "thr:" + cls + (typeof msg === "string" ? msg : "")) }]; }
  ok(st, v) { return [{ st, v }]; }
  seq(outs, f) {
    const r = [];
    for (const o of outs) {
      if (o.thr) r.push(o);
      else for (const x of f(o.st, o.v)) r.push(x);
    }
    return r;
  }
  // evaluate f over values sequentially
  // ------------------------------------------------------------ facts
  fact(id, st) {
    const info = this.syms.get(id);
    let f = st.facts.get(id) ?? info.base;
    if (info.derive) {
      const op = this.ops[info.derive.op];
      if (op && op.fact) {
        let fc = st._fc;
        if (!fc || fc.fr !== st.facts.root || fc.cr !== st.conds.root) fc = st._fc = { fr: st.facts.root, cr: st.conds.root, m: new Map() };
        const hit = fc.m.get(id);
        if (hit) return hit;
        const d = op.fact(info.derive.args, st);
        if (d) f = normFact(meetFact(f, d)) ?? { ...f, ty: 0 };
        if (st._fc === fc) fc.m.set(id, f);
      }
    }
    return f;
  }
  setFact(st, id, f) {
    f = normFact(f);
    if (!f) return false;
    st.facts.set(id, f);
    const info = this.syms.get(id);
    if (info.derive) {
      const op = this.ops[info.derive.op];
      if (op && op.back && !op.back(info.derive.args, f, st)) return false;
    }
    if (info.parent && f.eq === undefined && !(f.ty & T.U)) {
      const hc = "has:" + info.parent + ":" + info.key;
      if (st.conds.get(hc) === false) return false;
    }
    return true;
  }
  refine(st, id, part) { return this.setFact(st, id, meetFact(this.fact(id, st), part)); }
  refineV(st, v, part) {
    v = this.resolve(v, st);
    if (v.k === "y") return this.refine(st, v.id, part);
    return true;
  }
  derived(op, args, base, origin) {
    const id = op + "(" + args.map(key).join(",") + ")";
    return this.syms.named(id, origin || id, base || {}, { derive: { op, args } });
  }
  opaque(op, args, base) { return this.derived("?" + op, args, base); }
  child(id, k, st) {
    const info = this.syms.get(id);
    if (info.childConst) { const c = info.childConst(k, info); if (c !== undefined) return c; }
    const ep = this.unstable && info.foreign ? this.epochTag(st) : "";
    const cid = id + "." + k + ep;
    let base = {};
    if (info.childBase) base = info.childBase(k, info) || {};
    return this.syms.named(cid, info.origin + "." + k, base, { parent: id, key: k, foreign: info.foreign, childBase: info.childBase2 || (info.deepBase ? info.childBase : undefined), deepBase: info.deepBase, childBase2: info.childBase2, elemBase: info.childElemBase && info.childElemBase(k), ...(info.childExtra ? info.childExtra(k) : {}) });
  }
  epochTag(st) { st.epoch++; return "@" + st.epoch; }
  elemSym(id, st) {
    const info = this.syms.get(id);
    return this.syms.named(id + "[*]", info.origin + "[i]", info.elemBase || {}, { rep: true, foreign: info.foreign, parent: id, key: "*", childBase: info.elemChildBase, ...(info.elemExtra || {}) });
  }
  keySym(id) {
    const info = this.syms.get(id);
    return this.syms.named(id + ".{key}", "key of " + info.origin, { ty: T.S, ...(info.keyBase || {}) }, { rep: true, keyOf: id });
  }
  dynChild(id, kv) {
    const info = this.syms.get(id);
    return this.syms.named(id + "[" + key(kv) + "]", info.origin + "[" + this.show(kv) + "]", info.dynBase || (info.childBase ? info.childBase("*", info) || {} : {}), { parent: id, key: "[" + key(kv) + "]", foreign: info.foreign, dynKey: kv, ...(info.dynExtra || {}) });
  }
  roots(v, out = new Set()) {
    switch (v.k) {
      case "y": {
        const info = this.syms.get(v.id);
        if (info.derive) info.derive.args.forEach((a) => this.roots(a, out));
        else out.add(v.id);
        break;
      }
      case "s": for (const p of v.p) { if (p.sym) this.roots(symv(p.sym), out); else if (p.join) this.segRoots(p.join, out); } break;
      case "i": this.roots(v.a, out); this.roots(v.b, out); break;
      case "pair": this.roots(v.a, out); this.roots(v.b, out); break;
    }
    return out;
  }
  segRoots(segs, out = new Set()) {
    for (const s of segs) {
      if (s.k === "1") this.roots(s.v, out);
      else if (s.k === "*") s.alts.forEach((a) => this.segRoots(a, out));
      else { this.segRoots(s.a, out); this.segRoots(s.b, out); }
    }
    return out;
  }
  markImprecise(st, v) { for (const r of this.roots(v)) st.impr.add(r); }
  show(v, st) {
    if (st) v = this.resolve(v, st);
    switch (v.k) {
      case "s": return v.p.map((p) => (typeof p === "string" ? p : p.sym ? "<" + this.syms.get(p.sym).origin + ">" : "<join>")).join("");
      case "y": return "<" + this.syms.get(v.id).origin + ">";
      case "i": return "(" + this.show(v.a, st) + " or " + this.show(v.b, st) + ")";
      case "o": { const o = st && st.get(v.id); return o ? "[" + o.cls + "]" : "[object]"; }
      default: return key(v);
    }
  }
  resolve(v, st) {
    for (let n = 0; n < 200; n++) {
      if (v.k === "i") {
        const d = st.conds.get(v.c);
        if (d === undefined) return v;
        v = d ? v.a : v.b;
        continue;
      }
      if (v.k === "y") {
        const f = this.fact(v.id, st);
        if (f.eq !== undefined && !(f.eq.k === "y" && f.eq.id === v.id)) { v = f.eq; continue; }
        const info = this.syms.get(v.id);
        if (info.derive && info.derive.op === "tostr") {
          const a = this.resolve(info.derive.args[0], st);
          if (a.k === "s") { v = a; continue; }
          if (a.k === "y" && this.fact(a.id, st).ty === T.S) { v = a; continue; }
          if (isConst(a)) { v = str(constToString(a)); continue; }
        }
        return v;
      }
      if (v.k === "s") {
        let ch = false;
        const parts = [];
        for (const p of v.p) {
          if (p.sym) {
            const r = this.resolve(symv(p.sym), st);
            if (r.k === "s") { parts.push(...r.p); ch = true; continue; }
            if (r.k === "y") { if (r.id !== p.sym) ch = true; parts.push({ sym: r.id }); continue; }
            if (isConst(r)) { parts.push(constToString(r)); ch = true; continue; }
          }
          parts.push(p);
        }
        return ch ? mkStr(parts) : v;
      }
      return v;
    }
    return v;
  }
  decide(st, c, b) {
    const cur = st.conds.get(c);
    if (cur !== undefined) return cur === b;
    st.conds.set(c, b);
    const r = st.restore.get(c);
    if (r) {
      const side = b ? r.t : r.f;
      st.impr = new Set([...side.impr, ...[...st.impr].filter((x) => !r.t.impr.has(x) && !r.f.impr.has(x))]);
      if (side.joins) for (const [k, j] of side.joins) if (!st.restore.get(k)) st.restore.set(k, j);
      if (side.joins) for (const [k, j] of side.joins) {
        if (j.weak || st.conds.get(k) !== undefined) continue;
        const bad = (q) => { for (const [x, y] of q.conds) { const z = st.conds.get(x); if (z !== undefined && z !== y) return true; } return false; };
        const bt = bad(j.t), bf = bad(j.f);
        if (bt && bf) return false;
        if (bt && !this.decide(st, k, false)) return false;
        if (bf && !this.decide(st, k, true)) return false;
      }
      for (const [k, v] of side.conds) if (!this.decide(st, k, v)) return false;
      for (const [k, f] of side.facts) {
        const n = normFact(meetFact(st.facts.get(k) ?? this.factDefault(k), f));
        if (!n) return false;
        st.facts.set(k, n);
      }
    }
    const ws = V.watchers.get(c);
    if (ws) for (const w of ws) {
      if (st.conds.get(w) !== undefined) continue;
      const q = st.restore.get(w);
      if (!q || q.weak) continue;
      const x = q.t.conds.get(c), y = q.f.conds.get(c);
      const badT = x !== undefined && x !== b, badF = y !== undefined && y !== b;
      if (badT && badF) return false;
      if (badT) { if (!this.decide(st, w, false)) return false; }
      else if (badF) { if (!this.decide(st, w, true)) return false; }
    }
    if (c.startsWith("has:")) {
      const i = c.indexOf(":", 4), id = c.slice(4, i), k = c.slice(i + 1);
      if (!b) { const cs = this.syms.info.has(id + "." + k); if (cs) { const f = this.fact(id + "." + k, st); if (!(f.ty & T.U)) return false; } }
    }
    return true;
  }
  factDefault(id) { const i = this.syms.get(id); return i ? i.base : { ty: T.S }; }
  // fork undecided conditional values
  strict(v, st) {
    v = this.resolve(v, st);
    if (v.k === "i") {
      const s2 = st.clone();
      const out = [];
      if (this.decide(st, v.c, true)) out.push(...this.strict(v.a, st));
      if (this.decide(s2, v.c, false)) out.push(...this.strict(v.b, s2));
      return out;
    }
    if (v.k === "x") return [{ st, v: U }];
    return [{ st, v }];
  }
  // ------------------------------------------------------------ languages
  langOf(v, st) {
    v = this.resolve(v, st);
    const l = litOf(v);
    if (l !== null) return L.lit(l);
    if (v.k === "y") {
      const f = this.fact(v.id, st);
      return f.lang || L.ALL;
    }
    if (v.k === "i") {
      return L.union(this.langOf(v.a, st), this.langOf(v.b, st));
    }
    if (v.k === "s") {
      let d = L.EPS;
      for (const p of v.p) {
        let e;
        if (typeof p === "string") e = L.lit(p);
        else if (p.sym) e = this.langOf(symv(p.sym), st);
        else e = this.joinLang(p, st);
        try { d = L.concat(d, e); } catch (x) { if (x instanceof L.Unsupported) return L.ALL; throw x; }
      }
      const f = st.facts.get("c:" + key(v));
      if (f && f.lang) d = L.inter(d, f.lang);
      return d;
    }
    return L.ALL;
  }
  segElemLang(segs, st) {
    let d = L.EMPTY;
    for (const s of segs) {
      if (s.k === "1") d = L.union(d, this.langOf(s.v, st));
      else if (s.k === "*") for (const a of s.alts) d = L.union(d, this.segElemLang(a, st));
      else d = L.union(L.union(d, this.segElemLang(s.a, st)), this.segElemLang(s.b, st));
    }
    return d;
  }
  joinLang(p, st) {
    const e = this.segElemLang(p.join, st);
    return L.union(L.EPS, L.concat(e, L.star(L.concat(L.lit(p.sep), e))));
  }
  refineStr(st, v, D) {
    v = this.resolve(v, st);
    const l = litOf(v);
    if (l !== null) return D.accepts(l);
    if (v.k === "y") return this.refine(st, v.id, { ty: T.S, lang: D });
    if (v.k === "s") {
      const idx = v.p.map((p, i) => (typeof p === "string" ? -1 : i)).filter((i) => i >= 0);
      if (idx.length === 1 && v.p[idx[0]].sym) {
        const pre = v.p.slice(0, idx[0]).join(""), post = v.p.slice(idx[0] + 1).join("");
        let q = pre ? L.suffixesAfter(D, L.lit(pre)) : D;
        if (post) q = rightQuotient(q, post);
        return this.refine(st, v.p[idx[0]].sym, { ty: T.S, lang: q });
      }
      // character-set languages distribute over concatenation
      const cs = L.chars(D);
      const closed = L.without(L.negSet(cs));
      if (L.equal(D, closed)) {
        for (const p of v.p) {
          if (typeof p === "string") { if (!closed.accepts(p)) return false; }
          else if (p.sym) { if (!this.refine(st, p.sym, { ty: T.S, lang: closed })) return false; }
          else if (!this.refineSegs(st, p.join, closed)) return false;
        }
        return true;
      }
      const k = "c:" + key(v);
      const cur = this.langOf(v, st);
      const n = L.inter(cur, D);
      if (L.isEmpty(n)) return false;
      st.facts.set(k, { ty: T.S, lang: n });
      return true;
    }
    return true;
  }
  refineSegs(st, segs, D) {
    for (const s of segs) {
      if (s.k === "1") { if (s.v.k !== "i" && !this.refineStr(st, s.v, D)) return false; }
      // star and conditional segments may be empty: element facts strengthen, never make the state infeasible
      else if (s.k === "*") s.alts.forEach((a) => this.refineSegs(st, a, D));
      else { this.refineSegs(st, s.a, D); this.refineSegs(st, s.b, D); }
    }
    return true;
  }
  // split state on membership of string value v in D
  splitLang(st, v, D) {
    v = this.resolve(v, st);
    const l = litOf(v);
    if (l !== null) return [{ st, v: bool(D.accepts(l)) }];
    const cur = this.langOf(v, st);
    if (L.isEmpty(L.inter(cur, D))) return [{ st, v: FALSE }];
    if (L.subset(cur, D)) return [{ st, v: TRUE }];
    const s2 = st.clone();
    const out = [];
    if (this.refineStr(st, v, D)) out.push({ st, v: TRUE });
    if (this.refineStr(s2, v, L.not(D))) out.push({ st: s2, v: FALSE });
    return out;
  }
  // ------------------------------------------------------------ conversions
  toStr(v, st, node) {
    return this.seq(this.strict(v, st), (st, v) => {
      switch (v.k) {
        case "s": return this.ok(st, v);
        case "u": case "n": case "b": case "d": return this.ok(st, str(constToString(v)));
        case "y": {
          const f = this.fact(v.id, st);
          if (f.ty === T.S) return this.ok(st, v);
          if ((this.syms.get(v.id) || {}).strConst) return this.ok(st, str(this.syms.get(v.id).strConst));
          return this.ok(st, this.derived("tostr", [v]));
        }
        case "o": {
          const o = st.get(v.id);
          if (o.cls === "Array") return this.arrJoin(st, v, ",", node);
          if (o.cls === "RegExp") return this.ok(st, str("/" + o.src + "/" + o.flags));
          if (isErrCls(this, o, st)) {
            return this.seq(this.getProp(v, "message", st, node), (st, m) => this.seq(this.toStr(m, st, node), (st, ms) => this.ok(st, mkStr(["Error: ", ...partsOf(ms)]))));
          }
          if (o.ctor !== undefined) {
            return this.seq(this.getProp(v, "toString", st, node), (st, f) => f.k === "nat" ? this.ok(st, str("[object Object]")) : this.seq(this.call(f, v, [], st, node), (st, r) => this.toStr(r, st, node)));
          }
          return this.ok(st, str("[object Object]"));
        }
        case "nat": return this.ok(st, str("[native " + v.name + "]"));
        case "S": return this.throwErr(st, "TypeError", "Cannot convert a Symbol value to a string", node);
      }
      return this.ok(st, this.opaque("str", [v], { ty: T.S }));
    });
  }
  truthy(v, st) {
    v = this.resolve(v, st);
    switch (v.k) {
      case "u": case "n": case "x": return [{ st, b: false }];
      case "b": return [{ st, b: v.v }];
      case "d": return [{ st, b: !!v.v }];
      case "o": case "nat": case "S": case "mod": return [{ st, b: true }];
      case "i": return this.strict(v, st).flatMap((o) => this.truthy(o.v, o.st));
      case "s": {
        const l = litOf(v);
        if (l !== null) return [{ st, b: l !== "" }];
        if (v.p.some((p) => typeof p === "string")) return [{ st, b: true }];
        return this.splitLang(st, v, L.NONEMPTY).map((o) => ({ st: o.st, b: o.v.v }));
      }
      case "y": {
        const f = this.fact(v.id, st);
        if (f.tr !== undefined) return [{ st, b: f.tr }];
        const info = this.syms.get(v.id);
        const out = [];
        const s2 = st.clone();
        if (info.derive && info.derive.op[0] === "?") { this.markImprecise(st, v); this.markImprecise(s2, v); }
        // true
        {
          const g = { ty: f.ty & ~(T.U | T.N), tr: true };
          if (f.ty & T.S) g.lang = L.NONEMPTY;
          if (f.ty & T.D) g.nan = false;
          let okk = this.refine(st, v.id, g);
          if (okk && f.ty === T.D) {
            const q = this.fact(v.id, st);
            if (q.lo === 0 && q.hi === 0) okk = false;
            if (okk && q.lo === 0 && q.int) okk = this.refine(st, v.id, { ty: T.D, lo: 1 });
          }
          if (okk) out.push({ st, b: true });
        }
        {
          const g = { ty: f.ty & (T.U | T.N | T.B | T.D | T.S | T.G), tr: false };
          if (f.ty & T.S) g.lang = L.EPS;
          if (f.ty === T.D && f.nan === false) { g.lo = 0; g.hi = 0; }
          if (g.ty && this.refine(s2, v.id, g)) out.push({ st: s2, b: false });
        }
        return out;
      }
    }
    return [{ st, b: true }];
  }
  // ------------------------------------------------------------ merging
  compact(states, limit = MERGE_AT) {
    if (states.length > this.stats.maxStates) this.stats.maxStates = states.length;
    if (states.length <= limit) return states;
    return this.mergeAll(states);
  }
  groupKey(st) { return st.traceKey + "#" + st.timers.map((t) => t.id).join(",") + "#" + (st.extra.tag || ""); }
  mergeAll(states) {
    const groups = new Map();
    for (const s of states) {
      const k = this.groupKey(s);
      if (!groups.has(k)) groups.set(k, []);
      groups.get(k).push(s);
    }
    const out = [];
    for (const g of groups.values()) {
      // balanced joining keeps conditional nesting shallow
      let cur = g;
      while (cur.length > 1) {
        const nx = [];
        for (let i = 0; i < cur.length; i += 2) nx.push(i + 1 < cur.length ? this.join(cur[i], cur[i + 1]) : cur[i]);
        cur = nx;
      }
      out.push(cur[0]);
    }
    return out;
  }
  join(a, b) { this.stats.joins++; this.tick(); return joinStates(a, b, (id) => this.factDefault(id)); }
  // merge expression outcomes (values become conditional)
  mergeOuts(outs, limit = MERGE_AT) {
    if (outs.length <= 2 || (outs.length <= limit && limit === 1)) { if (outs.length <= limit) return outs; }
    if (outs.length <= limit) {
      // several outcomes with the same constant value (or several throws) carry no distinction worth keeping apart
      const seen = new Map();
      let dup = false;
      for (const o of outs) { const v = o.thr ? null : this.resolve(o.v, o.st); const k = o.thr ? "T" : isConst(v) || v.k === "nat" || v.k === "short" ? key(v) : null; if (k === null) continue; const g = this.groupKey(o.st) + "#" + k; if (seen.has(g)) dup = true; seen.set(g, [...(seen.get(g) || []), o]); }
      if (!dup) return outs;
      const merged = new Set(), res = [];
      for (const g of seen.values()) if (g.length > 1) { g.forEach((o) => merged.add(o)); res.push(this.joinOuts(g)); }
      return [...outs.filter((o) => !merged.has(o)), ...res];
    }
    const groups = new Map();
    for (const o of outs) {
      const v = o.thr ? null : this.resolve(o.v, o.st);
      const k = this.groupKey(o.st) + "#" + (o.thr ? "T" : isConst(v) || v.k === "nat" || v.k === "short" ? key(v) : "V");
      if (!groups.has(k)) groups.set(k, []);
      groups.get(k).push(o);
    }
    let res = [];
    for (const g of groups.values()) res.push(this.joinOuts(g));
    if (res.length > 16) {
      const g2 = new Map();
      for (const o of res) { const k = this.groupKey(o.st) + (o.thr ? "T" : o.v.k === "short" ? "S" : "V"); if (!g2.has(k)) g2.set(k, []); g2.get(k).push(o); }
      res = [...g2.values()].map((g) => this.joinOuts(g));
    }
    return res;
  }
  joinOuts(g) {
    let cur = g;
    while (cur.length > 1) {
      const nx = [];
      for (let i = 0; i < cur.length; i += 2) {
        if (i + 1 >= cur.length) { nx.push(cur[i]); continue; }
        const a = cur[i], b = cur[i + 1];
        const st = this.join(a.st, b.st);
        const c = st.lastJoin;
        if (a.thr) nx.push({ st, thr: mkIte(c, a.thr, b.thr) });
        else nx.push({ st, v: mkIte(c, a.v, b.v) });
      }
      cur = nx;
    }
    return cur[0];
  }
  // ------------------------------------------------------------ scopes
  newScope(st, parent, node, tag = "") {
    const id = this.allocId(node, "$S" + tag);
    st.set(id, { cls: "$S", vars: new Map(), parent });
    return id;
  }
  declare(st, scope, name, v) {
    const o = cloneObj(st.get(scope));
    o.vars.set(name, v);
    st.set(scope, o);
  }
  lookup(name, st, env, node) {
    let s = env.scope;
    while (s) {
      const o = st.get(s);
      if (o.vars.has(name)) return this.ok(st, o.vars.get(name));
      if (o.module) {
        const imp = o.module.imports.get(name);
        if (imp) return this.resolveImport(imp, st, node);
      }
      s = o.parent;
    }
    const g = this.natives.global(name);
    if (g) return this.ok(st, g);
    return this.ok(st, this.opaque("global:" + name, []));
  }
  assign(name, v, st, env, node) {
    let s = env.scope;
    while (s) {
      const o = st.get(s);
      if (o.vars.has(name)) {
        if (o.consts && o.consts.has(name)) return this.throwErr(st, "TypeError", "Assignment to constant variable.", node);
        if (o.module && this.initDone && this.hooks.onModuleVarWrite) this.hooks.onModuleVarWrite(st, o.module.file, name, v, node);
        this.declare(st, s, name, v);
        return this.ok(st, v);
      }
      s = o.parent;
    }
    return this.undecided("assignment to unknown " + name, node);
  }
  // ------------------------------------------------------------ modules
  moduleFile(spec, from) {
    if (!spec.startsWith(".")) return null;
    const b = path.resolve(path.dirname(from), spec);
    for (const c of [b + ".ts", b, b.replace(/\.js$/, ".ts"), path.join(b, "index.ts")]) if (c.endsWith(".ts") && fs.existsSync(c)) return c;
    return null;
  }
  parse(file) {
    this.sfs = this.sfs || new Map();
    if (!this.sfs.has(file)) {
      const sf = ts.createSourceFile(file, fs.readFileSync(file, "utf8"), ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
      if (sf.parseDiagnostics && sf.parseDiagnostics.length) this.undecided("syntax error in " + file);
      this.sfs.set(file, sf);
    }
    return this.sfs.get(file);
  }
  module(file) {
    let m = this.modules.get(file);
    if (m) return m;
    const sf = this.parse(file);
    const st = this.initState;
    const scope = this.newScope(st, 0, sf, "mod");
    m = { file, sf, scope, imports: new Map(), exports: new Map(), stars: [], done: false, lazy: sf.getLineStarts().length > 4000 };
    st.get(scope).module = m;
    this.modules.set(file, m);
    for (const s of sf.statements) {
      if (ts.isImportDeclaration(s)) {
        if (s.importClause && s.importClause.isTypeOnly) continue;
        const spec = s.moduleSpecifier.text;
        const f = this.moduleFile(spec, file);
        const tgt = f ? { file: f } : { ext: spec.replace(/^node:/, "") };
        const ic = s.importClause;
        if (!ic) { m.imports.set("!" + spec, { ...tgt, name: "*" }); continue; }
        if (ic.name) m.imports.set(ic.name.text, { ...tgt, name: "default" });
        if (ic.namedBindings) {
          if (ts.isNamespaceImport(ic.namedBindings)) m.imports.set(ic.namedBindings.name.text, { ...tgt, name: "*" });
          else for (const e of ic.namedBindings.elements) if (!e.isTypeOnly) m.imports.set(e.name.text, { ...tgt, name: (e.propertyName || e.name).text });
        }
      } else if (ts.isExportDeclaration(s) && !s.isTypeOnly) {
        const f = s.moduleSpecifier ? this.moduleFile(s.moduleSpecifier.text, file) : null;
        if (s.exportClause && ts.isNamedExports(s.exportClause)) {
          for (const e of s.exportClause.elements) {
            if (e.isTypeOnly) continue;
            const local = (e.propertyName || e.name).text;
            if (s.moduleSpecifier) m.exports.set(e.name.text, f ? { file: f, name: local } : { ext: s.moduleSpecifier.text.replace(/^node:/, ""), name: local });
            else m.exports.set(e.name.text, { local });
          }
        } else if (f) m.stars.push(f);
      } else if (ts.isExportAssignment(s)) m.exports.set("default", { local: "*default*" });
      else if (ts.getModifiers && ts.canHaveModifiers(s) && (ts.getModifiers(s) || []).some((x) => x.kind === SK.ExportKeyword)) {
        const def = ts.getModifiers(s).some((x) => x.kind === SK.DefaultKeyword);
        const reg = (n) => m.exports.set(def ? "default" : n, { local: n });
        if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) { if (ts.isIdentifier(d.name)) reg(d.name.text); else bindingNames(d.name).forEach(reg); }
        else if (s.name) reg(s.name.text);
      }
    }
    if (!m.lazy) this.runModule(m);
    return m;
  }
  runModule(m) {
    if (m.done) return;
    m.done = true;
    for (const imp of m.imports.values()) if (imp.file) { const t = this.module(imp.file); if (!t.lazy) this.runModule(t); }
    const env = { scope: m.scope, thisV: U, module: m };
    const saved = this.ctx, savedStack = this.stack;
    this.ctx = []; this.stack = [];
    let states = [this.initState];
    this.hoist(m.sf.statements, this.initState, env);
    for (const s of m.sf.statements) {
      const nx = [];
      for (const st of states) for (const o of this.exec(s, st, env)) {
        if (o.c) { if (o.c === "thr") this.undecided("module init throws in " + m.file + ": " + this.show(o.v, o.st), s); }
        else nx.push(o.st);
      }
      states = nx.length > 1 ? this.mergeAll(nx) : nx;
      if (states.length !== 1) this.undecided("module init of " + m.file + " has " + states.length + " states", s);
      // keep the shared init state identity
      if (states[0] !== this.initState) this.adoptInit(states[0]);
      states = [this.initState];
    }
    this.ctx = saved; this.stack = savedStack;
  }
  adoptInit(s) {
    const t = this.initState;
    for (const k of ["heap", "facts", "conds", "restore", "symProps", "trace", "traceKey", "impr", "timers", "epoch", "extra"]) t[k] = s[k];
  }
  resolveImport(imp, st, node) {
    if (imp.ext) {
      if (imp.name === "*" || imp.name === "default") return this.ok(st, nat(imp.ext));
      return this.ok(st, this.natives.natProp(nat(imp.ext), imp.name));
    }
    if (imp.name === "*") { this.needModule(imp.file); return this.ok(st, { k: "mod", file: imp.file }); }
    return this.getExport(imp.file, imp.name, st, node);
  }
  needModule(file) {
    const known = this.modules.get(file);
    if (known && known.done) return known;
    const m = this.module(file);
    if (!m.done) {
      this.runModule(m);
    }
    if (this.initDone) { for (const [k, v] of this.initState.heap) if (!this.base.has(k)) this.base.set(k, v); }
    return m;
  }
  getExport(file, name, st, node) {
    const m = this.needModule(file);
    const e = m.exports.get(name);
    if (!e) {
      for (const f of m.stars) { const mm = this.needModule(f); if (mm.exports.has(name) || mm.stars.length) return this.getExport(f, name, st, node); }
      return this.ok(st, this.opaque("import:" + name, []));
    }
    if (e.file || e.ext) return this.resolveImport(e, st, node);
    const o = st.get(m.scope);
    if (o.vars.has(e.local)) return this.ok(st, o.vars.get(e.local));
    const imp = m.imports.get(e.local);
    if (imp) return this.resolveImport(imp, st, node);
    return this.ok(st, U); // TDZ / type-only
  }
  // load entry modules; afterwards base heap is fixed
  load(...files) {
    this.initState = new State(new Map());
    for (const f of files) this.needModule(path.resolve(this.root, f));
    this.base = this.initState.heap;
    this.initState = Object.assign(new State(this.base), { facts: this.initState.facts, conds: this.initState.conds, restore: this.initState.restore, impr: this.initState.impr });
    this.initDone = true;
    this.baseIds = new Set(this.base.keys());
    return this;
  }
  // the state right after loading, to be reused by the next analysis
  snapshot() {
    this.snap = {};
    const cp = (v) => (v instanceof Map ? new Map(v) : v instanceof Set ? new Set(v) : v);
    for (const k of Object.keys(this)) if (k !== "snap" && k !== "natives" && k !== "syms" && k !== "stats") this.snap[k] = cp(this[k]);
    this.snap.$syms = { n: this.syms.n, info: [...this.syms.info].map(([k, v]) => [k, { ...v }]) };
    this.snap.$stats = Object.fromEntries(Object.entries(this.stats).map(([k, v]) => [k, cp(v)]));
    return this;
  }
  reset(opts) {
    const cp = (v) => (v instanceof Map ? new Map(v) : v instanceof Set ? new Set(v) : v);
    const snap = this.snap;
    for (const k of Object.keys(this)) if (k !== "snap" && k !== "natives" && k !== "syms" && k !== "stats" && !(k in snap)) delete this[k];
    for (const k of Object.keys(snap)) if (k[0] !== "$") this[k] = cp(snap[k]);
    this.syms.n = snap.$syms.n; this.syms.info = new Map(snap.$syms.info.map(([k, v]) => [k, { ...v }]));
    this.stats = Object.fromEntries(Object.entries(snap.$stats).map(([k, v]) => [k, cp(v)]));
    this.opts = opts; this.hooks = opts.hooks || {};
    this.maxSteps = opts.maxSteps || 4e6; this.deadline = Date.now() + (opts.maxMs || 240000);
    this.steps = 0; this.unstable = opts.unstable || false;
    return this;
  }
  newState() {
    const s = new State(this.base);
    s.facts = new PMap(this.initState.facts); s.conds = new PMap(this.initState.conds); s.restore = new PMap(this.initState.restore);
    return s;
  }
  exported(file, name, st) {
    const f = path.resolve(this.root, file);
    if (!fs.existsSync(f)) return null;
    const o = this.getExport(f, name, st, null);
    return o[0].v.k === "u" || (o[0].v.k === "y" && !(this.syms.get(o[0].v.id) || {}).known) ? null : o[0].v;
  }
  // ------------------------------------------------------------ functions
  mkFn(node, st, env, extra = {}) {
    const fn = { cls: "Function", fnNode: node, env: { scope: env.scope, thisV: env.thisV, home: env.home, module: env.module, arrow: ts.isArrowFunction(node), newTarget: env.newTarget }, layers: [new Map()], ...extra };
    return this.alloc(st, fn, node, "fn");
  }
  hoist(stmts, st, env) {
    for (const s of stmts) {
      if (ts.isFunctionDeclaration(s) && s.name && s.body) this.declare(st, env.scope, s.name.text, this.mkFn(s, st, env));
    }
  }
  call(f, thisV, args, st, node) {
    this.tick();
    return this.seq(this.strict(f, st), (st, f) => {
      if (f.k === "nat") return this.natives.call(f.name, thisV, args, st, node);
      if (f.k === "o") {
        const o = st.get(f.id);
        if (o.cls !== "Function") return this.throwErr(st, "TypeError", "not a function", node);
        if (o.native) return o.native(thisV, args, st, node);
        if (o.bound) return this.call(o.bound.f, o.bound.thisV, [...o.bound.args, ...args], st, node);
        if (o.classNode) return this.throwErr(st, "TypeError", "Class constructor cannot be invoked without 'new'", node);
        return this.callUser(f, o, thisV, args, st, node);
      }
      if (f.k === "y") {
        const fa = this.fact(f.id, st);
        const info = this.syms.get(f.id);
        const out = [];
        if (info.callModel) return info.callModel(this, f, thisV, args, st, node);
        if (!(fa.ty & (T.F | T.O))) return this.throwErr(st, "TypeError", "not a function", node);
        const s2 = st.clone();
        if (this.refine(st, f.id, { ty: T.F })) {
          const rid = "ret:" + f.id + "(" + args.map(segKey).join(",") + ")" + (info.pure ? "" : "@" + this.siteKey(node) + this.ctx.join("/"));
          const r = this.syms.named(rid, "result of " + info.origin + "()", info.retBase || {}, { foreign: info.foreign, callOf: f.id, childBase: info.retChildBase });
          st.event({ name: "callback", f: info.origin, fid: f.id, args, node });
          s2.event({ name: "callback", f: info.origin, fid: f.id, args, node });
          out.push({ st, v: r });
          if (!info.nothrow) { out.push({ st: s2, thr: this.syms.named("exc:" + rid, "error thrown by " + info.origin, { ty: T.O, tr: true }, { isError: true }) }); }
        }
        if ((fa.ty & ~T.F) && !info.nothrow) { const s3 = s2.clone(); out.push(...this.throwErr(s3, "TypeError", "not a function", node)); }
        return out;
      }
      return this.throwErr(st, "TypeError", "not a function", node);
    });
  }
  callUser(fv, o, thisV, args, st, node) {
    const fnNode = o.fnNode;
    const depth = this.stack.filter((x) => x.fnNode === fnNode).length;
    const symbolic = args.some((a) => a.k !== "1" || !isConst(this.resolve(a.v, st)));
    const limit = this.hooks.recursionLimit ? this.hooks.recursionLimit(fnNode, depth, args, st) : undefined;
    if (depth >= (limit ?? (symbolic ? (this.opts.recDepth ?? 1) : 40)) || this.stack.length > 120) {
      const name = fnName(fnNode);
      this.stats.recursions.set(name, (this.stats.recursions.get(name) || 0) + 1);
      if (this.hooks.onRecursion) { const r = this.hooks.onRecursion(fnNode, name, args, st, node, fv); if (r) return r; }
      return this.ok(st, this.recSummary(fnNode, name, args));
    }
    if (this.opts.opaqueSymMethods) {
      const tv = this.resolve(thisV, st);
      if (tv.k === "y" && typeof (this.fact(tv.id, st).cls ?? this.syms.get(tv.id).cls) === "number") {
        const t = fnNode.type && annotType(fnNode.type);
        return this.ok(st, this.derived("?meth:" + fnName(fnNode), [tv, ...args.filter((a) => a.k === "1").map((a) => this.resolve(a.v, st))], t ? { ty: t } : {}));
      }
    }
    if (this.opts.localBudget && this.isPureVoid(fnNode)) {
      // a side-effect-free checker: when its precise analysis is too large, it either returns or throws
      const saved = st.clone(), lim = this.localLimit, mine = this.steps + this.opts.localBudget;
      const sl = this.stack.length, cl = this.ctx.length;
      if (lim === undefined || mine < lim) {
        this.localLimit = mine;
        try { return this.callUser2(fv, o, thisV, args, st, node); }
        catch (x) {
          if (!(x instanceof LocalBudget) || x.lim !== mine) throw x;
          this.stack.length = sl; this.ctx.length = cl;
          this.stats.summarised = (this.stats.summarised || new Set()).add(fnName(fnNode));
          const s2 = saved.clone();
          saved.impr.add("summary:" + fnName(fnNode));
          return [{ st: saved, v: U }, ...this.throwErr(s2, "Error", this.syms.named("summaryErr:" + fnName(fnNode), "message of " + fnName(fnNode), { ty: T.S }), node)];
        } finally { this.localLimit = lim; }
      }
    }
    return this.callUser2(fv, o, thisV, args, st, node);
  }
  isPureVoid(fn) {
    this.pv = this.pv || new Map();
    if (this.pv.has(fn)) return this.pv.get(fn);
    this.pv.set(fn, false);
    const ok = !!fn.type && fn.type.getText() === "void" && !hasMod(fn, SK.AsyncKeyword) && !!fn.body && this.pureBody(fn, 0);
    this.pv.set(fn, ok);
    return ok;
  }
  pureBody(fn, d) {
    if (d > 6) return true;
    let okk = true;
    const file = fn.getSourceFile();
    const visit = (n) => {
      if (!okk) return;
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && !ts.isIdentifier(n.left)) okk = false;
      if (ts.isDeleteExpression(n) || ts.isAwaitExpression(n) || ts.isYieldExpression(n)) okk = false;
      if (ts.isCallExpression(n)) {
        const c = n.expression;
        if (ts.isPropertyAccessExpression(c) && /^(push|pop|shift|unshift|splice|sort|reverse|set|add|delete|clear|assign|defineProperty|fill)$/.test(c.name.text)) okk = false;
        if (ts.isIdentifier(c)) {
          const decl = file.statements.find((s) => ts.isFunctionDeclaration(s) && s.name && s.name.text === c.text);
          if (decl && decl !== fn && decl.body && !this.pureBody(decl, d + 1)) okk = false;
        }
      }
      ts.forEachChild(n, visit);
    };
    visit(fn.body);
    return okk;
  }
  callUser2(fv, o, thisV, args, st, node) {
    const fnNode = o.fnNode;
    this.stats.calls++;
    this.stats.fns.add(this.siteKey(fnNode) + " " + fnName(fnNode));
    if (this.hooks.onCall) { const r = this.hooks.onCall(fnNode, fnName(fnNode), thisV, args, st, node); if (r) return r; }
    this.stack.push({ fnNode, node });
    this.ctx.push(node ? String(node.pos) : "e");
    const isAsync = hasMod(fnNode, SK.AsyncKeyword), isGen = !!fnNode.asteriskToken;
    const scope = this.newScope(st, o.env.scope, fnNode, "call");
    const env = { ...o.env, scope, fn: fnNode };
    if (!ts.isArrowFunction(fnNode)) { env.thisV = thisV; env.newTarget = undefined; }
    if (o.home) env.home = o.home;
    let yv;
    if (isGen) { yv = this.allocArr(st, [], fnNode, "yield"); env.yields = yv; }
    let outs;
    try { outs = this.runBody(fnNode, args, st, env); }
    finally { this.ctx.pop(); this.stack.pop(); }
    if (isGen) outs = outs.map((r) => (r.thr ? r : { st: r.st, v: yv }));
    outs = this.mergeOuts(outs);
    if (isAsync) outs = outs.map((r) => this.settle(r, fnNode));
    return outs;
  }
  settle(r, node) {
    const st = r.st;
    if (r.thr) return { st, v: this.alloc(st, { cls: "Promise", layers: [new Map()], pstate: "err", pv: r.thr }, node, "prom" + this.ctx.length) };
    const v = this.resolve(r.v, st);
    if (v.k === "o" && st.get(v.id).cls === "Promise") return { st, v };
    if (v.k === "y" && this.syms.get(v.id).promise) return { st, v };
    return { st, v: this.alloc(st, { cls: "Promise", layers: [new Map()], pstate: "ok", pv: r.v }, node, "prom" + this.ctx.length) };
  }
  recSummary(fnNode, name, args) {
    const base = {};
    const t = fnNode.type;
    if (t) { const m = annotType(t); if (m) base.ty = m; }
    return this.syms.named("rec:" + name + "(" + args.map(segKey).join(",") + ")", "recursive " + name, base, { rec: name, recArgs: args });
  }
  runBody(fnNode, args, st, env) {
    let outs = this.bindParams(fnNode.parameters, args, st, env);
    return this.seq(outs, (st) => {
      if (!fnNode.body) return this.ok(st, U);
      if (!ts.isBlock(fnNode.body)) return this.ev(fnNode.body, st, env);
      this.hoist(fnNode.body.statements, st, env);
      return this.execList(fnNode.body.statements, [st], env).map((o) =>
        o.c === "thr" ? { st: o.st, thr: o.v } : { st: o.st, v: o.c === "ret" ? o.v : U });
    });
  }
  argAt(args, i, st) {
    // args: segs
    if (args.slice(0, i + 1).every((s) => s.k === "1")) return i < args.length ? args[i].v : U;
    return this.segIndex(args, i, st);
  }
  bindParams(params, args, st, env) {
    let outs = this.ok(st, U);
    params.forEach((p, i) => {
      if (p.name.text === "this") return;
      outs = this.seq(outs, (st) => {
        if (p.dotDotDotToken) {
          const rest = args.slice(0, i).every((s) => s.k === "1") ? args.slice(i) : [{ k: "*", alts: args.map((s) => [s]) }];
          return this.bindPattern(p.name, this.allocArr(st, rest, p, "rest"), st, env);
        }
        const v = this.argAt(args, i, st);
        if (p.initializer) {
          return this.seq(this.isUndef(v, st), (st, b) => b.v
            ? this.seq(this.ev(p.initializer, st, env), (st, d) => this.bindPattern(p.name, d, st, env))
            : this.bindPattern(p.name, v, st, env));
        }
        return this.bindPattern(p.name, v, st, env);
      });
    });
    return outs;
  }
  isUndef(v, st) {
    return this.seq(this.strict(v, st), (st, v) => {
      if (v.k === "u" || v.k === "x") return this.ok(st, TRUE);
      if (v.k !== "y") return this.ok(st, FALSE);
      return this.splitType(st, v, T.U);
    });
  }
  isNullish(v, st) {
    return this.seq(this.strict(v, st), (st, v) => {
      if (v.k === "u" || v.k === "x" || v.k === "n") return this.ok(st, TRUE);
      if (v.k !== "y") return this.ok(st, FALSE);
      return this.splitType(st, v, T.U | T.N);
    });
  }
  splitType(st, v, mask) {
    v = this.resolve(v, st);
    if (v.k !== "y") return this.ok(st, bool(!!(this.typeMask(v, st) & mask)));
    const f = this.fact(v.id, st);
    if (!(f.ty & mask)) return this.ok(st, FALSE);
    if (!(f.ty & ~mask)) return this.ok(st, TRUE);
    const s2 = st.clone();
    const out = [];
    if (this.refine(st, v.id, { ty: mask })) out.push({ st, v: TRUE });
    if (this.refine(s2, v.id, { ty: ANYT & ~mask })) out.push({ st: s2, v: FALSE });
    return out;
  }
  typeMask(v, st) {
    switch (v.k) {
      case "u": case "x": return T.U;
      case "n": return T.N;
      case "b": return T.B;
      case "d": return T.D;
      case "s": return T.S;
      case "S": return T.Y;
      case "y": return this.fact(v.id, st).ty;
      case "i": return this.typeMask(this.resolve(v.a, st), st) | this.typeMask(this.resolve(v.b, st), st);
      case "nat": return /prototype$/.test(v.name) || this.natives.isNamespace(v.name) ? T.O : T.F;
      case "o": { const o = st.get(v.id); return o.cls === "Function" ? T.F : o.cls === "Array" ? T.A : T.O; }
      case "mod": return T.O;
    }
    return ANYT;
  }
  bindPattern(name, v, st, env) {
    if (ts.isIdentifier(name)) { this.declare(st, env.scope, name.text, v); return this.ok(st, U); }
    if (ts.isObjectBindingPattern(name)) {
      return this.seq(this.strict(v, st), (st, v) => {
        let outs = this.ok(st, U);
        if (v.k === "u" || v.k === "n") return this.throwErr(st, "TypeError", "Cannot destructure", name);
        const used = [];
        for (const el of name.elements) {
          outs = this.seq(outs, (st) => {
            if (el.dotDotDotToken) {
              return this.bindPattern(el.name, this.copyObject(v, st, el, used), st, env);
            }
            const kn = el.propertyName || el.name;
            const kOuts = ts.isComputedPropertyName(kn) ? this.ev(kn.expression, st, env) : this.ok(st, str(kn.text));
            return this.seq(kOuts, (st, kv) => {
              if (litOf(kv) != null) used.push(litOf(kv));
              return this.seq(this.getProp(v, kv, st, el), (st, pv) => this.bindDefault(el, pv, st, env));
            });
          });
        }
        return outs;
      });
    }
    // array pattern
    return this.seq(this.iterSegs(v, st, name), (st, segs) => {
      let outs = this.ok(st, U);
      name.elements.forEach((el, i) => {
        if (ts.isOmittedExpression(el)) return;
        outs = this.seq(outs, (st) => {
          if (el.dotDotDotToken) {
            const rest = segs.slice(0, i).every((s) => s.k === "1") ? segs.slice(i) : segs;
            return this.bindPattern(el.name, this.allocArr(st, rest, el, "rest"), st, env);
          }
          return this.bindDefault(el, this.segIndex(segs, i, st), st, env);
        });
      });
      return outs;
    });
  }
  bindDefault(el, pv, st, env) {
    if (!el.initializer) return this.bindPattern(el.name, pv, st, env);
    return this.seq(this.isUndef(pv, st), (st, b) => b.v
      ? this.seq(this.ev(el.initializer, st, env), (st, d) => this.bindPattern(el.name, d, st, env))
      : this.bindPattern(el.name, pv, st, env));
  }
  // ------------------------------------------------------------ segments
  segIndex(segs, i, st) {
    let n = 0;
    for (let k = 0; k < segs.length; k++) {
      const s = segs[k];
      if (s.k === "1") { if (n === i) return s.v; n++; continue; }
      if (s.k === "alt") {
        const d = st.conds.get(s.c);
        const rest = segs.slice(k + 1);
        if (d === true) return this.segIndex([...s.a, ...rest], i - n, st);
        if (d === false) return this.segIndex([...s.b, ...rest], i - n, st);
        return mkIte(s.c, this.segIndex([...s.a, ...rest], i - n, st), this.segIndex([...s.b, ...rest], i - n, st));
      }
      // star: element of the star, or something after it, or nothing
      let r = this.segIndex(segs.slice(k + 1), i - n, st);
      for (const a of s.alts) for (const e of a) if (e.k === "1") r = mkIte(newCond("ix"), e.v, r);
      return r;
    }
    return U;
  }
  segLen(segs) { return segs.every((s) => s.k === "1") ? segs.length : null; }
  minLen(segs) { return segs.reduce((n, s) => n + (s.k === "1" ? 1 : s.k === "alt" ? Math.min(this.minLen(s.a), this.minLen(s.b)) : 0), 0); }
  resolveSegs(segs, st) {
    let out = [];
    for (const s of segs) {
      if (s.k === "alt") {
        const d = st.conds.get(s.c);
        if (d === undefined) out.push(s);
        else out.push(...this.resolveSegs(d ? s.a : s.b, st));
      } else out.push(s);
    }
    return out;
  }
  // iterable -> segs
  iterSegs(v, st, node) {
    return this.seq(this.strict(v, st), (st, v) => {
      if (v.k === "o") {
        const o = st.get(v.id);
        if (o.segs) return this.ok(st, this.resolveSegs(o.segs, st).map((s) => this.unpair(s, st, node)));
        if (o.cls === "Promise") return this.throwErr(st, "TypeError", "not iterable", node);
        return this.seq(this.getProp(v, "@@iterator", st, node), (st, it) => {
          if (it.k === "u") return this.throwErr(st, "TypeError", "not iterable", node);
          return this.seq(this.call(it, v, [], st, node), (st, r) => r.k === v.k && r.id === v.id ? this.undecided("custom iterator", node) : this.iterSegs(r, st, node));
        });
      }
      if (v.k === "s" && litOf(v) != null) return this.ok(st, [...litOf(v)].map((c) => one(str(c))));
      if (v.k === "s" || (v.k === "y" && this.fact(v.id, st).ty === T.S)) {
        const cs = L.chars(this.langOf(v, st));
        const c = this.syms.named("char(" + key(v) + ")", "character of " + this.show(v), { ty: T.S }, { rep: true, derive: { op: "charOf", args: [v] } });
        void cs;
        return this.ok(st, [{ k: "*", alts: [[one(c)]], charOf: v }]);
      }
      if (v.k === "y") {
        const f = this.fact(v.id, st);
        if (!(f.ty & (T.A | T.O | T.S | T.F))) return this.throwErr(st, "TypeError", "not iterable", node);
        const out = [];
        if (f.ty & ~T.A) {
          const s2 = st.clone();
          if (this.refine(s2, v.id, { ty: ANYT & ~T.A })) out.push(...this.throwErr(s2, "TypeError", "not iterable", node));
        }
        if ((f.ty & T.A) && this.refine(st, v.id, { ty: T.A })) out.push({ st, v: [{ k: "*", alts: [[one(this.elemSym(v.id, st))]], of: v.id }] });
        return out;
      }
      return this.throwErr(st, "TypeError", "not iterable", node);
    });
  }
  unpair(s, st, node) {
    if (s.k === "1") return s.v.k === "pair" ? one(this.allocArr(st, [one(s.v.a), one(s.v.b)], node || null, "pair" + key(s.v.a))) : s;
    if (s.k === "*") return { ...s, alts: s.alts.map((a) => a.map((x) => this.unpair(x, st, node))) };
    if (s.k === "alt") return { ...s, a: s.a.map((x) => this.unpair(x, st, node)), b: s.b.map((x) => this.unpair(x, st, node)) };
    return s;
  }
  arrJoin(st, arrV, sep, node) {
    return this.seq(this.iterSegs(arrV, st, node), (st, segs) => this.joinSegsStr(st, segs, sep, node));
  }
  joinSegsStr(st, segs, sep, node) {
    // convert each element to string first
    return this.seq(this.mapSegs(segs, st, (st, v) => this.seq(this.isNullish(v, st), (st, b) => b.v ? this.ok(st, str("")) : this.toStr(v, st, node))), (st, segs) => {
      if (segs.every((s) => s.k === "1")) {
        let outs = this.ok(st, []);
        segs.forEach((s, i) => {
          outs = this.seq(outs, (st, parts) => this.seq(this.strict(s.v, st), (st, v) => this.ok(st, [...parts, ...(i ? [sep] : []), ...partsOf(v)])));
        });
        return this.seq(outs, (st, parts) => this.ok(st, mkStr(parts)));
      }
      return this.ok(st, { k: "s", p: [{ join: segs, sep }] });
    });
  }
  // map over segments; f(st, v, index) -> outcomes
  mapSegs(segs, st, f, opts = {}) {
    let outs = this.ok(st, []);
    segs.forEach((s, i) => {
      outs = this.mergeSegOuts(this.seq(outs, (st, acc) => {
        if (s.k === "1") { this.ctx.push("m" + i); try { return this.seq(f(st, s.v, i), (st, v) => this.ok(st, [...acc, ...(opts.flat ? v : [one(v)])])); } finally { this.ctx.pop(); } }
        if (s.k === "alt") {
          const d = st.conds.get(s.c);
          const s2 = d === undefined ? st.clone() : null;
          let r = [];
          if (d !== false && this.decide(st, s.c, true)) r.push(...this.mergeSegOuts(this.mapSegs(s.a, st, (st, v) => f(st, v, -1), opts), 1));
          if (d !== true) { const t = s2 || st; if (this.decide(t, s.c, false)) r.push(...this.mergeSegOuts(this.mapSegs(s.b, t, (st, v) => f(st, v, -1), opts), 1)); }
          r = this.mergeSegOuts(r, 1);
          return r.map((o) => (o.thr ? o : { st: o.st, v: [...acc, ...o.v] }));
        }
        // star: map each alternative from the same state; results become alternatives
        this.ctx.push("*" + i);
        try {
          const alts = [], throws = [];
          const ends = [];
          for (const a of s.alts) {
            const st0 = st.clone();
            const before = st0.facts;
            for (const o of this.mapSegs(a, st0, (st, v) => f(st, v, -1), opts)) {
              if (o.thr) throws.push(o);
              else { ends.push({ st: o.st, v: o.v, a }); }
            }
            void before;
          }
          if (ends.length === 0) {
            // every element throws: only the empty instance continues
            return [...throws, { st, v: acc }];
          }
          const fin = this.starMerge(st, s, ends.map((e) => ({ st: e.st, out: e.v })), opts);
          return [...throws, { st: fin.st, v: [...acc, ...(fin.alts.length ? [{ k: "*", alts: fin.alts }] : [])] }];
        } finally { this.ctx.pop(); }
      }));
    });
    return outs;
  }
  mergeSegOuts(outs, limit = 2) {
    const n = outs.filter((o) => !o.thr);
    if (n.length <= limit) return outs;
    const groups = new Map(), res = outs.filter((o) => o.thr);
    for (const o of n) { const k = this.groupKey(o.st); if (!groups.has(k)) groups.set(k, []); groups.get(k).push(o); }
    for (const g of groups.values()) {
      let cur = g;
      while (cur.length > 1) {
        const nx = [];
        for (let i = 0; i < cur.length; i += 2) {
          if (i + 1 >= cur.length) { nx.push(cur[i]); continue; }
          const st = this.join(cur[i].st, cur[i + 1].st);
          const c = st.lastJoin;
          nx.push({ st, v: V.joinSegs(c, cur[i].v, cur[i + 1].v) });
        }
        cur = nx;
      }
      res.push(cur[0]);
    }
    return res;
  }
  // combine the ends of one abstract iteration over a star segment (map/filter style)
  starMerge(head, s, ends, opts = {}) {
    const reps = new Set();
    s.alts.forEach((a) => this.collectReps(a, reps, head));
    const alts = [], seen = new Set();
    const H = this.widen(head, ends.map((e) => e.st), reps, 1, "map@" + this.ctx.join("/"));
    for (const e of ends) {
      if (!e.out.length) continue;
      const rn = this.renamer(e.st, reps, H, head);
      const a = e.out.map((x) => this.renameSeg(x, rn));
      const k = canonKey(a.map(segKey).join(","));
      if (!seen.has(k)) { seen.add(k); alts.push(a); }
    }
    // map (no filtering, no early exit): every element went through
    if (!opts.partial) this.strengthen(H, ends.map((e) => e.st), reps);
    return { st: H, alts };
  }
  collectReps(segs, reps, st) {
    for (const s of segs) {
      if (s.k === "1") this.collectRepsV(s.v, reps, st, 0);
      else if (s.k === "*") s.alts.forEach((a) => this.collectReps(a, reps, st));
      else { this.collectReps(s.a, reps, st); this.collectReps(s.b, reps, st); }
    }
  }
  collectRepsV(v, reps, st, d) {
    if (d > 6) return;
    if (v.k === "y") {
      const info = this.syms.get(v.id);
      if (info.rep) reps.add(v.id);
      if (info.parent) this.collectRepsV(symv(info.parent), reps, st, d + 1);
      if (info.dynKey) this.collectRepsV(info.dynKey, reps, st, d + 1);
      if (info.derive && !info.rep) info.derive.args.forEach((a) => this.collectRepsV(a, reps, st, d + 1));
    } else if (v.k === "s") { for (const p of v.p) if (p.sym) this.collectRepsV(symv(p.sym), reps, st, d + 1); }
    else if (v.k === "i") { this.collectRepsV(v.a, reps, st, d + 1); this.collectRepsV(v.b, reps, st, d + 1); }
    else if (v.k === "pair") { this.collectRepsV(v.a, reps, st, d + 1); this.collectRepsV(v.b, reps, st, d + 1); }
    else if (v.k === "o") {
      const o = st.get(v.id);
      if (!o || o.cls === "Function") return;
      if (o.segs) for (const s of o.segs) if (s.k === "1") this.collectRepsV(s.v, reps, st, d + 1);
      if (o.layers) for (const l of o.layers) if (l instanceof Map) for (const e of l.values()) if (e.v) this.collectRepsV(e.v, reps, st, d + 1);
    }
  }
  dependsOn(id, reps, memo = new Map()) {
    if (reps.has(id)) return true;
    if (memo.has(id)) return memo.get(id);
    memo.set(id, false);
    const info = this.syms.get(id);
    if (!info) return false;
    let r = false;
    if (info.parent && this.dependsOn(info.parent, reps, memo)) r = true;
    if (info.keyOf && this.syms.get(info.keyOf) && this.dependsOn(info.keyOf, reps, memo)) r = true;
    const val = (v) => v.k === "y" ? this.dependsOn(v.id, reps, memo) : v.k === "s" ? v.p.some((p) => p.sym && this.dependsOn(p.sym, reps, memo)) : v.k === "i" ? val(v.a) || val(v.b) : false;
    if (!r && info.dynKey && val(info.dynKey)) r = true;
    if (!r && info.derive && info.derive.args.some(val)) r = true;
    if (!r && info.recArgs && info.recArgs.some((s) => s.k === "1" && val(s.v))) r = true;
    memo.set(id, r);
    return r;
  }
  // rename representative symbols of one end state into copies carrying that path's facts
  renamer(endSt, reps, target, head) {
    const memo = new Map();
    const dep = [];
    PMap.diff(head.facts, endSt.facts, (id, hf, f) => { if (f !== undefined && !id.startsWith("c:") && this.syms.get(id) && this.dependsOn(id, reps, memo)) dep.push([id, f]); });
    dep.sort((a, b) => (a[0] < b[0] ? -1 : 1));
    const newConds = [];
    PMap.diff(head.conds, endSt.conds, (c, x, y) => { if (y !== undefined && x === undefined) newConds.push([c, y]); });
    const conds = newConds.filter(([c]) => c.startsWith("has:") && [...reps].some((r) => c.includes(r + ":") || c.includes(r + ".")));
    const sig = dep.map(([id, f]) => id + "=" + V.factKey(f)).join(";") + "#" + conds.map((c) => c.join("=")).sort().join(";");
    if (!dep.length && !conds.length) return null;
    this.sigs = this.sigs || new Map();
    if (!this.sigs.has(sig)) this.sigs.set(sig, "~" + (this.sigs.size + 1));
    const tag = this.sigs.get(sig);
    const rn = { reps, tag, endSt, target, memo, done: new Map(), objs: new Map(), head };
    for (const [id, f] of dep) {
      const nid = this.renameSymId(id, rn);
      if (nid !== id) { const g = { ...f }; if (g.eq) g.eq = this.renameV(g.eq, rn); target.facts.set(nid, g); }
    }
    for (const [c, b] of conds) {
      const i = c.indexOf(":", 4), id = c.slice(4, i), k = c.slice(i + 1);
      const nid = this.syms.get(id) ? this.renameSymId(id, rn) : id;
      if (nid !== id) target.conds.set("has:" + nid + ":" + k, b);
    }
    for (const r of endSt.impr) if (this.syms.get(r) && this.dependsOn(r, reps, memo)) target.impr.add(this.renameSymId(r, rn));
    return rn;
  }
  renameSymId(id, rn) {
    if (!rn) return id;
    if (rn.done.has(id)) return rn.done.get(id);
    if (!this.dependsOn(id, rn.reps, rn.memo)) { rn.done.set(id, id); return id; }
    const info = this.syms.get(id);
    let nid;
    if (rn.reps.has(id)) {
      nid = id + rn.tag;
      this.syms.named(nid, info.origin, info.base, { ...info, derive: undefined, copyOf: info.copyOf || id, rep: true });
    } else if (info.derive) {
      nid = this.derived(info.derive.op, info.derive.args.map((a) => this.renameV(a, rn)), info.base, info.origin).id;
    } else if (info.parent) {
      const np = this.renameSymId(info.parent, rn);
      const dk = info.dynKey ? this.renameV(info.dynKey, rn) : null;
      nid = dk ? np + "[" + key(dk) + "]" : np + id.slice(info.parent.length);
      this.syms.named(nid, info.origin, info.base, { ...info, parent: np, key: dk ? "[" + key(dk) + "]" : info.key, dynKey: dk || undefined, copyOf: info.copyOf || id });
    } else if (info.keyOf) {
      const np = this.renameSymId(info.keyOf, rn);
      nid = np + id.slice(info.keyOf.length);
      this.syms.named(nid, info.origin, info.base, { ...info, keyOf: np, copyOf: info.copyOf || id });
    } else if (info.recArgs) {
      const na = info.recArgs.map((s) => this.renameSeg(s, rn));
      nid = "rec:" + info.rec + "(" + na.map(segKey).join(",") + ")";
      this.syms.named(nid, info.origin, info.base, { ...info, recArgs: na });
    } else nid = id;
    rn.done.set(id, nid);
    return nid;
  }
  renameV(v, rn) {
    if (!rn) return v;
    switch (v.k) {
      case "y": return symv(this.renameSymId(v.id, rn));
      case "s": return mkStr(v.p.map((p) => (typeof p === "string" ? p : p.sym ? { sym: this.renameSymId(p.sym, rn) } : { join: p.join.map((s) => this.renameSeg(s, rn)), sep: p.sep })));
      case "i": return mkIte(v.c, this.renameV(v.a, rn), this.renameV(v.b, rn));
      case "pair": return { k: "pair", a: this.renameV(v.a, rn), b: this.renameV(v.b, rn) };
      case "o": return this.renameObj(v, rn);
    }
    return v;
  }
  renameObj(v, rn) {
    if (rn.head.get(v.id)) return v; // existed before the iteration
    const o = rn.endSt.get(v.id);
    if (!o || o.cls === "Function" || o.cls === "$S") return v;
    if (rn.objs.has(v.id)) return obj(rn.objs.get(v.id));
    const k = "ren:" + v.id + rn.tag;
    this.ids = this.ids || new Map();
    let nid = this.ids.get(k);
    if (nid === undefined) { nid = ++this.idn; this.ids.set(k, nid); }
    rn.objs.set(v.id, nid);
    const n = cloneObj(o);
    if (n.segs) n.segs = n.segs.map((s) => this.renameSeg(this.resolveSeg(s, rn.endSt), rn));
    if (n.layers) n.layers = n.layers.map((l) => {
      if (l instanceof Map) return new Map([...l].map(([k2, e]) => [k2, e.v ? { ...e, v: this.renameV(this.resolve(e.v, rn.endSt), rn) } : e]));
      if (l.dyn) return { dyn: this.renameV(l.dyn, rn), v: this.renameV(this.resolve(l.v, rn.endSt), rn) };
      if (l.spread) return { spread: this.renameSymId(l.spread, rn) };
      return l;
    });
    if (n.pv) n.pv = this.renameV(n.pv, rn);
    rn.target.set(nid, n);
    return obj(nid);
  }
  resolveSeg(s, st) { return s.k === "1" ? one(this.resolve(s.v, st)) : s; }
  renameSeg(s, rn) {
    if (!rn) return s;
    if (s.k === "1") return one(this.renameV(this.resolve(s.v, rn.endSt), rn));
    if (s.k === "*") return { ...s, alts: s.alts.map((a) => a.map((x) => this.renameSeg(x, rn))) };
    return { ...s, a: s.a.map((x) => this.renameSeg(x, rn)), b: s.b.map((x) => this.renameSeg(x, rn)) };
  }
  strengthen(H, ends, reps) {
    // every element satisfied the facts established on some completed path
    const memo = new Map(), ids = new Set();
    for (const e of ends) PMap.diff(H.facts, e.facts, (id) => { if (!id.startsWith("c:") && this.syms.get(id) && this.dependsOn(id, reps, memo)) ids.add(id); });
    for (const id of ids) {
      let j = null;
      for (const e of ends) { const f = e.facts.get(id) ?? this.factDefault(id); j = j ? joinFact(j, f) : f; }
      if (j) { const n = normFact(meetFact(H.facts.get(id) ?? this.factDefault(id), j)); if (n) H.facts.set(id, n); }
    }
    for (const e of ends) for (const r of e.impr) H.impr.add(r);
  }
  leaves(v, st, out = []) {
    v = this.resolve(v, st);
    if (v.k === "i") { this.leaves(v.a, st, out); this.leaves(v.b, st, out); } else out.push(v);
    return out;
  }
  widenV(vH, vE, H, E, rn, round, tag) {
    if (same(vH, vE)) return vH;
    const lh = this.leaves(vH, H), le = this.leaves(vE, E).map((v) => this.renameV(v, rn));
    const hk = new Set(lh.map(key));
    const fresh = le.filter((v) => !hk.has(key(v)));
    if (!fresh.length) return vH;
    if (vH.k === "y" && vH.id.startsWith("w:" + tag)) {
      const m = fresh.reduce((n, v) => n | this.typeMask(v, E), 0);
      const base = this.syms.get(vH.id).base;
      if (!(m & ~base.ty)) return vH;
      return this.syms.named("w:" + tag + ":" + (m | base.ty), "loop-carried " + tag.split(":").pop(), { ty: m | base.ty }, { widened: true });
    }
    if (round < 2 && lh.length < 6) {
      let r = vH;
      for (const f of fresh) r = mkIte(newCond("l"), f, r);
      return r;
    }
    const m = [...lh, ...fresh].reduce((n, v) => n | this.typeMask(v, E), 0);
    return this.syms.named("w:" + tag + ":" + m, "loop-carried " + tag.split(":").pop(), { ty: m }, { widened: true });
  }
  // least upper bound of the loop head with the ends of one iteration, with widening
  widen(head, ends, reps, round, tag) {
    const H = head.clone();
    for (const E of ends) {
      let rn;
      const getRn = () => (rn === undefined ? (rn = this.renamer(E, reps, H, head)) : rn);
      const changedIds = [];
      PMap.diff(head.heap, E.heap, (id, x, y) => { if (y !== undefined) changedIds.push([id, y]); });
      for (const [id, eo] of changedIds) {
        const ho = head.get(id);
        if (!ho) { if (!H.heap.has(id)) H.heap.set(id, eo); else if (H.heap.get(id) !== eo) H.heap.set(id, V.joinObj(newCond("l"), H.heap.get(id), eo)); continue; }
        const cur = H.get(id);
        if (eo === cur || eo === ho) continue;
        const n = cloneObj(cur);
        let changed = false;
        if (eo.vars) {
          for (const [k, v] of eo.vars) {
            if (!n.vars.has(k)) continue; // declared inside the iteration
            const cv = n.vars.get(k);
            if (same(cv, v)) continue;
            const w = this.widenV(cv, v, H, E, getRn(), round, tag + ":" + k);
            if (!same(w, cv)) { n.vars.set(k, w); changed = true; }
          }
        }
        if (eo.segs) {
          const w = this.widenSegs(ho.segs || [], n.segs || [], eo.segs, getRn(), tag, H);
          if (w !== n.segs) { n.segs = w; changed = true; }
        }
        if (eo.layers) {
          const w = this.widenLayers(ho.layers, n.layers, eo.layers, H, E, getRn(), round, tag + ":o" + id);
          if (w) { n.layers = w; changed = true; }
        }
        if (eo.pstate !== cur.pstate) { n.pstate = "ext"; changed = true; }
        if (changed) H.set(id, n);
      }
      const memo = new Map();
      const changedF = [];
      PMap.diff(E.facts, H.facts, (id) => changedF.push(id));
      for (const id of changedF) {
        const ef = E.facts.get(id), hf = H.facts.get(id);
        if (ef === hf) continue;
        if (id.startsWith("c:") || !this.syms.get(id)) { if (hf && !ef) H.facts.delete(id); continue; }
        if (this.dependsOn(id, reps, memo)) continue;
        const a = hf ?? this.factDefault(id), b = ef ?? this.factDefault(id);
        const j = joinFact(a, b);
        if (V.factKey(j) !== V.factKey(a)) H.facts.set(id, round >= 3 ? this.factDefault(id) : j);
      }
      PMap.diff(head.conds, E.conds, (k, x) => { if (x !== undefined) H.conds.delete(k); });
      PMap.diff(H.restore, E.restore, (k, x, y) => { if (y !== undefined) H.restore.set(k, y.weak ? y : { ...y, weak: true }); });
      for (const [k, v] of E.symProps) if (!H.symProps.has(k)) H.symProps.set(k, mkIte(newCond("l"), this.renameV(v, getRn()), { k: "orig" })); else if (!same(H.symProps.get(k), v)) H.symProps.set(k, mkIte(newCond("l"), v, H.symProps.get(k)));
      for (const r of E.impr) H.impr.add(r);
      H.epoch = Math.max(H.epoch, E.epoch);
      if (E.traceKey !== H.traceKey && E.traceKey !== head.traceKey) {
        const evs = [];
        for (let t = E.trace; t && t !== head.trace; t = t.prev) evs.push(t.ev);
        evs.reverse();
        const k = "loop{" + evs.map((e) => e.name).join(",") + "}";
        if (!H.traceKey.includes(k)) H.event({ name: k, loop: evs });
      }
      if (E.timers.length > H.timers.length) H.timers = E.timers;
    }
    return H;
  }
  widenSegs(h, cur, e, rn, tag, H) {
    const hk = h.map(segKey);
    let p = 0;
    while (p < hk.length && p < e.length && hk[p] === segKey(e[p])) p++;
    if (p === h.length) {
      const suffix = e.slice(p);
      if (!suffix.length) return cur;
      const last = h[h.length - 1];
      const a = suffix.map((s) => this.renameSeg(s, rn));
      const ak = canonKey(a.map(segKey).join(","));
      const curLast = cur[cur.length - 1];
      if (curLast && curLast.k === "*" && curLast.loop === tag) {
        if (curLast.alts.some((x) => canonKey(x.map(segKey).join(",")) === ak)) return cur;
        if (curLast.alts.length > 24) { // give up distinguishing
          const top = this.syms.named("w:" + tag + ":seg", "loop-carried element", {}, { widened: true });
          return [...cur.slice(0, -1), { k: "*", loop: tag, alts: [[one(top)]] }];
        }
        return [...cur.slice(0, -1), { k: "*", loop: tag, alts: [...curLast.alts, a] }];
      }
      void last;
      return [...cur, { k: "*", loop: tag, alts: [a] }];
    }
    const top = this.syms.named("w:" + tag + ":seg", "loop-carried element", {}, { widened: true });
    const r = [{ k: "*", loop: tag, alts: [[one(top)]] }];
    return cur.map(segKey).join() === r.map(segKey).join() ? cur : r;
  }
  widenLayers(h, cur, e, H, E, rn, round, tag) {
    if (h === e || !h) return null;
    let changed = false;
    const out = cur.map((l) => (l instanceof Map ? new Map(l) : l));
    for (let i = 0; i < h.length; i++) {
      const a = out[i], b = e[i];
      if (a instanceof Map && b instanceof Map) {
        for (const k of new Set([...a.keys(), ...b.keys()])) {
          const x = a.get(k), y = b.get(k);
          if ((x && x.acc) || (y && y.acc)) { if (!x) { a.set(k, y); changed = true; } continue; }
          const xv = x ? x.v : ABSENT, yv = y ? y.v : ABSENT;
          if (same(xv, yv)) continue;
          const w = this.widenV(xv, yv, H, E, rn, round, tag + "." + k);
          if (!same(w, xv)) { a.set(k, { ...(x || y), v: w }); changed = true; }
        }
      } else if (!(a instanceof Map) && !(b instanceof Map) && b) { /* same spread */ }
    }
    const extra = e.slice(h.length);
    for (const l of extra) {
      // layers added in the iteration become "maybe many"
      let add = [];
      if (l instanceof Map) add = [...l].filter(([, x]) => x.v).map(([k, x]) => ({ key: str(k), v: this.renameV(this.resolve(x.v, E), rn) }));
      else if (l.dyn) add = [{ key: this.renameV(l.dyn, rn), v: this.renameV(this.resolve(l.v, E), rn) }];
      else if (l.many) add = l.many.map((x) => ({ key: this.renameV(x.key, rn), v: this.renameV(x.v, rn) }));
      else continue;
      let m = out.find((x) => x.many && x.loop === tag);
      for (const x of add) {
        if (!m) { m = { many: [], loop: tag }; out.push(m); changed = true; }
        if (!m.many.some((y) => same(y.key, x.key) && same(y.v, x.v))) {
          const i = out.indexOf(m);
          m = { ...m, many: [...m.many, x] };
          out[i] = m; changed = true;
        }
      }
    }
    return changed ? out : null;
  }
  // generic loop over segments with a statement body
  loopSegs(segs, states, body, node) {
    // returns { ends: [states], breaks: [states], abrupt: [stmt outcomes] }
    let cur = states;
    const breaks = [], abrupt = [];
    const route = (outs, ends) => {
      for (const o of outs) {
        if (!o.c || (o.c === "cont" && !o.label)) ends.push(o.st);
        else if (o.c === "brk" && !o.label) breaks.push(o.st);
        else abrupt.push(o);
      }
    };
    segs.forEach((s, i) => {
      if (!cur.length) return;
      this.ctx.push("L" + i);
      try {
        const nx = [];
        for (const st of cur) {
          if (s.k === "1") { const e = []; route(body(st, s.v, segs.slice(0, i).every((q) => q.k === "1") ? i : -1), e); nx.push(...e); }
          else if (s.k === "alt") {
            const s2 = st.clone();
            if (this.decide(st, s.c, true)) { const r = this.loopSegs(s.a, [st], (st, v) => body(st, v, -1), node); nx.push(...r.ends); breaks.push(...r.breaks); abrupt.push(...r.abrupt); }
            if (this.decide(s2, s.c, false)) { const r = this.loopSegs(s.b, [s2], (st, v) => body(st, v, -1), node); nx.push(...r.ends); breaks.push(...r.breaks); abrupt.push(...r.abrupt); }
          } else {
            const reps = new Set();
            s.alts.forEach((a) => this.collectReps(a, reps, st));
            const tag = this.siteKey(node) + ":" + this.ctx.join("/");
            let H = st, lastEnds = [], lastAb = [], lastBr = [];
            for (let round = 0; ; round++) {
              const ends = [];
              lastAb = []; lastBr = [];
              for (const a of s.alts) {
                const r = this.loopSegs(a, [H.clone()], body, node);
                ends.push(...r.ends); lastAb.push(...r.abrupt); lastBr.push(...r.breaks);
              }
              lastEnds = ends;
              const N = this.widen(H, ends, reps, round, tag);
              if (this.sameState(H, N)) break;
              H = N;
              if (round > 8) this.undecided("loop fixpoint not reached", node);
            }
            abrupt.push(...lastAb);
            breaks.push(...lastBr);
            if (lastEnds.length) this.strengthen(H, lastEnds, reps);
            if (s.charOf && lastEnds.length) this.strengthenChars(H, s.charOf, lastEnds, [...reps]);
            nx.push(H);
          }
        }
        cur = this.compact(nx);
      } finally { this.ctx.pop(); }
    });
    return { ends: cur, breaks, abrupt };
  }
  strengthenChars(H, strV, ends, reps) {
    // all characters of strV satisfy the character facts
    for (const id of reps) {
      if (!id.startsWith("char(")) continue;
      let set = L.EMPTY;
      for (const e of ends) { const f = this.fact(id, e); set = L.union(set, f.lang ? f.lang : L.ANYCP); }
      this.refineStr(H, strV, L.star(set));
    }
  }
  sameState(a, b) {
    if (a.traceKey !== b.traceKey) return false;
    const dif = [];
    PMap.diff(a.heap, b.heap, (id, x, y) => { if (y !== undefined) dif.push([id, y]); });
    for (const [id, o] of dif) {
      const x = a.get(id);
      if (x === o) continue;
      if (!x) continue; // allocated in iteration, deterministic id
      if (canonKey(this.objKey(x)) !== canonKey(this.objKey(o))) { if (this.opts.debugLoop) console.error("DIFF", canonKey(this.objKey(x)).slice(0, 1500), "\n  VS", canonKey(this.objKey(o)).slice(0, 1500)); return false; }
    }
    let okf = true;
    PMap.diff(a.facts, b.facts, (id, x, f) => { if (okf && f !== undefined && x !== undefined && V.factKey(x) !== V.factKey(f)) okf = false; });
    return okf;
  }
  objKey(o) {
    let k = o.cls;
    if (o.vars) k += [...o.vars].map(([n, v]) => n + "=" + key(v)).sort().join(";");
    if (o.segs) k += "[" + o.segs.map(segKey).join(",") + "]";
    if (o.layers) k += o.layers.map((l) => (l instanceof Map ? [...l].map(([n, e]) => n + "=" + (e.v ? key(e.v) : "acc")).sort().join(";") : l.spread ? "..." + l.spread : l.dyn ? "dyn" + key(l.dyn) + key(l.v) : l.many ? "many" + l.many.map((x) => key(x.key) + key(x.v)).join() : "cond" + l.cond)).join("/");
    k += (typeof o.pstate === "string" ? o.pstate : "") + (o.pv ? key(o.pv) : "");
    return k;
  }
  // ------------------------------------------------------------ properties
  propKey(kv) {
    if (typeof kv === "string") return kv;
    const l = litOf(kv);
    if (l !== null) return l;
    if (kv.k === "d") return String(kv.v);
    if (kv.k === "S") return "@@" + kv.name;
    if (kv.k === "u" || kv.k === "n" || kv.k === "b") return constToString(kv);
    return null;
  }
  classOf(o, st) { return o.ctor !== undefined ? st.get(o.ctor) : null; }
  // lookup in class chain; returns entry or nat-parent name
  classMember(clsId, k, st) {
    let c = clsId;
    while (c !== undefined) {
      const co = st.get(c);
      const e = co.protoProps.get(k);
      if (e) return { e, home: c };
      if (co.parent && co.parent.k === "o") c = co.parent.id;
      else return co.parent && co.parent.k === "nat" ? { nat: co.parent.name } : null;
    }
    return null;
  }
  nativeBase(o, st) {
    // native class name an instance ultimately derives from
    if (o.ctor === undefined) return o.cls;
    let c = o.ctor;
    while (c !== undefined) {
      const co = st.get(c);
      if (co.parent && co.parent.k === "o") c = co.parent.id;
      else return co.parent && co.parent.k === "nat" ? co.parent.name : "Object";
    }
  }
  // own property lookup through layers -> value or conditional; ABSENT if none
  ownLookup(o, k, st, from = null) {
    const layers = o.layers || [];
    for (let i = (from === null ? layers.length : from) - 1; i >= 0; i--) {
      const l = layers[i];
      if (l instanceof Map) {
        const e = l.get(k);
        if (!e) continue;
        if (e.acc) return { acc: e.acc };
        const v = this.resolve(e.v, st);
        if (v.k === "x") continue;
        if (v.k === "i" && hasAbsent(v)) {
          const rest = this.ownLookup(o, k, st, i);
          return { v: replaceAbsent(v, rest.v || ABSENT) };
        }
        return { v, ne: e.ne };
      }
      if (l.spread) {
        const hc = "has:" + l.spread + ":" + k;
        const d = st.conds.get(hc);
        const cv = this.symProp(l.spread, k, st);
        if (d === true) return { v: cv };
        if (d === false) continue;
        const rest = this.ownLookup(o, k, st, i);
        return { v: mkIte(hc, cv, rest.v || ABSENT) };
      }
      if (l.dyn) {
        const dk = this.resolve(l.dyn, st);
        const pk = this.propKey(dk);
        if (pk !== null) { if (pk === k) return { v: l.v }; continue; }
        if (!this.mayEqStr(dk, k, st)) continue;
        const rest = this.ownLookup(o, k, st, i);
        return { v: mkIte("dyn:" + key(dk) + "=" + k, l.v, rest.v || ABSENT) };
      }
      if (l.many) {
        let rest = this.ownLookup(o, k, st, i).v || ABSENT;
        for (const x of l.many) if (this.mayEqStr(x.key, k, st)) rest = mkIte(newCond("dm"), x.v, rest);
        return { v: rest };
      }
      if (l.cond) {
        const d = st.conds.get(l.cond);
        const a = this.ownLookup({ layers: l.a }, k, st), b = this.ownLookup({ layers: l.b }, k, st);
        if (d === true) { if (a.v && a.v.k === "x") continue; return a; }
        if (d === false) { if (b.v && b.v.k === "x") continue; return b; }
        if (a.acc || b.acc) return a.acc ? a : b;
        const rest = i > 0 ? this.ownLookup(o, k, st, i).v || ABSENT : ABSENT;
        return { v: mkIte(l.cond, replaceAbsent(a.v, rest), replaceAbsent(b.v, rest)) };
      }
    }
    return { v: ABSENT };
  }
  mayEqStr(v, s, st) {
    v = this.resolve(v, st);
    if (v.k === "i") return this.mayEqStr(v.a, s, st) || this.mayEqStr(v.b, s, st);
    const l = litOf(v);
    if (l !== null) return l === s;
    if (v.k === "y" && !(this.fact(v.id, st).ty & T.S)) return false;
    return this.langOf(v, st).accepts(s);
  }
  symProp(id, k, st) {
    const ov = st && st.symProps.get(id + "." + k);
    const c = () => this.child(id, k, st);
    if (ov) return replaceOrig(ov, c);
    return c();
  }
  getProp(v, kIn, st, node) {
    return this.seq(this.strict(v, st), (st, v) => {
      if (typeof kIn !== "string" && kIn.k === "i") return this.seq(this.strict(kIn, st), (st, k2) => this.getProp(v, k2, st, node));
      const kv = typeof kIn === "string" ? str(kIn) : this.resolve(kIn, st);
      const k = this.propKey(kv);
      switch (v.k) {
        case "u": case "n": return this.throwErr(st, "TypeError", `Cannot read properties of ${key(v)} (reading '${k}')`, node);
        case "s": return this.strProp(v, k, kv, st, node);
        case "d": return this.ok(st, k === null ? U : primNat("Number", k));
        case "b": return this.ok(st, primNat("Boolean", k));
        case "S": return this.ok(st, k === "description" ? str(v.name) : nat("Symbol.prototype." + k));
        case "nat": return k === null ? this.ok(st, this.opaque("natprop:" + v.name, [kv])) : this.ok(st, this.natives.natProp(v, k));
        case "mod": return this.getExport(v.file, k, st, node);
        case "y": return this.symGet(v, k, kv, st, node);
        case "o": return this.objGet(v, k, kv, st, node);
      }
      return this.undecided("getProp on " + v.k, node);
    });
  }
  strProp(v, k, kv, st, node) {
    const l = litOf(v);
    if (k === "length") return this.ok(st, l !== null ? num(l.length) : this.derived("len", [v], { ty: T.D, lo: 0, nan: false, int: true }));
    if (k !== null && /^\d+$/.test(k)) {
      if (l !== null) return this.ok(st, +k < l.length ? str(l[+k]) : U);
      return this.natives.call("String.prototype.at0", v, [one(num(+k))], st, node);
    }
    if (k === null) return this.ok(st, this.opaque("strIndex", [v, kv], { ty: T.S | T.U, lang: L.lenBetween(1, 1) }));
    return this.ok(st, primNat("String", k));
  }
  symGet(v, k, kv, st, node) {
    const f = this.fact(v.id, st);
    const out = [];
    if (f.ty & (T.U | T.N)) {
      const s2 = st.clone();
      if (this.refine(s2, v.id, { ty: T.U | T.N })) out.push(...this.throwErr(s2, "TypeError", "Cannot read properties of undefined", node));
      if (!this.refine(st, v.id, { ty: ANYT & ~(T.U | T.N) })) return out;
    }
    const g = this.fact(v.id, st);
    const info = this.syms.get(v.id);
    // Object.getPrototypeOf(x).constructor
    if (k === "constructor" && info.derive && info.derive.op === "protoOf") {
      const src = info.derive.args[0];
      if (src.k === "o" && st.get(src.id) && st.get(src.id).classNode) { out.push({ st, v: src }); return out; }
      if (src.k === "y") { out.push(...this.getProp(src, k, st, node)); return out; }
    }
    if (g.ty === T.S) { out.push(...this.strProp(v, k, kv, st, node)); return out; }
    if (g.ty === T.D) { out.push({ st, v: primNat("Number", k) }); return out; }
    if (g.ty === T.B) { out.push({ st, v: primNat("Boolean", k) }); return out; }
    if (k === null) {
      // symbolic key
      if (g.ty === T.A) { // index into unknown array
        out.push({ st, v: mkIte(newCond("ix"), this.elemSym(v.id, st), U) });
        return out;
      }
      out.push({ st, v: this.dynChild(v.id, kv) });
      return out;
    }
    // primitive alternatives of an unknown value expose prototype methods: keep a method-on-symbol marker
    if (info.cls || g.cls) {
      const cid = g.cls || info.cls;
      const clsObj = typeof cid === "number" ? cid : null;
      if (clsObj) {
        const m = this.classMember(clsObj, k, st);
        if (m && m.e) {
          if (m.e.acc) { out.push(...(m.e.acc.get ? this.call(m.e.acc.get, v, [], st, node) : this.ok(st, U))); return out; }
          out.push({ st, v: m.e.v });
          return out;
        }
      }
    }
    { const cid = g.cls || info.cls; if (k === "constructor" && typeof cid === "string") { out.push({ st, v: nat(cid) }); return out; } if (typeof cid === "string" && this.natives.has(cid + ".prototype." + k)) { out.push({ st, v: nat(cid + ".prototype." + k) }); return out; } }
    if (g.ty === T.A) {
      if (k === "length") { out.push({ st, v: this.derived("alen", [v], { ty: T.D, lo: 0, nan: false, int: true }) }); return out; }
      if (/^\d+$/.test(k)) { out.push({ st, v: mkIte(newCond("ix"), this.elemSym(v.id, st), U) }); return out; }
      if (this.natives.has("Array.prototype." + k)) { out.push({ st, v: nat("Array.prototype." + k) }); return out; }
    }
    if (info.extMethods) { out.push({ st, v: nat(info.extMethods + ".prototype." + k) }); if (this.natives.has(info.extMethods + ".prototype." + k)) return out; out.pop(); }
    const st2 = st;
    if (this.natives.anyMethod(k) && st.symProps.get(v.id + "." + k) === undefined && !this.isDeclaredProp(info, k)) { out.push({ st: st2, v: { k: "nat", name: "any." + k } }); return out; }
    out.push({ st, v: this.symProp(v.id, k, st) });
    return out;
  }
  isDeclaredProp(info, k) { return !!(info.props && info.props.has(k)); }
  objGet(v, k, kv, st, node) {
    const o = st.get(v.id);
    if (k === null) return this.objGetDyn(v, o, kv, st, node);
    if (o.segs && o.cls === "Array") {
      if (k === "length") {
        const n = this.segLen(o.segs);
        return this.ok(st, n !== null ? num(n) : this.derived("alen", [v, str(o.segs.map(segKey).join(","))], { ty: T.D, lo: this.minLen(o.segs), nan: false, int: true }));
      }
      if (/^\d+$/.test(k)) return this.ok(st, this.segIndex(o.segs, +k, st));
    }
    if (o.segs && k === "size") { const n = this.segLen(o.segs); return this.ok(st, n !== null ? num(n) : this.derived("alen", [v, str(o.segs.map(segKey).join(","))], { ty: T.D, lo: 0, nan: false, int: true })); }
    if (o.cls === "RegExp") {
      if (k === "source") return this.ok(st, str(o.src));
      if (k === "flags") return this.ok(st, str(o.flags));
      if (k === "lastIndex") return this.ok(st, o.lastIndex || num(0));
      if (k === "global") return this.ok(st, bool(o.flags.includes("g")));
    }
    const own = this.ownLookup(o, k, st);
    if (own.acc) return own.acc.get ? this.call(own.acc.get, v, [], st, node) : this.ok(st, U);
    if (own.v.k !== "x") {
      if (own.v.k === "i" && hasAbsent(own.v)) {
        return this.seq(this.strictA(own.v, st), (st, x) => x.k === "x" ? this.protoGet(v, o, k, st, node) : this.ok(st, x));
      }
      if (o.volatile && own.v.k !== "o") { // a caller's object may answer differently on every observation
        const x = this.syms.named(o.volatile + "." + k + this.epochTag(st), o.volatile + "." + k, { ty: T.U | T.N | T.B | T.D | T.S }, { foreign: true });
        return this.ok(st, x);
      }
      return this.ok(st, own.v);
    }
    return this.protoGet(v, o, k, st, node);
  }
  strictA(v, st) { // like strict but keeps ABSENT
    v = this.resolve(v, st);
    if (v.k === "i") {
      const s2 = st.clone();
      const out = [];
      if (this.decide(st, v.c, true)) out.push(...this.strictA(v.a, st));
      if (this.decide(s2, v.c, false)) out.push(...this.strictA(v.b, s2));
      return out;
    }
    return [{ st, v }];
  }
  protoGet(v, o, k, st, node) {
    if (o.ctor !== undefined) {
      const m = this.classMember(o.ctor, k, st);
      if (m && m.e) {
        if (m.e.acc) return m.e.acc.get ? this.call(m.e.acc.get, v, [], st, node) : this.ok(st, U);
        return this.ok(st, m.e.v);
      }
      if (k === "constructor") return this.ok(st, obj(o.ctor));
      if (m && m.nat) return this.ok(st, this.natives.protoMember(m.nat, k));
      return this.ok(st, this.natives.protoMember("Object", k));
    }
    if (o.cls === "Function" && o.classNode) {
      if (k === "name") return this.ok(st, str(o.name || ""));
      if (k === "prototype") return this.ok(st, this.derived("protoOf", [v], { ty: T.O, tr: true }));
      if (o.parent && o.parent.k === "o") return this.getProp(o.parent, k, st, node);
      return this.ok(st, this.natives.protoMember("Function", k));
    }
    if (o.proto && o.proto.k === "n") return this.ok(st, U);
    if (k === "__proto__") return this.ok(st, nat("Object.prototype"));
    return this.ok(st, this.natives.protoMember(o.cls, k));
  }
  objGetDyn(v, o, kv, st, node) {
    // symbolic key on a heap object
    if (o.segs && o.cls === "Array") {
      const t = this.typeMask(kv, st);
      if (!(t & T.S)) {
        const rest = o.segs.reduce((r, s) => {
          const es = [];
          (function walk(x) { if (x.k === "1") es.push(x.v); else if (x.k === "*") x.alts.forEach((a) => a.forEach(walk)); else { x.a.forEach(walk); x.b.forEach(walk); } })(s);
          return es.reduce((q, e) => mkIte(newCond("ix"), e, q), r);
        }, U);
        return this.ok(st, rest);
      }
    }
    return this.seq(this.toStr(kv, st, node), (st, ks) => {
      const lit = litOf(ks);
      if (lit !== null) return this.objGet(v, lit, ks, st, node);
      const lang = this.langOf(ks, st);
      const names = new Set();
      let unknown = false;
      const walk = (layers) => { for (const l of layers || []) { if (l instanceof Map) for (const n of l.keys()) names.add(n); else if (l.cond) { walk(l.a); walk(l.b); } else if (l.dyn) unknown = true; else if (l.many) unknown = true; else if (l.spread) unknown = true; } };
      walk(o.layers);
      const cand = [...names].filter((n) => lang.accepts(n));
      if (this.hooks.onDynLookup) this.hooks.onDynLookup(v, o, ks, lang, cand, st, node);
      const out = [];
      let rest = st;
      if (cand.length > 40) {
        // too many: summarise as one of the stored values
        const s2 = st.clone();
        const D = L.lits(cand);
        if (this.refineStr(s2, ks, D)) {
          let r = null;
          const vals = new Map();
          for (const n of cand) { const e = this.ownLookup(o, n, s2); if (e.v) vals.set(key(e.v), e.v); }
          const vs = [...vals.values()].slice(0, 12);
          for (const x of vs) r = r ? mkIte(newCond("dk"), x, r) : x;
          out.push({ st: s2, v: r || U });
        }
        if (!this.refineStr(rest, ks, L.not(D))) return out;
      } else for (const n of cand) {
        const s2 = rest.clone();
        if (this.refineStr(s2, ks, L.lit(n))) out.push(...this.objGet(v, n, str(n), s2, node));
        if (!this.refineStr(rest, ks, L.not(L.lit(n)))) return out;
      }
      // same dynamic key stored before?
      for (let i = (o.layers || []).length - 1; i >= 0; i--) {
        const l = o.layers[i];
        if (l.dyn && same(this.resolve(l.dyn, rest), ks)) { out.push({ st: rest, v: l.v }); return out; }
        if (l.spread && ks.k === "y" && this.isKeyOf(ks.id, l.spread)) { out.push({ st: rest, v: this.dynChild(l.spread, ks) }); return this.mergeOuts(out); }
        if (l.spread) { out.push({ st: rest.clone(), v: this.dynChild(l.spread, ks) }); }
        if (l.many) for (const x of l.many) out.push({ st: rest.clone(), v: x.v });
      }
      // inherited members of Object.prototype
      if (!(o.proto && o.proto.k === "n") && o.cls !== "Array") {
        const P = L.lits(PROTO_NAMES.filter((n) => !names.has(n)));
        if (!L.isEmpty(L.inter(this.langOf(ks, rest), P))) {
          const s2 = rest.clone();
          if (this.refineStr(s2, ks, P)) {
            const pv = this.syms.named("proto[" + key(ks) + "]", "Object.prototype[" + this.show(ks) + "]", { ty: T.F | T.O, tr: true }, { protoMember: true, nothrow: false });
            if (this.hooks.onProtoRead) this.hooks.onProtoRead(v, o, ks, s2, node);
            out.push({ st: s2, v: pv });
          }
          if (!this.refineStr(rest, ks, L.not(P))) return out;
        }
      }
      out.push({ st: rest, v: U });
      return this.mergeOuts(out);
    });
  }
  setProp(v, kIn, val, st, node) {
    return this.seq(this.strict(v, st), (st, v) => {
      const kv = typeof kIn === "string" ? str(kIn) : this.resolve(kIn, st);
      if (kv.k === "i") return this.seq(this.strict(kv, st), (st, k2) => this.setProp(v, k2, val, st, node));
      const k = this.propKey(kv);
      if (v.k === "u" || v.k === "n") return this.throwErr(st, "TypeError", "Cannot set properties of " + key(v), node);
      if (v.k === "y") {
        const f = this.fact(v.id, st);
        if (f.ty & (T.U | T.N)) {
          const s2 = st.clone();
          const out = [];
          if (this.refine(s2, v.id, { ty: T.U | T.N })) out.push(...this.throwErr(s2, "TypeError", "Cannot set properties of undefined", node));
          if (this.refine(st, v.id, { ty: ANYT & ~(T.U | T.N) })) out.push(...this.setProp(v, kIn, val, st, node));
          return out;
        }
        this.mutated(st, v, k ?? this.show(kv), node);
        st.symProps.set(v.id + "." + (k ?? "[" + key(kv) + "]"), val);
        if (k !== null) { st.conds.set("has:" + v.id + ":" + k, true); st.facts.delete(v.id + "." + k); }
        return this.ok(st, val);
      }
      if (v.k !== "o") return this.ok(st, val);
      const o = st.get(v.id);
      if (o.ctor !== undefined && k !== null) {
        const m = this.classMember(o.ctor, k, st);
        if (m && m.e && m.e.acc) return m.e.acc.set ? this.seq(this.call(m.e.acc.set, v, [one(val)], st, node), (st) => this.ok(st, val)) : this.throwErr(st, "TypeError", "no setter for " + k, node);
      }
      const own = k !== null ? this.ownLookup(o, k, st) : null;
      if (own && own.acc) return own.acc.set ? this.seq(this.call(own.acc.set, v, [one(val)], st, node), (st) => this.ok(st, val)) : this.throwErr(st, "TypeError", "no setter for " + k, node);
      if (o.frozen) return this.throwErr(st, "TypeError", "Cannot assign to read only property '" + k + "'", node);
      this.mutated(st, v, k ?? this.show(kv), node);
      const n = cloneObj(o);
      if (o.segs && o.cls === "Array" && k === "length") {
        const lv = this.resolve(val, st);
        if (lv.k === "d" && n.segs.every((s) => s.k === "1")) n.segs = n.segs.slice(0, lv.v);
        else n.segs = [{ k: "*", alts: n.segs.map((s) => [s]) }];
        st.set(v.id, n);
        return this.ok(st, val);
      }
      if (o.segs && o.cls === "Array" && k !== null && /^\d+$/.test(k) && n.segs.every((s) => s.k === "1")) {
        while (n.segs.length < +k) n.segs.push(one(U));
        n.segs[+k] = one(val);
        st.set(v.id, n);
        return this.ok(st, val);
      }
      if (o.segs && o.cls === "Array" && (k === null || /^\d+$/.test(k))) {
        n.segs = [{ k: "*", alts: [...n.segs.map((s) => [s]), [one(val)]] }];
        st.set(v.id, n);
        return this.ok(st, val);
      }
      if (o.cls === "RegExp" && k === "lastIndex") { n.lastIndex = val; st.set(v.id, n); return this.ok(st, val); }
      if (k === "__proto__" && !(o.proto && o.proto.k === "n")) {
        st.event({ name: "proto-write", node, tkey: this.siteKey(node) });
        if (this.hooks.onProtoWrite) this.hooks.onProtoWrite(v, o, kv, st, node, val);
        return this.ok(st, val);
      }
      if (k === null) {
        return this.seq(this.toStr(kv, st, node), (st, ks) => {
          const lang = this.langOf(ks, st);
          const out = [];
          const o2 = st.get(v.id);
          if (!(o2.proto && o2.proto.k === "n") && lang.accepts("__proto__")) {
            if (this.hooks.onProtoWrite) this.hooks.onProtoWrite(v, o2, ks, st, node, val);
          }
          const n2 = cloneObj(o2);
          n2.layers = [...n2.layers, { dyn: ks, v: val }];
          st.set(v.id, n2);
          out.push({ st, v: val });
          return out;
        });
      }
      this.putOwn(n, k, { v: val });
      st.set(v.id, n);
      return this.ok(st, val);
    });
  }
  putOwn(n, k, e) {
    if (!n.layers || !n.layers.length) n.layers = [new Map()];
    const top = n.layers[n.layers.length - 1];
    if (top instanceof Map) { const ex = top.get(k); top.set(k, ex && ex.ne && e.ne === undefined ? { ...e, ne: ex.ne } : e); }
    else n.layers = [...n.layers, new Map([[k, e]])];
  }
  mutated(st, v, k, node) {
    if (v.k === "y") {
      const info = this.syms.get(v.id);
      if (info.foreign) { const e = { name: "mutate", target: info.origin, sym: v.id, key: k, node }; if (this.hooks.onMutate) this.hooks.onMutate(e, st); }
    } else if (v.k === "o" && this.initDone && this.baseIds.has(v.id)) {
      const e = { name: "mutate-shared", id: v.id, key: k, node };
      if (this.hooks.onMutate) this.hooks.onMutate(e, st);
    }
  }
  deleteProp(v, kIn, st, node) {
    return this.seq(this.strict(v, st), (st, v) => {
      const kv = typeof kIn === "string" ? str(kIn) : this.resolve(kIn, st);
      const k = this.propKey(kv);
      if (v.k === "y") {
        this.mutated(st, v, k ?? this.show(kv), node);
        if (k !== null) { st.symProps.set(v.id + "." + k, U); st.conds.set("has:" + v.id + ":" + k, false); }
        return this.ok(st, TRUE);
      }
      if (v.k !== "o") return this.ok(st, TRUE);
      const o = st.get(v.id);
      if (o.frozen) return this.throwErr(st, "TypeError", "Cannot delete property", node);
      this.mutated(st, v, k ?? this.show(kv), node);
      if (k === null) { const n = cloneObj(o); n.layers = [...n.layers, { dyn: kv, v: ABSENT }]; st.set(v.id, n); return this.ok(st, TRUE); }
      const n = cloneObj(o);
      if (n.layers.length === 1 && n.layers[0] instanceof Map) n.layers[0].delete(k);
      else { n.layers = [...n.layers.map((l) => { if (l instanceof Map) { const m = new Map(l); m.delete(k); return m; } return l; })]; n.layers.push(new Map([[k, { v: ABSENT, tomb: true }]])); n.tombs = [...(n.tombs || []), k]; }
      st.set(v.id, n);
      return this.ok(st, TRUE);
    });
  }
  // `k in v` / hasOwn -> boolean value (may be conditional)
  hasProp(v, kIn, st, node, ownOnly) {
    return this.seq(this.strict(v, st), (st, v) => {
      const kv = typeof kIn === "string" ? str(kIn) : this.resolve(kIn, st);
      if (kv.k === "i") return this.seq(this.strict(kv, st), (st, k2) => this.hasProp(v, k2, st, node, ownOnly));
      const k = this.propKey(kv);
      if (v.k === "y") {
        const f = this.fact(v.id, st);
        if (!(f.ty & OBJT)) return ownOnly ? this.ok(st, FALSE) : this.throwErr(st, "TypeError", "in on non-object", node);
        if (k === "@@iterator" && f.ty === T.A) return this.ok(st, TRUE);
        if (k !== null) {
          const hc = "has:" + v.id + ":" + k;
          const s2 = st.clone(), out = [];
          if (this.decide(st, hc, true)) out.push({ st, v: TRUE });
          if (this.decide(s2, hc, false)) { const cid = v.id + "." + k; if (!this.unstable && this.syms.get(cid) && !this.refine(s2, cid, { ty: T.U })) { /* infeasible */ } else { if (!this.unstable && !s2.symProps.has(cid)) { const c = this.child(v.id, k, s2); this.refine(s2, c.id, { ty: T.U }); } out.push({ st: s2, v: FALSE }); } }
          return out;
        }
        // key enumerated from this very object?
        if (kv.k === "y" && this.isKeyOf(kv.id, v.id)) return this.ok(st, TRUE);
        const hc = "has:" + v.id + ":[" + key(kv) + "]";
        const s2 = st.clone(), out = [];
        if (this.decide(st, hc, true)) out.push({ st, v: TRUE });
        if (this.decide(s2, hc, false)) out.push({ st: s2, v: FALSE });
        return out;
      }
      if (v.k === "nat") return this.ok(st, bool(k !== null && this.natives.has(v.name + "." + k)));
      if (v.k !== "o") return this.throwErr(st, "TypeError", "in on primitive", node);
      const o = st.get(v.id);
      if (k === null) {
        const names = [...this.knownKeys(o)];
        const lang = this.langOf(kv, st);
        const dyn = (o.layers || []).some((l) => !(l instanceof Map));
        const inh = ownOnly || (o.proto && o.proto.k === "n") ? [] : PROTO_NAMES;
        const cand = [...names, ...inh].filter((n) => lang.accepts(n));
        for (const l of o.layers || []) if (l.dyn && same(this.resolve(l.dyn, st), kv) && l.v.k !== "x") return this.ok(st, TRUE);
        const D = L.lits(cand);
        return this.seq(this.splitLang(st, kv, D), (st, b) => {
          if (b.v) return this.ok(st, TRUE);
          if (!dyn) return this.ok(st, FALSE);
          return this.ok(st, this.opaque("hasDyn", [v, kv], { ty: T.B }));
        });
      }
      if (o.segs && o.cls === "Array") {
        if (k === "length" || k === "@@iterator") return this.ok(st, TRUE);
        if (/^\d+$/.test(k)) { const n = this.segLen(o.segs); return this.ok(st, n !== null ? bool(+k < n) : this.opaque("hasIdx", [v, num(+k)], { ty: T.B })); }
      }
      const own = this.ownLookup(o, k, st);
      if (own.acc) return this.ok(st, TRUE);
      return this.seq(this.strictA(own.v, st), (st, x) => {
        if (x.k !== "x") return this.ok(st, TRUE);
        if (ownOnly) return this.ok(st, FALSE);
        if (o.ctor !== undefined) { const m = this.classMember(o.ctor, k, st); if (m && m.e) return this.ok(st, TRUE); }
        return this.ok(st, bool(!(o.proto && o.proto.k === "n") && PROTO_NAMES.includes(k)));
      });
    });
  }
  isKeyOf(kid, oid) { const i = this.syms.get(kid); if (!i) return false; if (i.keyOf === oid) return true; return i.copyOf ? this.isKeyOf(i.copyOf, oid) : false; }
  knownKeys(o) {
    const names = new Set();
    const walk = (layers) => { for (const l of layers || []) { if (l instanceof Map) for (const [n, e] of l) { if (!n.startsWith("@@") && !n.startsWith("#")) { if (e.tomb) names.delete(n); else names.add(n); } } else if (l.cond) { walk(l.a); walk(l.b); } } };
    walk(o.layers);
    return names;
  }
  // enumerable own string keys as segs
  ownKeys(v, st, node, all) {
    return this.seq(this.strict(v, st), (st, v) => {
      if (v.k === "u" || v.k === "n") return this.throwErr(st, "TypeError", "Cannot convert undefined or null to object", node);
      if (v.k === "y") {
        const f = this.fact(v.id, st);
        if (f.ty & (T.U | T.N)) {
          const s2 = st.clone(), out = [];
          if (this.refine(s2, v.id, { ty: T.U | T.N })) out.push(...this.throwErr(s2, "TypeError", "Cannot convert undefined or null to object", node));
          if (this.refine(st, v.id, { ty: ANYT & ~(T.U | T.N) })) out.push(...this.ownKeys(v, st, node, all));
          return out;
        }
        if (!(f.ty & (OBJT | T.S))) return this.ok(st, []);
        if (this.opts.unstable) { const k = this.syms.named(v.id + ".{key}", "key of " + this.syms.get(v.id).origin, { ty: T.S }, { rep: true, keyOf: v.id }); return this.ok(st, [{ k: "*", alts: [[one(k)]] }]); }
        const segs = [{ k: "*", alts: [[one(this.keySym(v.id))]] }];
        for (const [pk, pv] of st.symProps) if (pk.startsWith(v.id + ".") && !pk.slice(v.id.length + 1).includes(".")) {
          const n = pk.slice(v.id.length + 1);
          if (n.startsWith("[")) continue;
          const rv = this.resolve(pv, st);
          if (rv.k === "u") continue;
          segs.push(rv.k === "i" ? { k: "alt", c: newCond("k"), a: [one(str(n))], b: [] } : one(str(n)));
        }
        return this.ok(st, segs);
      }
      if (v.k !== "o") return this.ok(st, v.k === "s" && litOf(v) != null ? [...litOf(v)].map((_, i) => one(str(String(i)))) : []);
      const o = st.get(v.id);
      if (o.segs && o.cls === "Array") {
        return this.ok(st, o.segs.every((s) => s.k === "1") ? o.segs.map((_, i) => one(str(String(i)))) : [{ k: "*", alts: [[one(this.syms.named("idx(" + v.id + ")", "index", { ty: T.S, lang: L.reExact("0|[1-9][0-9]*") }, { rep: true }))]] }]);
      }
      const segs = [];
      const seen = new Set();
      const walk = (layers) => {
        const out = [];
        for (const l of layers) {
          if (l instanceof Map) {
            for (const [n, e] of l) {
              if (n.startsWith("@@") || n.startsWith("#")) continue;
              if (e.ne && !all) continue;
              if (seen.has(n)) continue;
              if (e.tomb) continue;
              if (o.tombs && o.tombs.includes(n) && this.ownLookup(o, n, st).v.k === "x") continue;
              seen.add(n);
              const own = e.acc ? { v: U } : this.ownLookup(o, n, st);
              const cond = own.v && own.v.k === "i" ? presence(own.v) : null;
              if (own.v && own.v.k === "x") continue;
              if (cond === null) out.push(one(str(n)));
              else out.push(...presenceSegs(own.v, n));
            }
          } else if (l.spread) {
            const ks = this.keySym(l.spread);
            out.push({ k: "*", alts: [[one(ks)]] });
          } else if (l.dyn) { if (l.v.k !== "x") out.push(one(l.dyn)); }
          else if (l.many) out.push({ k: "*", alts: l.many.map((x) => [one(x.key)]) });
          else if (l.cond) {
            const d = st.conds.get(l.cond);
            if (d !== undefined) out.push(...walk(d ? l.a : l.b));
            else { const save = new Set(seen); const a = walk(l.a); seen.clear(); save.forEach((x) => seen.add(x)); const b = walk(l.b); out.push({ k: "alt", c: l.cond, a, b }); }
          }
        }
        return out;
      };
      segs.push(...walk(o.layers || []));
      return this.ok(st, this.resolveSegs(segs, st));
    });
  }
  // shallow copy used by object spread/rest
  copyObject(v, st, node, omit = []) {
    const res = this.alloc(st, { cls: "Object", layers: [new Map()] }, node, "copy");
    this.spreadInto(res, v, st, node);
    if (omit.length) {
      const n = cloneObj(st.get(res.id));
      n.layers = n.layers.map((l) => { if (l instanceof Map) { const m = new Map(l); omit.forEach((k) => m.delete(k)); return m; } return l; });
      if (n.layers.some((l) => !(l instanceof Map))) { n.layers.push(new Map(omit.map((k) => [k, { v: ABSENT, tomb: true }]))); n.tombs = [...(n.tombs || []), ...omit]; }
      st.set(res.id, n);
    }
    return res;
  }
  spreadInto(target, v, st, node) {
    v = this.resolve(v, st);
    const n = cloneObj(st.get(target.id));
    if (v.k === "y") {
      const f = this.fact(v.id, st);
      if (f.ty & OBJT) {
        n.layers = [...n.layers, { spread: v.id }];
        // overrides written on the symbol
        const ov = new Map();
        for (const [pk, pv] of st.symProps) if (pk.startsWith(v.id + ".")) { const kk = pk.slice(v.id.length + 1); if (!kk.includes(".") && !kk.startsWith("[")) ov.set(kk, { v: replaceOrig(pv, () => this.child(v.id, kk, st)) }); }
        if (ov.size) n.layers.push(ov);
      }
    } else if (v.k === "o") {
      const o = st.get(v.id);
      if (o.segs && o.cls === "Array") { o.segs.forEach((s, i) => { if (s.k === "1") this.putOwn(n, String(i), { v: s.v }); }); }
      else {
        const add = (o.layers || []).map((l) => (l instanceof Map ? new Map([...l].filter(([k, e]) => !e.ne && !k.startsWith("#")).map(([k, e]) => [k, e.acc ? { v: this.opaque("getter", [v, str(k)]) } : { v: e.v, tomb: e.tomb }])) : l));
        const top = n.layers[n.layers.length - 1];
        if (add.length === 1 && add[0] instanceof Map && top instanceof Map) {
          for (const [k, e] of add[0]) {
            if (e.v && e.v.k === "i" && hasAbsent(e.v)) { const cur = top.get(k); top.set(k, { v: replaceAbsent(e.v, cur ? cur.v : ABSENT) }); } else top.set(k, e);
          }
        } else n.layers = [...n.layers, ...add];
        if (o.tombs) n.tombs = [...(n.tombs || []), ...o.tombs];
      }
    } else if (v.k === "i") {
      // conditional object: conditional layers
      const mk = (x) => { const t = { layers: [] }; const tmp = this.alloc(st, { cls: "Object", layers: [new Map()] }, node, "sp" + key(x)); this.spreadInto(tmp, x, st, node); t.layers = st.get(tmp.id).layers; return t.layers; };
      n.layers = [...n.layers, { cond: v.c, a: mk(v.a), b: mk(v.b) }];
    }
    st.set(target.id, n);
  }
}
// ------------------------------------------------------------ helpers
// condition names of fresh joins carry no meaning of their own: number them by first use
function canonKey(k) {
  const m = new Map();
  return k.replace(/\b(?:j|l|ix|dm|dk|k)\d+(?=[?(])/g, (c) => { if (!m.has(c)) m.set(c, "c" + m.size); return m.get(c); });
}
function hasAbsent(v) { return v.k === "x" || (v.k === "i" && (hasAbsent(v.a) || hasAbsent(v.b))); }
function presence(v) { return hasAbsent(v) ? v : null; }
function presenceSegs(v, n) {
  if (v.k === "x") return [];
  if (v.k === "i") {
    if (!hasAbsent(v)) return [one(str(n))];
    return [{ k: "alt", c: v.c, a: presenceSegs(v.a, n), b: presenceSegs(v.b, n) }];
  }
  return [one(str(n))];
}
function replaceAbsent(v, r) {
  if (!v) return r;
  if (v.k === "x") return r;
  if (v.k === "i") return mkIte(v.c, replaceAbsent(v.a, r), replaceAbsent(v.b, r));
  return v;
}
function replaceOrig(v, mk) {
  if (v.k === "orig") return mk();
  if (v.k === "i") return mkIte(v.c, replaceOrig(v.a, mk), replaceOrig(v.b, mk));
  return v;
}
function constToString(v) {
  switch (v.k) {
    case "u": case "x": return "undefined";
    case "n": return "null";
    case "b": return String(v.v);
    case "d": return String(v.v);
    case "s": return v.p.join("");
  }
  return "";
}
function rightQuotient(d, post) {
  const acc = d.trans.map((_, q) => { let s = q; for (let i = 0; i < post.length; i++) s = d.step(s, post.charCodeAt(i)); return d.accept[s]; });
  return L.minimize(new L.DFA(d.trans, acc, d.start));
}
function bindingNames(n) { const out = []; (function w(x) { if (ts.isIdentifier(x)) out.push(x.text); else x.elements.forEach((e) => { if (e.name) w(e.name); }); })(n); return out; }
function hasMod(n, k) { return !!(ts.canHaveModifiers(n) && ts.getModifiers(n) && ts.getModifiers(n).some((m) => m.kind === k)); }
function fnName(n) {
  if (n.name) return n.name.getText();
  const p = n.parent;
  if (p && (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p))) return p.name.getText();
  if (ts.isConstructorDeclaration(n)) return "constructor";
  return "<anonymous>";
}
function annotType(t) {
  const tx = t.getText();
  if (tx === "string") return T.S;
  if (tx === "number") return T.D;
  if (tx === "boolean") return T.B;
  if (tx === "Maybe<string>" || tx === "string | undefined") return T.S | T.U;
  if (tx === "Maybe<number>" || tx === "number | undefined") return T.D | T.U;
  if (tx === "Maybe<boolean>" || tx === "boolean | undefined") return T.B | T.U;
  if (t.kind === SK.TypePredicate) return T.B;
  return 0;
}
function isErrCls(eng, o, st) {
  const b = eng.nativeBase(o, st);
  return /Error$/.test(b);
}
Object.assign(Engine, { Undecided, one, SHORT, PROTO_NAMES, ts, SK, hasAbsent, replaceAbsent, constToString, hasMod, fnName, annotType, isErrCls, rightQuotient });
module.exports = Engine;
require("./interp");
require("./ops");

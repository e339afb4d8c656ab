"use strict";
// Drives the abstract interpreter from the library's public entry points and
// offers the observations the checks are stated in (commands on the wire,
// outcomes of calls, values of fields).
const path = require("path");
const fs = require("fs");
const Engine = require("./engine");
const V = require("./values");
const L = require("./lang");
const { T, U, NULL, TRUE, FALSE, str, num, bool, obj, symv, key, litOf, isConst, segKey, mkStr, partsOf } = V;
const one = Engine.one;

const BASE = { quietFs: true, enqueueOk: true, opaqueSymMethods: true, localBudget: 15000, maxMs: 150000 };

// Loading (parsing and interpreting the modules) is the same for every analysis
// of a tree: engines are reused, reset to the state right after loading.
const pool = new Map();
let inUse = new Set();
function engineFor(all, hooks, use) {
  if (all.load === false) return use(new Engine(all));
  const files = all.files || ["src/ExifTool.ts"];
  const { maxMs, maxSteps, hooks: _h, files: _f, ...rest } = all;
  const k = JSON.stringify([files, Object.entries(rest).sort((a, b) => (a[0] < b[0] ? -1 : 1))]);
  if (all.hooksAtLoad || Object.values(rest).some((v) => typeof v === "function" || (v && typeof v === "object"))) { const e = new Engine(all); use(e); return e.load(...files); }
  const list = pool.get(k) || [];
  pool.set(k, list);
  let e = list.find((x) => !inUse.has(x));
  if (!e) {
    e = new Engine({ ...all, hooks: { recursionLimit: hooks.recursionLimit }, maxMs: 120000 });
    use(e);
    e.load(...files).snapshot();
    list.push(e);
  }
  inUse.add(e);
  use(e.reset(all));
}
function releaseEngines() { inUse = new Set(); }

class H {
  constructor(opts = {}) {
    this.enq = [];
    const hooks = { recursionLimit: (fn, d, args, st) => (args.every((a) => { if (a.k !== "1") return false; const v = this.e.resolve(a.v, st); return v.k !== "i" && (v.k !== "y" || !(this.e.fact(v.id, st).ty & (T.F | T.A | T.O)) || this.e.fact(v.id, st).cls || this.e.syms.get(v.id).cls); }) ? 14 : undefined), ...(opts.hooks || {}) };
    const oe = hooks.onEnqueue;
    hooks.onEnqueue = (task, st, n, bc) => { this.enq.push({ task, st: st.clone(), node: n, bc }); return oe ? oe(task, st, n, bc) : undefined; };
    const all = { ...BASE, ...opts, hooks };
    engineFor(all, hooks, (e) => { this.e = e; });
    this.platform = this.e.platform;
  }
  state() { return this.e.newState(); }
  sym(name, ty, extra = {}) { return this.e.syms.named(name, name, { ty, ...(extra.fact || {}) }, { foreign: true, ...extra }); }
  // caller-owned concrete object / array
  obj(st, props, tag) { return this.e.allocObj(st, null, props, "in:" + tag); }
  // caller-owned object whose leaf properties may change between observations
  vobj(st, props, tag) { const v = this.obj(st, props, tag); const o = { ...st.get(v.id), volatile: tag }; st.set(v.id, o); return v; }
  arr(st, vals, tag) { return this.e.allocArr(st, vals.map(one), null, "in:" + tag); }
  exported(file, name, st) {
    const v = this.e.exported(file, name, st);
    if (!v) { const x = new Error("anchor missing: " + name + " in " + file); x.anchor = true; throw x; }
    return v;
  }
  // call and collect outcomes
  call(f, self, args, st) {
    return this.e.call(f, self, args.map((a) => (a && a.k === "*" ? a : one(a))), st, null);
  }
  // constructed ExifTool instance, one merged state
  instance(st, optsV) {
    const C = this.exported("src/ExifTool.ts", "ExifTool", st);
    let outs = this.e.construct(C, optsV ? [one(optsV)] : [], st, null);
    outs = outs.filter((o) => !o.thr);
    outs = this.e.mergeOuts(outs, 1);
    if (!outs.length) throw new Error("ExifTool constructor always throws");
    return outs[0];
  }
  // allocations made by f are distinct from those of other phases
  phase(tag, f) { this.e.ctx.push(tag); try { return f(); } finally { this.e.ctx.pop(); } }
  method(self, name, st) {
    const r = this.e.getProp(self, name, st, null);
    if (r.length !== 1 || r[0].thr || r[0].v.k === "u") { const x = new Error("anchor missing: method " + name); x.anchor = true; throw x; }
    return r[0].v;
  }
  // outcome of an async call: [{st, ok, v}|{st, err, v}|{st, pending}]
  settle(outs) {
    const res = [];
    for (const o of outs) {
      if (o.thr) { res.push({ st: o.st, kind: "throw", v: o.thr }); continue; }
      for (const x of this.e.strict(o.v, o.st)) {
        const p = x.v.k === "o" ? x.st.get(x.v.id) : null;
        if (p && p.cls === "Promise") res.push({ st: x.st, kind: p.pstate === "ok" ? "ok" : p.pstate === "err" ? "err" : "pending", v: p.pv });
        else res.push({ st: x.st, kind: "ok", v: x.v, sync: true });
      }
    }
    return res;
  }
  api(name, mkArgs, { instOpts, setup } = {}) {
    const st = this.state();
    const iv = instOpts ? instOpts(st, this) : undefined;
    const i = this.instance(st, iv);
    const args = mkArgs(i.st, this);
    if (setup) setup(i.st, this, args, i.v);
    const n0 = this.enq.length;
    const outs = this.call(this.method(i.v, name, i.st), i.v, args, i.st);
    return { self: i.v, args, outs: this.settle(outs), tasks: this.enq.slice(n0) };
  }
  // ---- commands -------------------------------------------------------
  // alternatives of a value with all outer conditionals resolved
  // the states a joined state stands for, or null if there are too many
  unfold(st, cap = 128) {
    const out = [];
    const go = (st) => {
      if (out.length > cap) return;
      let c = null;
      for (const [k, r] of st.restore) if (r && !r.weak && st.conds.get(k) === undefined) { c = k; break; }
      if (c === null) { out.push(st); return; }
      const s2 = st.clone();
      if (this.e.decide(st, c, true)) go(st);
      if (this.e.decide(s2, c, false)) go(s2);
    };
    go(st.clone());
    return out.length > cap ? null : out;
  }
  // judges w; where that fails, judges the states w.st was joined from instead
  refined(rep, w, f) {
    const obs = [], trial = { __proto__: rep, ob: (...a) => { obs.push(a); return a[0]; } };
    f(w, trial);
    if (!obs.some((a) => a[0] === false)) { for (const a of obs) rep.ob(...a); return; }
    let us = null;
    try { us = this.unfold(w.st); } catch (e) { if (!(e instanceof Engine.Undecided)) throw e; }
    if (!us) { for (const a of obs) rep.ob(a[0] === false ? null : a[0], ...a.slice(1)); return; }
    for (const st of us) f({ ...w, st }, rep);
  }
  alts(v, st, cap = 256) {
    const out = [];
    const go = (v, st) => {
      if (out.length > cap) throw new Engine.Undecided("too many alternatives");
      v = this.e.resolve(v, st);
      if (v.k === "i") {
        const s2 = st.clone();
        if (this.e.decide(st, v.c, true)) go(v.a, st);
        if (this.e.decide(s2, v.c, false)) go(v.b, s2);
        return;
      }
      out.push({ st, v });
    };
    go(v, st.clone());
    return out;
  }
  // command of a task as lists of argument lines: [{st, lines:[{p:[parts], star}], end}]
  wires(t, cap = 4096) {
    const res = [];
    for (const c0 of this.e.getProp(t.task, "command", t.st.clone(), null)) {
      for (const c of this.alts(c0.v, c0.st)) {
        const parts = partsOf(c.v);
        if (!parts) { res.push({ st: c.st, task: t, bad: "command is not a string: " + this.e.show(c.v, c.st) }); continue; }
        for (const w of this.lines(parts, c.st)) { res.push({ ...w, task: t }); if (res.length > cap) throw new Engine.Undecided("too many command alternatives"); }
      }
    }
    return res;
  }
  lines(parts, st) {
    // accumulate alternatives: [{st, done:[line], cur:[parts]}]
    let acc = [{ st: st.clone(), done: [], cur: [] }];
    const addPart = (a, p) => {
      if (typeof p !== "string") { a.cur = [...a.cur, p]; return; }
      const xs = p.split("\n");
      a.cur = [...a.cur, xs[0]];
      for (let i = 1; i < xs.length; i++) { a.done = [...a.done, { p: clean(a.cur) }]; a.cur = [xs[i]]; }
    };
    const addSegs = (accs, segs, sep) => {
      // elements separated by sep; "first" tracks whether a separator is due
      let cur = accs.map((a) => ({ ...a, first: true }));
      const walk = (cur, segs, star) => {
        for (const s of segs) {
          if (s.k === "1") {
            cur = cur.flatMap((a) => this.alts(s.v, a.st).map(({ st, v }) => {
              const b = { ...a, st };
              if (star) { b.done = [...b.done, ...star(b, v)]; return b; }
              if (!b.first) addPart(b, sep);
              b.first = false;
              const ps = partsOf(v) || [{ val: v }];
              ps.forEach((p) => addPart(b, p));
              return b;
            }));
          } else if (s.k === "alt") {
            cur = cur.flatMap((a) => {
              const s2 = a.st.clone(), r = [];
              if (this.e.decide(a.st, s.c, true)) r.push(...walk([{ ...a }], s.a, star));
              if (this.e.decide(s2, s.c, false)) r.push(...walk([{ ...a, st: s2 }], s.b, star));
              return r;
            });
          } else {
            // repeated elements: record each alternative element as a starred line
            cur = cur.map((a) => {
              if (!a.first) addPart(a, sep);
              const els = [];
              for (const alt of s.alts) this.starElems(alt, a.st, els);
              const b = { ...a, done: [...a.done], cur: [...a.cur] };
              // a starred group ends its own lines
              if (b.cur.some((p) => p !== "")) { b.done.push({ p: clean(b.cur), glued: true }); }
              b.cur = [];
              for (const x of els) b.done.push({ p: x.p, star: true, st: x.st });
              b.first = true;
              return b;
            });
          }
          if (cur.length > 4096) throw new Engine.Undecided("too many command alternatives");
        }
        return cur;
      };
      return walk(cur, segs, null);
    };
    for (const p of parts) {
      if (p && p.join && p.sep === "\n") acc = addSegs(acc, p.join, "\n");
      else if (p && p.join && p.sep.includes("\n")) acc = acc.map((a) => ({ ...a, bad: "separator " + JSON.stringify(p.sep) }));
      else acc.forEach((a) => addPart(a, p));
    }
    return acc.map((a) => ({ st: a.st, lines: a.done, tail: clean(a.cur), bad: a.bad }));
  }
  starElems(segs, st, out) {
    for (const s of segs) {
      if (s.k === "1") for (const { st: s2, v } of this.alts(s.v, st)) out.push({ p: clean(partsOf(v) || [{ val: v }]), st: s2 });
      else if (s.k === "*") s.alts.forEach((a) => this.starElems(a, st, out));
      else {
        const s1 = st.clone(), s2 = st.clone();
        if (this.e.decide(s1, s.c, true)) this.starElems(s.a, s1, out);
        if (this.e.decide(s2, s.c, false)) this.starElems(s.b, s2, out);
      }
    }
  }
  partLang(p, st) {
    if (typeof p === "string") return L.lit(p);
    if (p.sym !== undefined) return this.e.langOf(symv(p.sym), st);
    if (p.join) return this.e.joinLang(p, st);
    return L.ALL;
  }
  lineLang(line, st) { return this.e.langOf(mkStr(line.p), line.st || st); }
  showLine(line) { return line.p.map((p) => (typeof p === "string" ? p : p.sym !== undefined ? "<" + this.origin(p.sym) + ">" : p.join ? "<join>" : "<?>")).join("") + (line.star ? " (repeated)" : ""); }
  origin(id) { const i = this.e.syms.get(id); return i ? (typeof i.origin === "string" ? i.origin : id) : id; }
  lit(line) { return line.p.every((p) => typeof p === "string") ? line.p.join("") : null; }
  imprecise(p, st) { // does a part's value rest on an over-approximation?
    const v = mkStr([p]);
    for (const r of this.e.roots(v)) if (st.impr.has(r)) return true;
    return false;
  }
  opaqueIn(p) {
    const seen = new Set();
    const go = (v) => {
      if (v.k === "y") {
        if (seen.has(v.id)) return false; seen.add(v.id);
        const i = this.e.syms.get(v.id);
        if (!i || !i.derive) return false;
        if (i.derive.op.startsWith("?")) return true;
        return i.derive.args.some((a) => go(a));
      }
      if (v.k === "s") return v.p.some((q) => (q.sym !== undefined ? go(symv(q.sym)) : q.join ? true : false));
      if (v.k === "i") return go(v.a) || go(v.b);
      return false;
    };
    return go(mkStr([p]));
  }
  taskName(t) {
    const r = this.e.resolve(t.task, t.st);
    const o = r.k === "o" ? t.st.get(r.id) : null;
    return o && o.ctor !== undefined ? t.st.get(o.ctor).name || "task" : "task";
  }
}
function clean(ps) {
  const v = mkStr(ps);
  return v.k === "y" ? [{ sym: v.id }] : v.p;
}
module.exports = { H, releaseEngines, Engine, V, L, T, U, NULL, TRUE, FALSE, str, num, bool, obj, symv, key, litOf, isConst, segKey, mkStr, partsOf, one };

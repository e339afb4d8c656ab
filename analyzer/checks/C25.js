"use strict";
const { H, T, U, V, litOf, one, key } = require("../lib/harness");
const S = V.str;
module.exports = {
  level: "other", floor: 150,
  explain: "Abstract interpretation of both disposal methods, end() and closeChildProcesses() under an event-loop model: the pool's shutdown promise succeeds or fails before the timeout, after it, at the same time or never, each further shutdown request has its own outcome, and due timers run in order; every pool call, timer and promise on each history is recorded.",
  rule: "sync: one graceful end before returning, no throw, no unhandled rejection, forceful cleanup requested exactly when the configured timeout passes first, no timer left once the end has settled; async: additionally the call settles with the outcome of the shutdown (of the forceful one after a timeout); disposing an ended instance makes no pool call and starts no timer",
  run(rep, { tier }) {
    const SYNC = "Symbol(dispose)";
    const mk = (plan, opts) => {
      // plan: outcomes of successive pool.end() calls: {at, how}
      let h;
      const log = [];
      const hooks = {
        recursionLimit: () => 20,
        onEnd(a, st, n, e, bc) {
          const k = st.events().filter((x) => x.name === "bc.end").length;
          const g = a.length ? e.resolve(e.argAt(a, 0, st), st) : V.TRUE;
          st.event({ name: "bc.end", gracefully: g, node: n, tkey: k + key(g), now: st.extra.now || 0 });
          st.set(bc.id, (() => { const o = st.get(bc.id), m = new Map(o.layers[0]); m.set("ended", { v: V.TRUE }); return { ...o, layers: [m, ...o.layers.slice(1)] }; })());
          const p = plan[Math.min(k, plan.length - 1)];
          const err = e.syms.named("ENDERR" + k, "shutdown failure " + (k + 1), { ty: T.O, tr: true }, { isError: true, childBase: (x) => (x === "message" || x === "stack" ? { ty: T.S, lang: require("../lib/lang").lit(p.msg || "EPIPE: write failed") } : {}), childConst: (x) => (x === "message" ? S(p.msg || "EPIPE: write failed") : undefined) });
          const pr = e.mkPromise(st, "pending", U, n, "pool" + k);
          if (p.at === "now") st.set(pr.id, { ...st.get(pr.id), pstate: p.how, pv: p.how === "err" ? err : U });
          else if (p.at !== Infinity) {
            const cb = e.alloc(st, { cls: "Function", layers: [new Map()], native: (t, x, s) => { s.event({ name: "pool.settled", k, how: p.how, tkey: String(k) }); return e.settlePromise(pr.id, s, p.how, p.how === "err" ? err : U, n).map((s) => ({ st: s, v: U })); } }, n, "poolcb" + k);
            st.timers = [...st.timers, { id: cb.id, cb, args: [], ms: V.num(p.at), pool: true, node: n }];
            e.sortTimers(st);
          }
          return [{ st, v: e.alloc(st, { cls: "Deferred", layers: [new Map([["promise", { v: pr }]])] }, n, "deferred" + k) }];
        },
        onClose(a, st, n, e) {
          const g = a.length ? e.resolve(e.argAt(a, 0, st), st) : V.TRUE;
          st.event({ name: "bc.close", gracefully: g, node: n, tkey: key(g), now: st.extra.now || 0 });
          if (opts && opts.closeThrows) return [{ st, thr: e.allocErr(st, "Error", S("close failed"), n, "cf") }];
          return [{ st, v: e.mkPromise(st, "ok", U, n, "close") }];
        },
        onHang(st) { log.push(st); },
      };
      h = new H({ root: rep.repo, loop: true, hooks });
      h.hung = log;
      return h;
    };
    const setEnded = (h, st, i, v) => { const bcv = h.e.resolve(h.method(i.v, "batchCluster", st), st), o = st.get(bcv.id), m = new Map(o.layers[0]); m.set("ended", { v: V.bool(v) }); st.set(bcv.id, { ...o, layers: [m, ...o.layers.slice(1)] }); };
    // run the loop until nothing is due
    const drain = (h, states) => {
      let cur = states;
      for (let d = 0; d < 24; d++) {
        let any = false;
        const nx = [];
        for (const st of cur) {
          const t = st.timers[0];
          if (!t) { nx.push(st); continue; }
          any = true;
          st.timers = st.timers.slice(1);
          st.extra = { ...st.extra, now: Math.max(st.extra.now || 0, t.due === undefined || t.due === Infinity ? 0 : t.due) };
          st.event({ name: t.pool ? "pool" : "timer", at: st.extra.now, tkey: t.pool ? "p" : "t" + st.extra.now });
          for (const o of h.e.call(t.cb, U, t.args || [], st, null)) {
            if (o.thr) o.st.event({ name: "uncaught", v: o.thr, tkey: "" });
            nx.push(o.st);
          }
        }
        cur = nx;
        if (!any) break;
      }
      return cur;
    };
    const unhandled = (h, st, except) => { const out = []; for (const [id, o] of st.heap) if (o && o.cls === "Promise" && o.pstate === "err" && !o.handled && !except.includes(id)) out.push(id); return out; };
    const dispose = (h, which, st0, i) => {
      const n0 = i.st.events().length;
      const f = h.e.getProp(i.v, V.jssym ? V.jssym(which) : which, i.st, null)[0].v;
      const res = [];
      for (const o of h.call(f, i.v, [], i.st)) res.push({ ...o, ev: o.st.events().slice(n0), n0 });
      return res;
    };
    const force = (ev) => ev.filter((x) => (x.name === "bc.end" || x.name === "bc.close") && x.gracefully.k === "b" && x.gracefully.v === false);
    const grace = (ev) => ev.filter((x) => x.name === "bc.end" && x.gracefully.k === "b" && x.gracefully.v === true);
    const key1 = (o) => Object.entries(o).map(([k, v]) => k + "=" + v).join(" ");
    const D = [["default", undefined], ["0", 0], ["250", 250], ["20000", 20000]];
    const outcomes = (ms) => [
      ["succeeds at once", { at: "now", how: "ok" }, false], ["fails at once", { at: "now", how: "err" }, false],
      ...(ms > 1 ? [["succeeds in time", { at: ms / 2, how: "ok" }, false], ["fails in time", { at: ms / 2, how: "err" }, false]] : []),
      ["succeeds late", { at: ms * 3 + 10, how: "ok" }, true], ["fails late", { at: ms * 3 + 10, how: "err" }, true], ["never ends", { at: Infinity, how: "ok" }, true],
    ];
    const lbl = (x) => x.name + (x.gracefully ? "(" + (x.gracefully.v === true ? "graceful" : x.gracefully.v === false ? "forceful" : "?") + ")" : "");
    for (const kind of ["sync", "async"]) {
      const optName = kind === "sync" ? "disposalTimeoutMs" : "asyncDisposalTimeoutMs", dflt = kind === "sync" ? 1000 : 5000;
      for (const [dn, dv] of D) {
        const ms = dv === undefined ? dflt : dv;
        for (const [on, first, late] of outcomes(ms)) {
          const seconds = !late ? [["", { at: "now", how: "ok" }]] : [["; forceful end succeeds", { at: "now", how: "ok" }], ["; forceful end fails", { at: "now", how: "err" }], ["; forceful end succeeds later", { at: ms * 5 + 20, how: "ok" }], ["; forceful end fails later", { at: ms * 5 + 20, how: "err" }], ...(kind === "sync" ? [["; forceful cleanup throws", { at: "now", how: "ok", closeThrows: true }]] : [])];
          for (const [sn, second] of seconds) {
            const name = kind + " disposal, timeout " + dn + ", shutdown " + on + sn;
            rep.scenario(name, () => {
              const h = mk([first, second], { closeThrows: second.closeThrows });
              const st = h.state();
              // the other timeout is set to something else, so that mixing them up shows
              const o = { [kind === "sync" ? "asyncDisposalTimeoutMs" : "disposalTimeoutMs"]: V.num(777777) };
              if (dv !== undefined) o[optName] = V.num(dv);
              const i = h.instance(st, h.obj(st, o, "opts"));
              setEnded(h, i.st, i, false);
              const n0 = i.st.events().length;
              const f = h.e.getProp(i.v, kind === "sync" ? "@@dispose" : "@@asyncDispose", i.st, null);
              const fv = f.length === 1 && !f[0].thr ? h.e.resolve(f[0].v, i.st) : U;
              if (fv.k === "u") { const x = new Error("anchor missing: " + kind + " disposal method"); x.anchor = true; throw x; }
              let explored = 0;
              for (const q of h.call(fv, i.v, [], i.st)) {
                explored++;
                rep.count("histories");
                const ev0 = q.st.events().slice(n0);
                const ob = (r, m) => rep.ob(r, name, m + (r === false ? " [" + q.st.events().slice(n0).map(lbl).join(", ") + "]" : ""));
                if (kind === "sync") {
                  ob(!q.thr, q.thr ? "disposal throws " + h.e.show(q.thr, q.st) : "does not throw");
                  if (q.thr) continue;
                  ob(grace(ev0).length === 1, grace(ev0).length === 1 ? "a graceful end is requested before returning" : grace(ev0).length + " graceful ends are requested before disposal returns");
                  ob(!force(ev0).length, force(ev0).length ? "forceful cleanup is requested at once" : "no forceful cleanup at once");
                }
                if (kind === "sync") for (const s of drain(h, [q.st])) {
                  const ev = s.events().slice(n0);
                  const tm = ev.filter((x) => x.name === "setTimeout");
                  const fr = force(ev);
                  const bad = ev.find((x) => x.name === "uncaught");
                  ob(!bad, bad ? "the timeout handler throws" : "nothing is thrown later");
                  if (late) {
                    ob(fr.length >= 1, fr.length ? "forceful cleanup requested after the timeout" : "forceful cleanup is never requested although the shutdown takes too long");
                    if (fr.length) ob(fr[0].now === ms, fr[0].now === ms ? "when the timeout passes" : "forceful cleanup is requested after " + fr[0].now + " ms instead of " + ms);
                  } else {
                    ob(!fr.length, fr.length ? "forceful cleanup is requested although the shutdown had settled" : "no forceful cleanup");
                    // a timer that outlives the shutdown keeps the process alive
                    const fired = ev.filter((x) => x.name === "timer").length;
                    ob(!fired, fired ? "the timer is still running after the shutdown settled" : "the timer is cancelled");
                  }
                  const un = unhandled(h, s, []);
                  ob(!un.length, un.length ? "a failed shutdown surfaces as an unhandled rejection" : "no unhandled rejection");
                  void tm;
                } else {
                  const sets = q.thr ? [{ st: q.st, thr: q.thr }] : h.e.awaitV(q.v, q.st, null);
                  if (!sets.length) { ob(first.at === Infinity && second.at === Infinity ? true : false, "the disposal never settles"); continue; }
                  for (const s of sets) {
                    const ev = s.st.events().slice(n0), fr = force(ev);
                    ob(grace(ev).length === 1, grace(ev).length === 1 ? "one graceful end" : grace(ev).length + " graceful ends are requested");
                    const left = s.st.timers.filter((t) => !t.pool);
                    ob(!left.length, left.length ? "the timeout timer is still running after the disposal settled" : "no timer left");
                    if (late) {
                      ob(fr.some((x) => x.name === "bc.end"), fr.some((x) => x.name === "bc.end") ? "a forceful end is requested" : "no forceful end is requested although the shutdown takes too long");
                      if (fr.length) ob(fr[0].now === ms, fr[0].now === ms ? "when the timeout passes" : "the forceful end is requested after " + fr[0].now + " ms instead of " + ms);
                      if (fr.length) ob((second.how === "err") === !!s.thr, second.how === "err" ? (s.thr ? "a failing forceful end is reported" : "the disposal resolves although the forceful end failed") : s.thr ? "the disposal rejects although the forceful end succeeded" : "resolves after the forceful end");
                    } else {
                      ob(!fr.length, fr.length ? "a forceful end is requested although the shutdown had settled" : "no forceful end");
                      ob((first.how === "err") === !!s.thr, first.how === "err" ? (s.thr ? "a failing shutdown is reported" : "the disposal resolves although the shutdown failed") : s.thr ? "the disposal rejects although the shutdown succeeded" : "resolves");
                      if (first.how === "err" && s.thr) { const v = h.e.resolve(s.thr, s.st); const from = [...h.e.roots(v)].some((x) => /^ENDERR0/.test(x)); ob(from ? true : v.k === "u" || v.k === "n" ? false : null, "with the shutdown's error"); }
                    }
                    for (const s2 of drain(h, [s.st])) { const un = unhandled(h, s2, [h.e.resolve(q.v || U, s2).id]); ob(!un.length, un.length ? "a rejection is left unhandled" : "no unhandled rejection"); }
                  }
                }
              }
              rep.ob(explored ? true : null, name, "explored");
              rep.addEngine(h.e);
            });
          }
        }
      }
      // an ended instance
      rep.scenario(kind + " disposal of an ended instance", () => {
        const name = kind + " disposal of an ended instance";
        const h = mk([{ at: "now", how: "ok" }]);
        const st = h.state(), i = h.instance(st, undefined);
        setEnded(h, i.st, i, true);
        const n0 = i.st.events().length;
        for (const q of h.call(h.e.getProp(i.v, kind === "sync" ? "@@dispose" : "@@asyncDispose", i.st, null)[0].v, i.v, [], i.st)) {
          const sets = q.thr || kind === "sync" ? [q] : h.e.awaitV(q.v, q.st, null);
          for (const s of sets) {
            const ev = s.st.events().slice(n0).filter((x) => /^bc\.|setTimeout|setInterval/.test(x.name));
            rep.ob(!ev.length, name, ev.length ? "an ended instance is " + ev.map(lbl).join(", ") + " again" : "no pool call and no timer");
            rep.ob(!s.thr, name, s.thr ? "disposing an ended instance fails" : "succeeds");
          }
        }
      });
      // twice
      rep.scenario(kind + " disposal twice", () => {
        const name = kind + " disposal twice";
        const h = mk([{ at: 1, how: "ok" }, { at: 1, how: "ok" }]);
        const st = h.state(), i = h.instance(st, undefined);
        setEnded(h, i.st, i, false);
        const m = (s) => h.e.getProp(i.v, kind === "sync" ? "@@dispose" : "@@asyncDispose", s, null)[0].v;
        const n0 = i.st.events().length;
        for (const q of h.call(m(i.st), i.v, [], i.st)) if (!q.thr) for (const r of h.call(m(q.st), i.v, [], q.st)) {
          const n = r.st.events().slice(n0).filter((x) => x.name === "bc.end").length;
          rep.ob(!r.thr && n === 1, name, n === 1 ? "one shutdown" : n + " shutdowns are requested");
        }
      });
    }
    // end() and closeChildProcesses() pass the request on and report the outcome
    for (const [what, arg, want] of [["end()", [], true], ["end(true)", [V.TRUE], true], ["end(false)", [V.FALSE], false]]) for (const how of ["ok", "err"]) for (const at of ["now", 40]) {
      const name = what + ", shutdown " + (how === "ok" ? "succeeds" : "fails") + (at === "now" ? "" : " later");
      rep.scenario(name, () => {
        const h = mk([{ at, how }]), st = h.state(), i = h.instance(st, undefined), n0 = i.st.events().length;
        setEnded(h, i.st, i, false);
        for (const q of h.call(h.method(i.v, "end", i.st), i.v, arg, i.st)) for (const s of q.thr ? [q] : h.e.awaitV(q.v, q.st, null)) {
          const ev = s.st.events().slice(n0).filter((x) => x.name === "bc.end");
          const okk = ev.length === 1 && ev[0].gracefully.k === "b" && ev[0].gracefully.v === want;
          rep.ob(okk, name, okk ? "passed on" : "the pool is asked " + (ev.map(lbl).join(", ") || "nothing"));
          rep.ob((how === "err") === !!s.thr, name, how === "err" ? (s.thr ? "the failure is reported" : "resolves although the shutdown failed") : s.thr ? "rejects although the shutdown succeeded" : "resolves when the pool has ended");
          if (at !== "now") rep.ob(s.st.events().some((x) => x.name === "pool.settled"), name, s.st.events().some((x) => x.name === "pool.settled") ? "not before the pool has ended" : "resolves before the pool has ended");
          const e2 = h.e.getProp(i.v, "ended", s.st, null)[0]; const v = e2 && !e2.thr && h.e.resolve(e2.v, e2.st);
          rep.ob(v && v.k === "b" && v.v === true ? true : v && v.k === "b" ? false : null, name, "reported as ended");
        }
        rep.addEngine(h.e);
      });
    }
    for (const [what, arg, want] of [["closeChildProcesses()", [], true], ["closeChildProcesses(false)", [V.FALSE], false]]) rep.scenario(what, () => {
      const h = mk([{ at: "now", how: "ok" }]), st = h.state(), i = h.instance(st, undefined), n0 = i.st.events().length;
      setEnded(h, i.st, i, false);
      for (const q of h.call(h.method(i.v, "closeChildProcesses", i.st), i.v, arg, i.st)) {
        const ev = q.st.events().slice(n0).filter((x) => /^bc\./.test(x.name));
        const okk = ev.length === 1 && ev[0].name === "bc.close" && ev[0].gracefully.v === want;
        rep.ob(okk, what, okk ? "passed on" : "the pool is asked " + (ev.map(lbl).join(", ") || "nothing"));
      }
    });
  },
};

"use strict";
const { H, T, U, V, L, litOf, one } = require("../lib/harness");
const S = V.str, N = V.num, IDX = "src/ExifTool.ts";
// observers: how a caller notices the value of a setting
const hm = (s) => { const m = /^(-)?(\d\d):(\d\d)$/.exec(s); return (m[1] ? -1 : 1) * (60 * m[2] + +m[3]); };
const ARCHAIC = ["-10:30", "-04:30", "-02:30", "-01:00"].map(hm);
const BASE_OFFS = [-720, -630, -600, -570, -270, -210, -150, -1, 0, 60, 330, 345, 480, 481, 840, 1200];
const OBS = [
  ...BASE_OFFS.map((n) => ["validTzOffsetMinutes", n]),
  ...[-720, -630, -270, 0, 330].map((n) => ["offsetMinutesToZoneName", n]),
  ...[-725, -712, -625, -268, 10, 20, 28, 32, 443, 465, 481, 900].map((n) => ["inferLikelyOffsetMinutes", n]),
  ...["-10:30", "-12:00", "UTC-10:30", "+05:30"].map((s) => ["extractZone", s]),
  ["extractZone", "2020:01:02 03:04:05 ZZT"], ["extractZone", "2020:01:02 03:04:05 CST"], ["extractZone", "2020:01:02 03:04:05 JST"],
];
// settings and values a caller may give them
const VALS = {
  allowArchaicTimezoneOffsets: (h, st) => [V.FALSE, V.TRUE],
  allowBakerIslandTime: (h, st) => [V.FALSE, V.TRUE],
  maxValidOffsetMinutes: (h, st) => [N(30), N(15), N(5), N(0)],
  tzAbbreviationOffsets: (h, st) => [null, h.obj(st, { ZZT: N(330), CST: N(-360) }, "tzA"), h.obj(st, { ZZT: N(-360), JST: N(480) }, "tzB")],
};
module.exports = {
  level: "other", floor: 400,
  explain: "Abstract (here mostly constant) evaluation of histories of setting changes and observing calls: every ordered pair of values of each setting, warm and cold caches, changed by assignment, by reset() of the setting and by Settings.reset(), with caller listeners that do nothing, throw, change a setting back or observe during the notification. The oracle is the same observer evaluated in a fresh program with the same settings and no history.",
  rule: "after any change an observer's answer equals the history-free answer under the current settings; a listener is called exactly once with (old, new) when the value changed, not at all when it did not or after it was removed; reset gives every setting its default; a changed logger is the one instances without their own and the read tasks use",
  run(rep, { tier }) {
    let h;
    let onLog = null;
    const hooks = { onSetLogger(v, st) { if (onLog) onLog(v, st); }, onUnmodelled(nm, thisV, a, st, n) { return cb ? cb(nm, a, st, n) : null; } };
    let cb = null;
    const fresh = () => { h = new H({ root: rep.repo, files: [IDX, "src/Settings.ts"], luxon: true, fsNoFail: true, hooks, maxMs: 20000 }); rep.addEngine(h.e); return h.state(); };
    const setting = (st, k) => { const g = h.e.getProp(h.exported(IDX, "Settings", st), k, st, null); if (g.length !== 1 || g[0].thr || g[0].v.k !== "o") { const x = new Error("anchor missing: Settings." + k); x.anchor = true; throw x; } return g[0].v; };
    const set = (st, k, v) => { const r = h.e.setProp(setting(st, k), "value", v, st, null); return r.length === 1 ? r[0] : null; };
    const val = (st, k) => { const g = h.e.getProp(setting(st, k), "value", st.clone(), null); return g.length === 1 && !g[0].thr ? h.e.resolve(g[0].v, g[0].st) : null; };
    const invoke = (st, o, m) => { const r = h.call(h.method(o, m, st), o, [], st); return r.length === 1 ? r[0] : null; };
    // answer of an observer as text, null when not decided
    const key = (v, st, d = 0) => {
      v = h.e.resolve(v, st);
      if (V.isConst(v)) return V.key(v);
      if (v.k === "o" && d < 3) {
        const o = st.get(v.id), out = [];
        for (const l of o.layers || []) { if (!(l instanceof Map)) return null; for (const [k, c] of l) { if (c.v === undefined) return null; const x = key(c.v, st, d + 1); if (x === null) return null; out.push(k + ":" + x); } }
        return "{" + out.sort().join(",") + "}";
      }
      return null;
    };
    const obs = (st, [fn, a]) => {
      const r = h.call(h.exported(IDX, fn, st), U, [typeof a === "number" ? N(a) : S(a)], st);
      if (!r.length) return { st, a: null };
      const ks = r.map((o) => (o.thr || o.st.impr.size ? null : key(o.v, o.st)));
      const same = ks.every((k) => k !== null && k === ks[0]);
      return { st: r.length === 1 ? r[0].st : st, a: same ? ks[0] : null };
    };
    const MULTI = (cfg) => JSON.stringify(cfg);
    const oracle = new Map();
    // history-free answers under a configuration (index of the value of each setting)
    const truth = (cfg) => {
      if (oracle.has(MULTI(cfg))) return oracle.get(MULTI(cfg));
      const keep = h, m = [];
      let st = fresh();
      for (const k of Object.keys(cfg)) if (cfg[k]) { const r = set(st, k, VALS[k](h, st)[cfg[k]]); if (!r || r.thr) { st = null; break; } st = r.st; }
      for (const o of OBS) m.push(st ? obs(st.clone(), o).a : null);
      h = keep; oracle.set(MULTI(cfg), m); return m;
    };
    const check = (name, st, cfg, sub = OBS.map((_, i) => i)) => {
      const t = truth(cfg);
      for (const i of sub) {
        const r = obs(st, OBS[i]);
        rep.ob(r.a === null || t[i] === null ? null : r.a === t[i], name, OBS[i][0] + "(" + JSON.stringify(OBS[i][1]) + ") is " + r.a + (r.a !== t[i] ? "; under the same settings without that history it is " + t[i] : ""));
        st = r.st;
      }
      return st;
    };
    const warm = (st, sub) => { for (const i of sub) st = obs(st, OBS[i]).st; return st; };
    const ALL = OBS.map((_, i) => i);
    const rel = { allowArchaicTimezoneOffsets: [0, 1, 4, 8, 16, 17, 18, 21, 23, 24, 33, 34, 35], allowBakerIslandTime: [0, 1, 16, 21, 22, 23, 33, 34], maxValidOffsetMinutes: [21, 22, 23, 25, 26, 27, 28, 29, 30, 31], tzAbbreviationOffsets: [37, 38, 39] };
    const TZ = Object.keys(VALS);

    // 0. settings mean what they say (documented facts)
    rep.scenario("documented meaning", () => {
      const st = fresh(), t0 = truth({}), ta = truth({ allowArchaicTimezoneOffsets: 1 }), tb = truth({ allowBakerIslandTime: 1 }), t15 = truth({ maxValidOffsetMinutes: 1 }), t5 = truth({ maxValidOffsetMinutes: 2 });
      const ix = (fn, a) => OBS.findIndex((o) => o[0] === fn && o[1] === a);
      const fact = (t, fn, a, want, what) => { const g = t[ix(fn, a)]; rep.ob(g === null ? null : g === V.key(want), "documented meaning", fn + "(" + a + ") " + what + " is " + g); };
      for (const [t, w] of [[t0, "by default"], [tb, "with Baker Island time"]]) { fact(t, "validTzOffsetMinutes", -630, V.FALSE, w); fact(t, "validTzOffsetMinutes", -270, V.FALSE, w); }
      for (const [t, w] of [[t0, "by default"], [ta, "with archaic offsets"]]) fact(t, "validTzOffsetMinutes", -720, V.FALSE, w);
      fact(ta, "validTzOffsetMinutes", -630, V.TRUE, "with archaic offsets"); fact(ta, "validTzOffsetMinutes", -270, V.TRUE, "with archaic offsets");
      fact(ta, "offsetMinutesToZoneName", -630, S("UTC-10:30"), "with archaic offsets"); fact(ta, "inferLikelyOffsetMinutes", -625, N(-630), "with archaic offsets");
      fact(tb, "validTzOffsetMinutes", -720, V.TRUE, "with Baker Island time"); fact(tb, "inferLikelyOffsetMinutes", -725, N(-720), "with Baker Island time");
      for (const t of [t0, ta, tb, t15]) for (const n of [0, 330, 345, 480]) fact(t, "validTzOffsetMinutes", n, V.TRUE, "always");
      for (const t of [t0, ta, tb, t15]) for (const n of [-1, 481, 1200]) fact(t, "validTzOffsetMinutes", n, V.FALSE, "always");
      const tz = (cfg, t, want, what) => { const g = truth(cfg)[ix("extractZone", "2020:01:02 03:04:05 " + t)]; rep.ob(g === null ? null : want === null ? g === V.key(U) : g.includes('zone:' + V.key(S(want))), "documented meaning", t + " " + what + " is " + g); };
      tz({}, "ZZT", null, "by default"); tz({}, "JST", "UTC+9", "by default"); tz({}, "CST", null, "by default");
      tz({ tzAbbreviationOffsets: 1 }, "ZZT", "UTC+5:30", "when the caller defines it"); tz({ tzAbbreviationOffsets: 1 }, "CST", "UTC-6", "when the caller defines it"); tz({ tzAbbreviationOffsets: 2 }, "JST", "UTC+8", "when the caller redefines it"); tz({ tzAbbreviationOffsets: 2 }, "ZZT", "UTC-6", "when the caller defines it");
      fact(t0, "inferLikelyOffsetMinutes", 443, N(420), "by default"); fact(t15, "inferLikelyOffsetMinutes", 443, U, "within 15 minutes"); fact(t5, "inferLikelyOffsetMinutes", 10, U, "within 5 minutes"); fact(t0, "inferLikelyOffsetMinutes", 10, N(0), "by default"); fact(t15, "inferLikelyOffsetMinutes", 10, N(0), "within 15 minutes");
    });

    // 1. histories
    const ways = {
      assign: (st, k, v) => set(st, k, v),
    };
    for (const k of TZ) {
      fresh(); const n = VALS[k](h, h.state()).length;
      for (let a = 0; a < n; a++) for (let b = 0; b < n; b++) for (const w of [[], rel[k].slice(0, 1), rel[k]]) {
        const cfgB = b ? { [k]: b } : {};
        if (a === b && w.length) continue;
        rep.scenario(k + " " + a + "→" + b + (w.length ? " after " + w.length + " calls" : ""), () => {
          const name = k + " from value " + a + " to value " + b + (w.length ? " after answering under the old one" : "");
          // by assignment
          for (const how of b === 0 ? ["assigned", "reset()", "Settings.reset()"] : ["assigned"]) {
            let st = fresh();
            const vs = VALS[k](h, st), dflt = val(st, k);
            const v = (i) => (i === 0 ? dflt : vs[i]);
            let r = a ? set(st, k, v(a)) : { st };
            if (!r || r.thr) { rep.ob(null, name, "first change not evaluated"); continue; }
            st = warm(r.st, w);
            if (how === "assigned") r = set(st, k, v(b));
            else if (how === "reset()") r = invoke(st, setting(st, k), "reset");
            else r = invoke(st, h.exported(IDX, "Settings", st), "reset");
            if (!r || r.thr) { rep.ob(r && r.thr && !r.st.impr.size ? false : null, name, "change (" + how + ") " + (r ? "throws" : "not evaluated")); continue; }
            check(name + ", " + how, r.st, cfgB, rel[k]);
          }
        });
      }
    }
    // two settings changed in either order, with calls between, and back again
    const pairs = [["allowArchaicTimezoneOffsets", "allowBakerIslandTime"], ["allowBakerIslandTime", "allowArchaicTimezoneOffsets"], ["allowArchaicTimezoneOffsets", "maxValidOffsetMinutes"], ["maxValidOffsetMinutes", "allowBakerIslandTime"]];
    const SUB = [0, 1, 4, 16, 17, 21, 22, 23, 24, 28, 29];
    for (const [p, q] of pairs) rep.scenario(p + "," + q, () => {
      let st = fresh(), r;
      const step = (what, f, cfg) => { r = st && f(st); if (!r || r.thr) { rep.ob(null, what, "not evaluated"); st = null; return; } st = check(what, r.st, cfg, SUB); };
      step(p + " on", (st) => set(warm(st, SUB), p, VALS[p](h, st)[1]), { [p]: 1 });
      step("then " + q + " on", (st) => set(st, q, VALS[q](h, st)[1]), { [p]: 1, [q]: 1 });
      step("then " + p + " back by reset()", (st) => invoke(st, setting(st, p), "reset"), { [q]: 1 });
      step("then " + p + " on again", (st) => set(st, p, VALS[p](h, st)[1]), { [p]: 1, [q]: 1 });
      step("then Settings.reset()", (st) => invoke(st, h.exported(IDX, "Settings", st), "reset"), {});
    });

    // 2. a caller's listener: no matter what it does
    for (const k of TZ.slice(0, 2)) for (const mode of ["returns", "throws", "changes it back", "observes"]) rep.scenario("listener " + mode + " " + k, () => {
      let st = fresh(), busy = false; const name = k + " with a listener that " + mode;
      st = warm(st, rel[k]);
      const s = setting(st, k);
      const sub = h.call(h.method(s, "onChange", st), s, [V.nat("caller.listener")], st);
      if (sub.length !== 1 || sub[0].thr) { rep.ob(null, name, "onChange not evaluated"); return; }
      cb = (nm, a, st2, n) => {
        if (nm !== "caller.listener") return null;
        if (mode === "throws") return h.e.throwErr(st2, "Error", "listener failed", n);
        if (mode === "changes it back" && !busy) { busy = true; const r = set(st2, k, V.FALSE); return [{ st: r.st, v: U }]; }
        if (mode === "observes") { const st3 = check(name + ", from inside it", st2, { [k]: 1 }, rel[k]); return [{ st: st3, v: U }]; }
        return [{ st: st2, v: U }];
      };
      const rs = h.e.setProp(setting(sub[0].st, k), "value", V.TRUE, sub[0].st, null);
      cb = null;
      if (rs.length !== 1) { rep.ob(null, name, "change not evaluated"); return; }
      const now = val(rs[0].st, k);
      check(name, rs[0].st, now && V.key(now) === V.key(V.TRUE) ? { [k]: 1 } : {}, rel[k]);
    });

    // 3. the notification rule, for every setting
    const names = (() => { const st = fresh(); const o = st.get(h.exported(IDX, "Settings", st).id), out = []; for (const l of o.layers || []) if (l instanceof Map) for (const [k, c] of l) { const v = c.v && h.e.resolve(c.v, st); if (v && v.k === "o" && h.e.getProp(v, "defaultValue", st.clone(), null)[0].v.k !== "u") out.push(k); } return out; })();
    rep.count("settings", names.length);
    rep.ob(names.length >= TZ.length ? true : null, "Settings", names.length + " settings found");
    for (const k of names) for (const nl of [1, 2, 3]) for (const un of [null, 0, nl - 1]) rep.scenario("notify " + k + nl + un, () => {
      let st = fresh(), calls = [];
      const name = "Settings." + k + " with " + nl + " listener" + (nl > 1 ? "s" : "") + (un !== null ? ", number " + (un + 1) + " removed" : "");
      const s = setting(st, k), d = val(st, k);
      const X = k === "logger" ? V.nat("caller.logger1") : k in VALS ? VALS[k](h, st).slice(-1)[0] : h.obj(st, {}, "X"), Y = k === "logger" ? V.nat("caller.logger2") : typeof V.key(X) === "string" && X.k === "o" ? h.obj(st, {}, "Y") : d;
      const uns = [];
      for (let i = 0; i < nl; i++) { const r = h.phase("sub" + i, () => h.call(h.method(s, "onChange", st), s, [V.nat("caller.l" + i)], st)); if (r.length !== 1 || r[0].thr) { rep.ob(null, name, "onChange not evaluated"); return; } st = r[0].st; uns.push(r[0].v); }
      cb = (nm, a, st2) => { const m = /^caller\.l(\d)$/.exec(nm); if (m) calls.push([+m[1], ...a.slice(0, 2).map((x) => V.key(h.e.resolve(x.v, st2)))]); return /^caller\./.test(nm) ? [{ st: st2, v: U }] : null; };
      const expect = (what, r, want) => {
        if (!r) { rep.ob(null, name, what + ": not evaluated"); calls = []; return false; }
        if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, what + ": the change throws"); calls = []; return false; }
        const got = calls.map((c) => c.join("|")).sort().join(" "), w = want.map((c) => c.join("|")).sort().join(" ");
        rep.ob(got === w ? true : r.st.impr.size ? null : false, name, what + ": " + (calls.length ? calls.length + " call(s)" : "no call") + (got === w ? "" : ", expected " + want.length + " with the old and the new value" + (process.env.VERIF_DEBUG ? got + " / " + w : "")));
        calls = []; st = r.st; return true;
      };
      const K = V.key, ids = [...Array(nl).keys()];
      try {
        if (un !== null) { const r = h.call(uns[un], U, [], st); if (r.length !== 1 || r[0].thr) { rep.ob(null, name, "unsubscribe not evaluated"); return; } st = r[0].st; }
        const live = ids.filter((i) => i !== un);
        if (!expect("set to its present value", set(st, k, d), [])) return;
        if (!expect("set to a new value", set(st, k, X), live.map((i) => [i, K(d), K(X)]))) return;
        const g = val(st, k); rep.ob(g ? K(g) === K(X) : null, name, "reads back the value it was given");
        if (!expect("set to the same value again", set(st, k, X), [])) return;
        if (K(Y) !== K(X) && !expect("set to another value", set(st, k, Y), live.map((i) => [i, K(X), K(Y)]))) return;
        const cur = val(st, k);
        if (!expect("reset()", invoke(st, setting(st, k), "reset"), K(cur) === K(d) ? [] : live.map((i) => [i, K(cur), K(d)]))) return;
        const g2 = val(st, k); rep.ob(g2 ? K(g2) === K(d) : null, name, "has its default value after reset()");
        if (!expect("set to a new value after reset", set(st, k, X), live.map((i) => [i, K(d), K(X)]))) return;
        if (!expect("Settings.reset()", invoke(st, h.exported(IDX, "Settings", st), "reset"), live.map((i) => [i, K(X), K(d)]))) return;
        const g3 = val(st, k); rep.ob(g3 ? K(g3) === K(d) : null, name, "has its default value after Settings.reset()");
        if (un === null) { for (const u of uns) { const r = h.call(u, U, [], st); if (r.length !== 1 || r[0].thr) { rep.ob(null, name, "unsubscribe not evaluated"); return; } st = r[0].st; } expect("set after every listener was removed", set(st, k, X), []); }
      } finally { cb = null; }
    });

    // 4. the logger
    if (names.includes("logger")) for (const mode of ["before the instance is made", "after the instance is made", "by the constructor, as a function", "by the constructor, as an object"]) rep.scenario("logger " + mode, () => {
      const name = "logger given " + mode; let st = fresh(); const given = [];
      const lg = h.obj(st, Object.fromEntries(["trace", "debug", "info", "warn", "error"].map((k) => [k, V.nat("caller.log")])), "lg");
      cb = (nm, a, st2) => { if (nm === "caller.logger") return [{ st: st2, v: lg }]; return null; };
      onLog = (v, st2) => given.push(V.key(h.e.resolve(v, st2)));
      try {
        let i;
        if (/before/.test(mode)) { const r = set(st, "logger", V.nat("caller.logger")); if (!r || r.thr) return rep.ob(null, name, "not evaluated"); i = h.instance(r.st); }
        else if (/after/.test(mode)) { i = h.instance(st); const r = set(i.st, "logger", V.nat("caller.logger")); if (!r || r.thr) return rep.ob(null, name, "not evaluated"); i = { v: i.v, st: r.st }; }
        else i = h.instance(st, h.obj(st, { logger: /object/.test(mode) ? lg : V.nat("caller.logger") }, "io"));
        const o = h.e.getProp(i.v, "options", i.st, null);
        const f = o.length === 1 && !o[0].thr ? h.e.getProp(o[0].v, "logger", o[0].st, null) : [];
        if (f.length !== 1 || f[0].thr) return rep.ob(null, name, "instance logger not evaluated");
        const out = h.call(f[0].v, U, [], f[0].st);
        for (const x of out) rep.ob(x.thr ? (x.st.impr.size ? null : false) : V.key(h.e.resolve(x.v, x.st)) === V.key(lg) ? true : x.st.impr.size ? null : false, name, x.thr ? "the instance's logger is not callable" : "the instance logs to " + (V.key(h.e.resolve(x.v, x.st)) === V.key(lg) ? "it" : h.e.show(x.v, x.st)));
        rep.ob(given.includes(V.key(lg)) ? true : i.st.impr.size ? null : false, name, "the read tasks log to " + (given.includes(V.key(lg)) ? "it" : "another logger"));
      } finally { cb = onLog = null; }
    });
  },
};

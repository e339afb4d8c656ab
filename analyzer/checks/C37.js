"use strict";
const { H, T, U, V, L, litOf, key, one } = require("../lib/harness");
const { serve } = require("../lib/serve");
const S = V.str, N = V.num;
// documented defaults of what the pool is told
const DEF = {
  maxTasksPerProcess: 500, spawnTimeoutMillis: 30000, taskTimeoutMillis: 30000, onIdleIntervalMillis: 2000, healthCheckIntervalMillis: 30000,
  maxFailedTasksPerProcess: 0, killProcessGroup: false, pass: "{ready}", fail: "{ready}", exitCommand: "-stay_open\nFalse\n", versionCommand: "-ver\n-execute\n", healthCheckCommand: "-ver\n-execute\n", cleanupChildProcs: true,
};
const NUMS = ["maxProcs", "maxTasksPerProcess", "spawnTimeoutMillis", "taskTimeoutMillis", "onIdleIntervalMillis", "streamFlushMillis", "healthCheckIntervalMillis", "maxFailedTasksPerProcess", "maxProcAgeMillis", "minDelayBetweenSpawnMillis", "endGracefulWaitTimeMillis", "maxIdleMsPerProcess", "pidCheckIntervalMillis"];
const TEXTS = ["healthCheckCommand", "versionCommand", "pass", "fail", "exitCommand"];
const BOOLS = ["cleanupChildProcs", "killProcessGroup", "unrefStreams"];
module.exports = {
  level: "other", floor: 200,
  explain: "Abstract interpretation of the constructor for every pool option given alone (as an unknown value and as the boundary values 0, 1 and false), together with others, and not at all; the options object the pool is created with is inspected. Then of every accessor and listener method against a pool whose fields are unknown values, and of the handling of stderr chunks while a command runs.",
  rule: "one pool per instance, created with the caller's value of every option it gave and the documented default of every other; the number of processes by default is at least one and at most the number of CPUs; accessors, listeners and shutdown requests reach this instance's pool with the given arguments and give its answer; a chunk of stderr is handed to the task unless it reports a broken Perl installation, which fails the task",
  run(rep) {
    const pools = (o) => o.st.events().filter((x) => x.name === "new BatchCluster");
    const fresh = (x = {}) => { const h = new H({ root: rep.repo, ...x }); rep.addEngine(h.e); return h; };
    const at = (h, o, k, st) => { const r = h.e.getProp(o, k, st, null); return r.length === 1 && !r[0].thr ? h.e.resolve(r[0].v, r[0].st) : null; };
    const definite = (v) => v && (litOf(v) !== null || ["d", "b", "u", "n"].includes(v.k));
    const same = (a, b) => a && b && key(a) === key(b);
    const val = (x) => (typeof x === "number" ? N(x) : typeof x === "boolean" ? V.bool(x) : S(x));
    const build = (name, mk) => {
      const h = fresh(), st = h.state(), n0 = st.events().filter((x) => x.name === "new BatchCluster").length;
      const given = mk(h, st);
      const C = h.exported("src/ExifTool.ts", "ExifTool", st);
      const outs = h.e.construct(C, given === null ? [] : [one(h.obj(st, given, "opts"))], st, null);
      rep.ob(outs.length && outs.every((o) => !o.thr) ? true : outs.some((o) => o.thr) ? false : null, name, outs.some((o) => o.thr) ? "the constructor fails" : "the instance is made");
      for (const o of outs) {
        if (o.thr) continue;
        const ps = pools(o).slice(n0);
        rep.ob(ps.length === 1, name, ps.length === 1 ? "one pool is made" : ps.length + " pools are made for one instance");
        if (!ps.length) continue;
        rep.count("pools");
        const po = h.e.resolve(ps[ps.length - 1].opts, o.st);
        for (const [k, w] of Object.entries(given || {})) {
          const v = at(h, po, k, o.st), ok = same(v, h.e.resolve(w, o.st));
          rep.ob(ok ? true : !v ? null : definite(v) || v.k === "y" && !h.imprecise(v, o.st) ? false : null, name, ok ? k + " as given" : "the pool is created with " + k + " " + (v && h.e.show(v, o.st)) + " instead of " + h.e.show(h.e.resolve(w, o.st), o.st));
        }
        for (const [k, w] of Object.entries(DEF)) if (!given || !(k in given)) {
          const v = at(h, po, k, o.st), ok = same(v, val(w));
          rep.ob(ok ? true : definite(v) ? false : null, name, ok ? k + " is the documented default" : "the pool is created with " + k + " " + (v && h.e.show(v, o.st)) + " instead of the documented default " + JSON.stringify(w));
        }
        const pf = at(h, po, "processFactory", o.st);
        rep.ob(pf && (pf.k === "u" || pf.k === "n") ? false : true, name, pf && (pf.k === "u" || pf.k === "n") ? "the pool has no process factory" : "the pool can start processes");
        const mine = at(h, o.v, "batchCluster", o.st), said = at(h, at(h, o.v, "options", o.st), "maxProcs", o.st), used = at(h, po, "maxProcs", o.st);
        rep.ob(mine && mine.k === "o" ? true : null, name, "the instance has its pool");
        rep.ob(said && used ? same(said, used) || (definite(said) && definite(used) ? false : null) : null, name, "the instance reports the number of processes its pool uses");
      }
    };
    rep.scenario("no options", () => build("no options", () => null));
    rep.scenario("empty options", () => build("empty options", () => ({})));
    for (const k of NUMS) {
      rep.scenario(k + " unknown", () => build(k, (h) => ({ [k]: h.sym("OPT", T.D, { fact: { nan: false, lo: 0, hi: 1e9 } }) })));
      for (const n of [0, 1, 2, 100, 1e7]) if (!(n === 0 && /^(maxProcs|maxTasksPerProcess|onIdle)/.test(k))) rep.scenario(k + " " + n, () => build(k + " " + n, () => ({ [k]: N(n) })));
    }
    for (const k of TEXTS) { rep.scenario(k, () => build(k, (h) => ({ [k]: h.sym("OPT", T.S) }))); rep.scenario(k + " text", () => build(k + " text", () => ({ [k]: S("-echo\n-execute\n") }))); }
    for (const k of BOOLS) for (const b of [true, false]) rep.scenario(k + " " + b, () => build(k + " " + b, () => ({ [k]: V.bool(b) })));
    for (const a of NUMS.slice(0, 9)) for (const b of NUMS.slice(0, 9)) if (a < b) rep.scenario(a + " and " + b, () => build(a + " and " + b, (h) => ({ [a]: h.sym("OPTA", T.D, { fact: { nan: false, lo: 1, hi: 1e9 } }), [b]: h.sym("OPTB", T.D, { fact: { nan: false, lo: 1, hi: 1e9 } }) })));
    rep.scenario("a small pool", () => build("a small pool", () => ({ maxProcs: N(3), taskTimeoutMillis: N(100), spawnTimeoutMillis: N(50), maxTasksPerProcess: N(1), taskRetries: N(0), maxFailedTasksPerProcess: N(2), cleanupChildProcs: V.FALSE, killProcessGroup: V.TRUE })));
    rep.scenario("every option", () => build("every option", (h) => Object.fromEntries([...NUMS.map((k) => [k, h.sym("O" + k, T.D, { fact: { nan: false, lo: 1, hi: 1e9 } })]), ...BOOLS.map((k) => [k, V.TRUE]), ...TEXTS.map((k) => [k, S("x" + k)])])));
    rep.scenario("other options beside", () => build("other options beside", (h, st) => ({ numericTags: h.arr(st, [S("ISO")], "nt"), taskRetries: N(3), geolocation: V.TRUE, maxProcs: h.sym("OPT", T.D, { fact: { nan: false, lo: 1, hi: 500 } }), readArgs: h.arr(st, [], "ra") })));
    // two instances do not share
    rep.scenario("two instances", () => {
      const h = fresh(), st = h.state();
      const a = h.phase("a", () => h.instance(st, h.obj(st, { maxProcs: N(7), taskTimeoutMillis: N(70) }, "oa")));
      const b = h.phase("b", () => h.instance(a.st, h.obj(a.st, { maxTasksPerProcess: N(9) }, "ob")));
      const ps = pools(b), pa = h.e.resolve(ps[ps.length - 2].opts, b.st), pb = h.e.resolve(ps[ps.length - 1].opts, b.st);
      const w = (n, p, k, x) => { const v = at(h, p, k, b.st); rep.ob(same(v, val(x)) ? true : definite(v) ? false : null, "two instances", same(v, val(x)) ? n + " keeps " + k : "the " + n + " has " + k + " " + (v && h.e.show(v, b.st)) + " instead of " + x); };
      w("first instance", pa, "maxProcs", 7); w("first instance", pa, "taskTimeoutMillis", 70); w("first instance", pa, "maxTasksPerProcess", 500);
      w("second instance", pb, "maxTasksPerProcess", 9); w("second instance", pb, "taskTimeoutMillis", 30000);
      const v = at(h, pb, "maxProcs", b.st); rep.ob(same(v, N(7)) ? false : true, "two instances", "the second instance is not limited by the first's options");
      const ba = at(h, a.v, "batchCluster", b.st), bb = at(h, b.v, "batchCluster", b.st);
      rep.ob(ba && bb && ba.k === "o" && bb.k === "o" ? ba.id !== bb.id : null, "two instances", "each instance has its own pool");
    });
    // default number of processes
    for (const [how, cpus] of [["par", 1], ["par", 2], ["par", 3], ["par", 4], ["par", 5], ["par", 8], ["par", 64], ["par", 0], ["cpus", 0], ["cpus", 1], ["cpus", 6], ["cpus", 32]]) rep.scenario("default processes with " + cpus + " CPUs by " + how, () => {
      const name = cpus + " CPUs (" + (how === "par" ? "availableParallelism" : "cpus") + ")";
      const h = fresh({ hooksAtLoad: true, os: { how, cpus } }), st = h.state(), i = h.instance(st);
      const ps = pools(i), po = h.e.resolve(ps[ps.length - 1].opts, i.st), v = at(h, po, "maxProcs", i.st);
      const okv = v && v.k === "d" && Number.isInteger(v.v) && v.v >= 1 && v.v <= Math.max(1, cpus);
      rep.ob(okv ? true : definite(v) ? false : null, name, okv ? "runs " + v.v + " processes" : "the default number of processes is " + (v && h.e.show(v, i.st)));
    });
    // accessors
    const FIELDS = { pendingTasks: "pendingTaskCount", spawnedProcs: "spawnedProcCount", busyProcs: "busyProcCount", ended: "ended" };
    rep.scenario("accessors", () => {
      const h = fresh(), st = h.state();
      const i = h.phase("a", () => h.instance(st)), j = h.phase("b", () => h.instance(i.st));
      const s = j.st, set = (iv, tag) => {
        const p = at(h, iv, "batchCluster", s); if (!p || p.k !== "o") { rep.ob(null, "accessors", "pool not found"); return; }
        const o = s.get(p.id), m = new Map(o.layers[0]);
        for (const f of Object.values(FIELDS)) m.set(f, { v: h.sym(tag + f, f === "ended" ? T.B : T.D) });
        m.set("childEndCounts", { v: h.obj(s, { worn: N(1) }, tag + "cec") });
        s.set(p.id, { ...o, layers: [m, ...o.layers.slice(1)] });
      };
      set(i.v, "I"); set(j.v, "J");
      for (const [iv, tag] of [[i.v, "I"], [j.v, "J"]]) {
        for (const [a, f] of Object.entries(FIELDS)) {
          const p = at(h, iv, "batchCluster", s), want = at(h, p, f, s), r = h.e.getProp(iv, a, s.clone(), null);
          for (const x of r) {
            const v = x.thr ? null : h.e.resolve(x.v, x.st), ok = v && (same(v, want) || (a === "ended" && v.k === "b"));
            rep.ob(ok ? true : x.thr || definite(v) || (v.k === "y" && !h.imprecise(v, x.st)) ? false : null, a, ok ? "is the pool's " + f : a + " is " + (x.thr ? "an error" : h.e.show(v, x.st)) + " instead of this pool's " + f);
          }
        }
        const before = at(h, at(h, iv, "batchCluster", s), "childEndCounts", s);
        for (const o of h.call(h.method(iv, "childEndCounts", s), iv, [], s.clone())) {
          const v = o.thr ? null : h.e.resolve(o.v, o.st), n = v && at(h, v, "worn", o.st);
          rep.ob(same(v, before) || same(n, N(1)) ? true : o.thr || definite(v) || (v.k === "o" && definite(n)) ? false : null, "childEndCounts", same(v, before) ? "is the pool's" : "childEndCounts() gives " + (o.thr ? "an error" : h.e.show(v, o.st)));
        }
        for (const x of h.e.getProp(iv, "pids", s.clone(), null)) { const v = x.thr ? null : h.e.resolve(x.v, x.st); rep.ob(v && /pids/.test(h.e.show(v, x.st)) ? true : x.thr || definite(v) ? false : null, "pids", "are the pool's processes: " + (v && h.e.show(v, x.st))); }
        // listeners
        for (const m of ["on", "off"]) for (const ev of ["taskData", "taskError", "endError", "beforeEnd", "end", "childStart", "childEnd", "startError", "internalError", "noTaskData", "healthCheckError", "taskResolved", "taskTimeout", "idle"]) {
          const f = V.nat("caller.listener"), n0 = s.events().length;
          for (const o of h.call(h.method(iv, m, s), iv, [S(ev), f], s.clone())) {
            const ev2 = o.st.events().slice(n0).filter((x) => /^bc\./.test(x.name));
            const good = ev2.length === 1 && (ev2[0].name === "bc." + m || (m === "off" && ev2[0].name === "bc.removeListener") || (m === "on" && ev2[0].name === "bc.addListener")) && ev2[0].ev === ev && same(h.e.resolve(h.e.argAt(ev2[0].args, 1, o.st), o.st), f);
            const wrapped = ev2.length === 1 && ev2[0].ev === ev && m === "on";
            rep.ob(good ? true : wrapped ? null : false, m + "(" + ev + ")", good ? "reaches the pool" : m + '("' + ev + '", listener) becomes ' + (ev2.map((x) => x.name.slice(3) + "(" + x.ev + ")").join(", ") || "nothing"));
          }
        }
      }
    });
    // stderr chunks
    const C = [["", "[^]{0,20}", true]];
    const chunk = (name, op, mk, text, fatal) => rep.scenario(op + " stderr " + name, () => {
      const h = fresh(), r = h.api(op, mk);
      for (const t of r.tasks) {
        const st = t.st.clone(), n0 = st.events().length, v = typeof text === "string" ? S(text) : (() => { const s = h.sym("CHUNK", T.S); h.e.refine(st, s.id, { ty: T.S, lang: text }); return s; })();
        for (const o of h.call(h.method(t.task, "onStderr", st), t.task, [v], st)) {
          const n = o.st.events().slice(n0).filter((x) => x.name === "task.onStderr").length;
          const w = op + " (" + h.taskName(t) + ")";
          if (fatal) rep.ob(o.thr ? true : typeof text === "string" ? false : null, w, o.thr ? "a broken Perl fails the task" : "a broken Perl installation reported as " + JSON.stringify(text) + " does not fail the task");
          else rep.ob(!o.thr && n === 1 ? true : typeof text === "string" ? false : null, w, !o.thr && n === 1 ? "the chunk is kept for the task" : "the stderr text " + JSON.stringify(text) + (o.thr ? " makes the task throw while running" : " is handed to the task " + n + " times"));
        }
      }
    });
    void C;
    const F = S("/p/a.jpg");
    const OPS = { read: () => [F], readRaw: () => [F], version: () => [], write: (st, h) => [F, h.obj(st, { Title: S("x") }, "t")], extractBinaryTagToBuffer: () => [S("PreviewImage"), F], extractPreview: () => [F, S("/p/b.jpg")], rewriteAllTags: () => [F, S("/p/b.jpg")] };
    for (const [op, mk] of Object.entries(OPS)) {
      for (const [n, t] of [["missing module", "Can't locate Time/HiRes.pm in @INC (you may need to install the Time::HiRes module)"], ["missing module in the middle", "x\nCan't locate IO/File.pm in @INC (@INC contains: /etc/perl)\nBEGIN failed"]]) chunk(n, op, mk, t, true);
      for (const [n, t] of [["warning", "Warning: Bad Exif data"], ["error", "Error: File not found - /p/a.jpg"], ["empty", ""], ["newline", "\n"], ["mention", "Error: @INC.jpg not found"], ["partial", "Can't locate"], ["chunk of a line", "rning: minor"], ["unicode", "Warning: é 😀 - /p/ä.jpg"], ["in @INC", "Warning: in @INC"]]) chunk(n, op, mk, t, false);
    }
    // version()
    const ver = (name, text, want) => rep.scenario("version " + name, () => {
      const { h, outs } = serve(rep.repo, "version", () => [], () => [S(text), S("")]);
      rep.addEngine(h.e);
      for (const o of outs) {
        if (o.kind === "pending") { rep.ob(null, "version", "settles"); continue; }
        const v = o.kind === "ok" ? litOf(h.e.resolve(o.v, o.st)) : null;
        rep.ob(o.kind === "ok" ? (v === want ? true : v === null ? null : false) : false, "version " + JSON.stringify(text), o.kind !== "ok" ? "version() rejects although ExifTool answered " + JSON.stringify(text) : v === want ? "is the printed version" : "version() answers " + JSON.stringify(v) + " for " + JSON.stringify(text));
      }
    });
    for (const [t, w] of [["13.36", "13.36"], ["13.36\n", "13.36"], ["13.36\r\n", "13.36"], ["9.01", "9.01"], ["12.00", "12.00"], ["13.10", "13.10"], ["12.3.1\n", "12.3.1"], ["100.100.100", "100.100.100"], ["13.05\n\n", "13.05"]]) ver(JSON.stringify(t), t, w);
  },
};

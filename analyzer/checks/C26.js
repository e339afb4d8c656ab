"use strict";
const { H, T, U, V, L, litOf, one, key } = require("../lib/harness");
const S = V.str;
module.exports = {
  level: "other", floor: 150,
  explain: "Abstract interpretation of the constructor and of the process factory it installs, for each combination of platform, interpreter location, ignoreShebang, arguments, environment (caller's and parent's) and form of the configured path; every process start on every path is inspected. The interpreter check is explored through each operation for an interpreter that is present and one that is missing.",
  rule: "every start is a direct spawn (no shell, attached, all three streams piped) of the configured path with the configured arguments and an environment holding LANG=C and the caller's other entries; a caller's factory is used as given; a failing interpreter check rejects before anything is submitted",
  run(rep, { tier }) {
    const PERL = "/usr/bin/perl";
    // file system: which paths exist and are executable
    const fsHook = (present) => (name, a, st, n, e) => {
      const v = litOf(e.resolve(e.argAt(a, 0, st), st));
      if (!/^(exists|access|accessSync)$/.test(name)) return null;
      const yes = v !== null ? present(v) : false;
      if (name === "exists") return [{ st, v: V.bool(yes) }];
      const err = e.allocErr(st, "Error", S("ENOENT"), n, "noent");
      if (name === "accessSync") return [yes ? { st, v: U } : { st, thr: err }];
      return [{ st, v: yes ? e.mkPromise(st, "ok", U, n, "acc") : e.mkPromise(st, "err", err, n, "acc") }];
    };
    const strOf = (e, v, st) => litOf(e.resolve(v, st));
    const own = (e, o, k, st) => { const r = e.getProp(o, k, st, null); return r.length === 1 && !r[0].thr ? e.resolve(r[0].v, st) : null; };
    const falsy = (v) => v && (v.k === "u" || v.k === "n" || (v.k === "b" && v.v === false));
    const list = (e, v, st) => { v = e.resolve(v, st); if (v.k !== "o") return null; const o = st.get(v.id); if (!o.segs || !o.segs.every((s) => s.k === "1")) return null; return o.segs.map((s) => e.resolve(s.v, st)); };
    const judge = (name, h, ev, st, want) => {
      const e = h.e, ob = (r, m) => rep.ob(r, name, m + (r === false && ev.node ? " (" + e.siteKey(ev.node) + ")" : ""));
      rep.count("process_starts");
      ob(ev.how === "spawn" || ev.how === "execFile" ? true : /^exec(Sync)?$/.test(ev.how) ? false : null, /^exec(Sync)?$/.test(ev.how) ? "the process is started through a shell (" + ev.how + ")" : "started with " + ev.how);
      const cmd = strOf(e, ev.cmd, st);
      ob(cmd === null ? null : cmd === want.cmd, cmd === want.cmd ? "runs " + cmd : "runs " + JSON.stringify(cmd) + " instead of " + JSON.stringify(want.cmd));
      const as = ev.args.length > 1 ? list(e, e.argAt(ev.args, 1, st), st) : [];
      const al = as && as.map((x) => (litOf(x) !== null ? litOf(x) : "<" + key(x) + ">"));
      ob(!al ? null : JSON.stringify(al) === JSON.stringify(want.args), al && JSON.stringify(al) === JSON.stringify(want.args) ? "with the configured arguments" : "runs with arguments " + JSON.stringify(al) + " instead of " + JSON.stringify(want.args));
      const o = ev.args.length > 2 ? e.resolve(e.argAt(ev.args, 2, st), st) : null;
      if (!o || o.k !== "o") { ob(o ? null : false, "the process is started without options, so it inherits the parent's environment"); return; }
      const sh = own(e, o, "shell", st), de = own(e, o, "detached", st), io = own(e, o, "stdio", st), env = own(e, o, "env", st), uid = own(e, o, "cwd", st);
      ob(falsy(sh) ? true : sh && sh.k === "y" ? null : false, falsy(sh) ? "no shell" : "a shell is used (shell: " + (sh && e.show(sh, st)) + ")");
      ob(falsy(de) ? true : de && de.k === "y" ? null : false, falsy(de) ? "attached" : "the process is detached");
      const ioOk = io && (io.k === "u" || litOf(io) === "pipe" || (io.k === "o" && (list(e, io, st) || []).length >= 3 && list(e, io, st).slice(0, 3).every((x) => litOf(x) === "pipe" || x.k === "u" || x.k === "n")));
      ob(ioOk ? true : io && io.k === "y" ? null : false, ioOk ? "standard streams are piped" : "the standard streams are not all piped (" + (io && e.show(io, st)) + ")");
      ob(uid && uid.k === "u" ? true : null, "working directory inherited");
      if (!env || env.k !== "o") { ob(env && env.k === "y" ? null : false, "the environment is not set: " + (env && e.show(env, st))); return; }
      for (const [k, w] of Object.entries(want.env)) {
        const v = own(e, env, k, st);
        const okv = w === undefined ? v && v.k === "u" : typeof w === "string" ? v && (litOf(v) === w || (v.k === "y" && L.equal && L.subset(e.langOf(v, st), L.lit(w)))) : v && key(v) === key(w);
        const bad = v && (v.k === "u" || v.k === "n" || litOf(v) !== null || (w === undefined && v.k !== "i"));
        ob(okv ? true : bad ? false : null, okv ? k + " as required" : "environment variable " + k + " is " + (v && e.show(v, st)) + ", not " + (typeof w === "string" ? JSON.stringify(w) : w === undefined ? "unset" : "the caller's value"));
      }
    };
    const DEF = ["-stay_open", "True", "-@", "-"];
    const paths = [
      ["path as text", () => S("/opt/et/exiftool")],
      ["path as promise", (st, h) => h.e.mkPromise(st, "ok", S("/opt/et/exiftool"), null, "pp")],
      ["path as function", (st, h) => V.nat("caller.path")],
      ["path as async function", (st, h) => V.nat("caller.pathAsync")],
    ];
    const envs = [
      ["no environment", {}, {}],
      ["an environment with LANG", { LANG: "de_DE.UTF-8", LC_ALL: "C" }, {}],
      ["an environment with other entries", { PATH: "/x", PERL5LIB: "SYM" }, {}],
      ["EXIFTOOL_HOME in the parent", {}, { EXIFTOOL_HOME: "/home/u/.et" }],
      ["EXIFTOOL_HOME in both", { EXIFTOOL_HOME: "/mine" }, { EXIFTOOL_HOME: "/home/u/.et" }],
    ];
    const mk = (platform, penv, present, imports) => {
      let H2;
      const hooks = {
        env: { PATH: "/usr/bin:/bin", ...penv },
        onFs: fsHook(present),
        onImport: (l, st, n, e) => {
          if (!imports || !/^exiftool-vendored/.test(l)) return null;
          const p = imports[l];
          return [{ st, v: p ? e.mkPromise(st, "ok", e.allocObj(st, n, { default: S(p) }, "mod"), n, "imp") : e.mkPromise(st, "err", e.allocErr(st, "Error", S("Cannot find module " + l), n, "nomod"), n, "imp") }];
        },
        onUnmodelled(name, t, a, st, n) {
          if (/^caller\.path/.test(name)) st.event({ name: "caller.path", tkey: "" });
          if (name === "caller.path") return [{ st, v: S("/opt/et/exiftool") }];
          if (name === "caller.pathAsync") return [{ st, v: H2.e.mkPromise(st, "ok", S("/opt/et/exiftool"), n, "pa") }];
          if (name === "caller.factory") { st.event({ name: "caller.factory", tkey: "" }); return [{ st, v: H2.e.mkPromise(st, "ok", H2.sym("PROC", T.O), n, "pf") }]; }
          return null;
        },
      };
      H2 = new H({ root: rep.repo, platform, hooks, hooksAtLoad: true, fsNoFail: true });
      return H2;
    };
    const start = (h, st, i) => {
      const e = h.e, n0 = i.st.events().length;
      const opts = h.method(i.v, "options", i.st), f = h.method(opts, "processFactory", i.st);
      const res = [];
      for (const o of h.call(f, opts, [], i.st)) {
        if (o.thr) { res.push({ st: o.st, thr: o.thr, ev: o.st.events().slice(n0) }); continue; }
        for (const w of e.awaitV(o.v, o.st, null)) res.push({ ...w, ev: w.st.events().slice(n0) });
      }
      return res;
    };
    for (const platform of ["linux", "win32"]) for (const sb of [undefined, true, false]) for (const perl of [true, false]) {
      if (platform === "win32" && (sb === true || !perl)) continue;
      const sets = [];
      for (const p of paths) sets.push([p, envs[0], undefined]);
      for (const ev of envs.slice(1)) sets.push([paths[0], ev, undefined]);
      sets.push([paths[0], envs[1], ["-stay_open", "True", "-@", "-", "-common_args", "-q"]], [paths[0], envs[0], []]);
      for (const [[pn, pv], [en, cenv, penv], args] of sets) {
        const name = platform + ", " + (perl ? "perl at " + PERL : "perl elsewhere") + ", ignoreShebang " + sb + ", " + pn + ", " + en + (args ? ", " + args.length + " arguments" : "");
        rep.scenario(name, () => {
          const h = mk(platform, penv, (x) => (perl ? x === PERL : x === "/bin/perl"));
          const st = h.state();
          const sym = h.sym("PERL5LIB", T.S);
          const o = { exiftoolPath: pv(st, h) };
          if (sb !== undefined) o.ignoreShebang = V.bool(sb);
          if (Object.keys(cenv).length) o.exiftoolEnv = h.obj(st, Object.fromEntries(Object.entries(cenv).map(([k, v]) => [k, v === "SYM" ? sym : S(v)])), "env");
          if (args) o.exiftoolArgs = h.arr(st, args.map((x) => S(x)), "args");
          const i = h.instance(st, h.obj(st, o, "opts"));
          const res = start(h, st, i);
          rep.addEngine(h.e);
          const direct = sb === undefined ? platform === "win32" || perl : !sb;
          const a = args || DEF;
          const want = { cmd: direct ? "/opt/et/exiftool" : perl ? PERL : "/bin/perl", args: direct ? a : ["/opt/et/exiftool", ...a], env: {} };
          for (const [k, v] of Object.entries(cenv)) want.env[k] = v === "SYM" ? sym : v;
          want.env.LANG = "C";
          want.env.EXIFTOOL_HOME = cenv.EXIFTOOL_HOME ?? penv.EXIFTOOL_HOME;
          rep.ob(res.length ? true : null, name, "the factory is explored");
          for (const r of res) {
            const sp = r.ev.filter((x) => x.name === "spawn");
            if (/function/.test(pn)) rep.ob(r.ev.some((x) => x.name === "caller.path"), name, r.ev.some((x) => x.name === "caller.path") ? "the caller's path function is asked" : "the caller's path function is not asked");
            rep.ob(r.thr ? null : sp.length === 1 ? true : false, name, r.thr ? "the factory may fail: " + h.e.show(r.thr, r.st) : sp.length === 1 ? "one process is started" : sp.length + " processes are started for one request of the pool");
            for (const x of sp) judge(name, h, x, r.st, want);
          }
        });
      }
    }
    // where ExifTool is found when no path is configured
    const PL = "exiftool-vendored.pl", N = "/app/node_modules/" + PL + "/bin/exiftool", AS = "/x/app.asar/node_modules/" + PL + "/bin/exiftool", UN = "/x/app.asar.unpacked/node_modules/" + PL + "/bin/exiftool", DEEP = "/x/app.asar/sub/app.asar.d/app.asar/et";
    for (const [what, imports, files, want] of [
      ["vendored package", { [PL]: N }, [N, "/usr/bin/exiftool"], N],
      ["vendored package packed into an archive", { [PL]: AS }, [AS, UN, "/usr/bin/exiftool"], UN],
      ["vendored package packed, not unpacked", { [PL]: AS }, [AS, "/usr/bin/exiftool"], AS],
      ["vendored package in nested archives", { [PL]: DEEP }, [DEEP, "/x/app.asar.unpacked/sub/app.asar.d/app.asar.unpacked/et"], "/x/app.asar.unpacked/sub/app.asar.d/app.asar.unpacked/et"],
      ["vendored package whose file is gone", { [PL]: N }, ["/usr/bin/exiftool"], "/usr/bin/exiftool"],
      ["no vendored package", {}, ["/bin/exiftool"], "/bin/exiftool"],
      ["no vendored package, two on the path", {}, ["/usr/bin/exiftool", "/bin/exiftool"], "/usr/bin/exiftool"],
      ["nothing installed", {}, [], null],
    ]) for (const blankPath of [false, true]) {
      const name = "default location, " + what + (blankPath ? ", blank path configured" : "");
      rep.scenario(name, () => {
        const h = mk("linux", {}, (x) => x === PERL || files.includes(x), imports), st = h.state();
        const i = h.instance(st, blankPath ? h.obj(st, { exiftoolPath: S("  ") }, "opts") : undefined);
        const res = start(h, st, i);
        rep.addEngine(h.e);
        rep.ob(res.length ? true : null, name, "explored");
        for (const r of res) {
          const sp = r.ev.filter((x) => x.name === "spawn");
          if (want === null) { rep.ob(r.thr && !sp.length ? true : false, name, sp.length ? "a process is started although ExifTool is not installed" : r.thr ? "the factory fails" : "the factory neither starts a process nor fails"); continue; }
          const un = r.st.impr.size || h.e.stats.unmodelled.has("process.resourcesPath");
          if (r.thr || sp.length !== 1) { rep.ob(un ? null : false, name, r.thr ? "no process is started: " + h.e.show(r.thr, r.st) : sp.length + " processes are started"); continue; }
          judge(name, h, sp[0], r.st, { cmd: want, args: DEF, env: { LANG: "C" } });
        }
      });
    }
    rep.scenario("caller's factory", () => {
      const h = mk("linux", {}, () => true), st = h.state();
      const i = h.instance(st, h.obj(st, { processFactory: V.nat("caller.factory") }, "opts"));
      const res = start(h, st, i);
      for (const r of res) {
        const used = r.ev.some((x) => x.name === "caller.factory"), sp = r.ev.some((x) => x.name === "spawn");
        rep.ob(used && !sp, "caller's factory", used && !sp ? "used, and nothing else is started" : !used ? "the caller's process factory is not used" : "a process is started besides the caller's factory");
      }
      rep.ob(res.length ? true : null, "caller's factory", "explored");
    });
    // constructing an instance or looking at it starts nothing
    rep.scenario("construction", () => {
      const h = mk("linux", {}, () => true), st = h.state();
      const i = h.instance(st, undefined);
      rep.ob(!i.st.events().some((x) => x.name === "spawn"), "construction", "constructing an instance starts no process");
    });
    // interpreter check
    const F = S("/photos/a.jpg"), D = S("/photos/out/b.jpg");
    const ops = [["version", () => []], ["read", () => [F]], ["readRaw", () => [F]], ["write", (st, h) => [F, h.obj(st, { Title: S("x") }, "t")]], ["deleteAllTags", () => [F]], ["extractPreview", () => [F, D]], ["extractBinaryTagToBuffer", () => [S("ThumbnailImage"), F]], ["rewriteAllTags", () => [F, D]], ["editTags", (st, h) => [F, h.arr(st, [h.obj(st, { tag: S("XMP-dc:Subject"), operation: S("add"), value: S("x") }, "e")], "es")]]];
    for (const [op, mkA] of ops) for (const platform of ["linux", "win32"]) for (const chk of [undefined, true, false]) for (const perl of ["default place", "on the path", "missing"]) {
      const name = op + " on " + platform + ", checkPerl " + chk + ", perl " + perl;
      if (platform === "win32" && perl === "on the path") continue;
      rep.scenario(name, () => {
        const h = mk(platform, {}, (x) => (perl === "missing" ? !/perl/.test(x) : perl === "on the path" ? x !== PERL : true));
        const st = h.state();
        const o = { taskRetries: V.num(0), exiftoolPath: S("/opt/et/exiftool") };
        if (chk !== undefined) o.checkPerl = V.bool(chk);
        const i = h.instance(st, h.obj(st, o, "opts"));
        const n0 = i.st.events().length;
        const check = chk === undefined ? platform !== "win32" : chk;
        const must = !(check && perl === "missing");
        let seen = 0;
        for (const q of h.call(h.method(i.v, op, i.st), i.v, mkA(i.st, h), i.st)) {
          const sets = q.thr ? [{ st: q.st, thr: q.thr }] : h.e.awaitV(q.v, q.st, null);
          for (const s of sets) {
            seen++;
            const enq = s.st.events().slice(n0).filter((x) => x.name === "enqueue").length;
            if (must) rep.ob(enq > 0 || (platform === "win32" && s.thr) ? true : false, name, enq > 0 ? "the task is submitted" : "nothing is submitted although " + (check ? "the interpreter is there" : "the check is off"));
            else {
              rep.ob(enq === 0, name, enq ? "a task is submitted although the interpreter check fails" : "nothing is submitted");
              rep.ob(s.thr ? true : false, name, s.thr ? "the call rejects" : "the call resolves although the interpreter check fails");
            }
          }
        }
        rep.ob(seen ? true : null, name, "explored");
        rep.addEngine(h.e);
      });
    }
  },
};

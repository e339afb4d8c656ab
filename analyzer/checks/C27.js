"use strict";
const { H, T, U, V, L, litOf, one, key } = require("../lib/harness");
const S = V.str;
const TMP = "/tmp-of-this-host";
// what ExifTool prints for -listx (attribute order, quotes, line breaks and nesting vary)
const XML = `<?xml version='1.0' encoding='UTF-8'?>
<!-- Generated by Image::ExifTool 13.59 -->
<taginfo>

<table name='AAC::Main' g0='AAC' g1='AAC' g2='Audio'>
 <desc lang='en'>AAC</desc>
 <tag id='Bit016-017' name='ProfileType' type='?' writable='false'>
  <desc lang='en'>Profile Type</desc>
  <desc lang='de'>Profiltyp</desc>
  <desc lang='fr'>Type de profil</desc>
  <desc lang='zh_cn'>\u914d\u7f6e\u7c7b\u578b</desc>
  <values>
   <key id='0'>
    <val lang='en'>Main</val>
    <val lang='fr'>Principal</val>
   </key>
  </values>
 </tag>
 <tag id='1' name='OnlyEnglish' type='?' writable='false'>
  <desc lang='en'>Only English</desc>
 </tag>
</table>

<table name='Exif::Main' g0='EXIF' g1='IFD0' g2='Image'>
 <desc lang='en'>EXIF</desc>
 <tag id='273' name='Preview-Image_2' type='int32u' count='4' writable='true' g1='SubIFD'>
  <desc lang='en'>Bob&#39;s &quot;big&quot; &lt;preview&gt; &amp;amp; R&amp;D &amp;lt;3&apos;</desc>
  <desc lang='fr'>Aper\u00e7u de l&#39;image &amp; autres</desc>
  <desc lang='de'>Gr\u00f6\u00dfe &lt; 3 &gt; 2</desc>
  <desc lang='en_gb'>Colour</desc>
 </tag>
 <tag id='305' name='Regional' type='string' writable='true'>
  <desc lang='en_gb'>Grey</desc>
  <desc lang='en'>Gray</desc>
  <desc lang='fr_ca'>Gris du Canada</desc>
  <desc lang='fr'>Gris</desc>
 </tag>
 <tag id='306' name='Title' type='string' writable='true'>
  <desc lang='en'>Listed Title</desc>
  <desc lang='fr'>Titre</desc>
 </tag>
</table>
</taginfo>
`;
const LISTED = {
  en: { ProfileType: "Profile Type", OnlyEnglish: "Only English", Regional: "Gray", "Preview-Image_2": "Bob's \"big\" <preview> &amp; R&D &lt;3'" },
  fr: { ProfileType: "Type de profil", "Preview-Image_2": "Aper\u00e7u de l'image & autres", Title: "Titre", Regional: "Gris" },
  de: { ProfileType: "Profiltyp", "Preview-Image_2": "Gr\u00f6\u00dfe < 3 > 2" },
  zh_cn: { ProfileType: "\u914d\u7f6e\u7c7b\u578b" },
  en_gb: { Regional: "Grey", "Preview-Image_2": "Colour" },
};
const VERSION = "13.59";
const cacheOf = (version, language, mark) => JSON.stringify({ version, language, generatedAt: "2024-01-01T00:00:00.000Z", descriptions: { ProfileType: { desc: mark + " profile" }, Cached: { desc: mark + " only here" } } });
module.exports = {
  level: "other", floor: 250,
  explain: "Abstract interpretation of every lookup method of TagDescriptions against a modelled file system in which each access succeeds or fails and the cache file is absent, unreadable, well-formed, truncated, malformed or belongs to another version or language, with ExifTool's answers given as text; histories of several instances sharing one cache are followed.",
  rule: "every lookup resolves whatever storage does; its answer is the built-in description (English), else the cached one of this version and language, else the listed text of that language with character references decoded; a stored cache gives the next instance the same answers; with the disk cache off storage is not touched; all accesses stay in the configured directory",
  run(rep, { tier }) {
    // storage: path -> text; faults: set of operations that fail
    const mk = (files, faults, exif = {}) => {
      let h;
      const json = (e, v, st) => {
        v = e.resolve(v, st);
        if (v.k === "s") return litOf(v) !== null ? litOf(v) : undefined;
        if (v.k === "d" || v.k === "b") return v.v;
        if (v.k === "n") return null;
        if (v.k === "y") return "(computed)";
        if (v.k !== "o") return undefined;
        const o = st.get(v.id);
        if (o.segs && o.cls === "Array") { if (!o.segs.every((s) => s.k === "1")) throw 0; return o.segs.map((s) => json(e, s.v, st)); }
        if (o.cls === "Map" || o.cls === "Set") return {};
        const t = {};
        for (const l of o.layers) { if (!(l instanceof Map)) throw 0; for (const [k, q] of l) { if (q.acc) throw 0; const x = json(e, q.v, st); if (x !== undefined) Object.defineProperty(t, k, { value: x, enumerable: true, configurable: true, writable: true }); } }
        return t;
      };
      const hooks = {
        onFs(name, a, st, n, e) {
          const op = name.replace(/Sync$/, ""), sync = name === "exists" || /Sync$/.test(name);
          const pv = e.resolve(e.argAt(a, 0, st), st), p = litOf(pv);
          st.event({ name: "fs", op, path: p, tkey: op });
          const fs = st.extra.fs || files;
          const fail = () => { const er = e.allocErr(st, "Error", S("EACCES: " + op), n, "fs" + op); return sync ? [{ st, thr: er }] : [{ st, v: e.mkPromise(st, "err", er, n, "fs") }]; };
          const good = (v) => [{ st, v: sync ? v : e.mkPromise(st, "ok", v, n, "fs") }];
          if (op === "exists") return good(V.bool(p !== null && !faults.has("invisible") && (Object.prototype.hasOwnProperty.call(fs, p) || Object.keys(fs).some((x) => x.startsWith(p + "/")))));
          if (faults.has(op) || (faults.has("invisible") && /^(?:readFile|access|l?stat|open|rename|unlink|rm)$/.test(op)) || (p === null && op !== "mkdir")) return fail();
          if (op === "readFile") { const t = fs[p]; if (t === undefined) return fail(); return good(typeof t === "string" ? S(t) : t); }
          if (op === "access" || op === "stat" || op === "lstat") return fs[p] === undefined ? fail() : good(op === "access" ? U : e.opaque("stat", [], { ty: T.O, tr: true }));
          if (op === "writeFile") {
            if (faults.has("truncate")) { st.extra = { ...st.extra, fs: { ...fs, [p]: String(litOf(e.resolve(e.argAt(a, 1, st), st))).slice(0, 40) } }; return fail(); }
            st.extra = { ...st.extra, fs: { ...fs, [p]: litOf(e.resolve(e.argAt(a, 1, st), st)) ?? e.resolve(e.argAt(a, 1, st), st) } }; return good(U);
          }
          if (op === "rename") { const q = litOf(e.resolve(e.argAt(a, 1, st), st)); const m = { ...fs }; if (m[p] === undefined) return fail(); m[q] = m[p]; delete m[p]; st.extra = { ...st.extra, fs: m }; return good(U); }
          if (op === "unlink" || op === "rm") { const m = { ...fs }; delete m[p]; st.extra = { ...st.extra, fs: m }; return good(U); }
          return good(U);
        },
        onJsonStringify(v, a, st) { try { const t = json(h.e, v, st); const ind = a.length > 2 ? h.e.resolve(h.e.argAt(a, 2, st), st) : U; return [{ st, v: S(JSON.stringify(t, null, ind.k === "d" ? ind.v : undefined)) }]; } catch { return null; } },
        onEnqueue(task, st, n) {
          const e = h.e, o = st.get(task.id), cls = o.ctor !== undefined ? st.get(o.ctor).name : "", ver = st.extra.version || VERSION;
          const cmds = e.getProp(task, "command", st, n), c = cmds.length === 1 ? litOf(e.resolve(cmds[0].v, st)) : null;
          const kind = /-listx/.test(c || "") ? "list" : /-ver/.test(c || "") ? "version" : cls;
          st.event({ name: "asked", what: kind, tkey: kind });
          const fx = st.extra.exif || exif;
          if (fx[kind] === "fail") return [{ st, v: e.mkPromise(st, "err", e.allocErr(st, "Error", S("exiftool is gone"), n, "gone"), n, "gone") }];
          // a command that asks for neither prints nothing
          const out = kind === "version" ? ver : kind === "list" || c === null ? fx.xml || XML : "";
          return e.seq(e.getProp(task, "parser", st, n), (st, p) => e.call(p, task, [S(out), S(""), V.TRUE].map(one), st, n).map((q) => ({ st: q.st, v: q.thr ? e.mkPromise(q.st, "err", q.thr, n, "served") : e.mkPromise(q.st, "ok", q.v, n, "served") })));
        },
      };
      h = new H({ root: rep.repo, files: ["src/ExifTool.ts", "src/TagDescriptions.ts"], hooks, tmpdir: TMP, maxMs: 60000, localBudget: 400000 });
      return h;
    };
    const create = (h, st, opts) => {
      const i = h.instance(st, h.obj(st, { taskRetries: V.num(0), checkPerl: V.FALSE }, "inst"));
      const C = h.exported("src/TagDescriptions.ts", "TagDescriptions", i.st);
      const o = {};
      for (const [k, v] of Object.entries(opts)) o[k] = typeof v === "boolean" ? V.bool(v) : S(v);
      const r = h.e.construct(C, [one(i.v), ...(Object.keys(o).length ? [one(h.obj(i.st, o, "o"))] : [])], i.st, null);
      if (r.length !== 1 || r[0].thr) throw new h.e.constructor.Undecided("constructor");
      return r[0];
    };
    const call = (h, t, m, args, st) => h.call(h.method(t, m, st), t, args, st).flatMap((o) => (o.thr ? [o] : h.e.awaitV(o.v, o.st, null)));
    const descOf = (h, v, st) => {
      v = h.e.resolve(v, st);
      if (v.k === "u") return undefined;
      if (v.k === "n") return null;
      const d = h.e.getProp(v, "desc", st, null);
      return d.length === 1 && !d[0].thr ? litOf(h.e.resolve(d[0].v, st)) ?? { abstract: true } : { abstract: true };
    };
    const curated = (h, st, lang, tag) => {
      if (lang !== "en") return undefined;
      return tag === "Title" ? /Dublin Core/ : undefined;
    };
    // judge a lookup result
    const judge = (name, h, r, tag, want) => {
      if (r.thr) { rep.ob(r.st.impr.size ? null : false, name, "the lookup of " + tag + " fails: " + h.e.show(r.thr, r.st)); return; }
      const d = descOf(h, r.v, r.st);
      if (d && d.abstract) { rep.ob(null, name, "answer not known"); return; }
      const good = want instanceof RegExp ? typeof d === "string" && want.test(d) : d === want;
      rep.ob(good, name, good ? tag + " -> " + JSON.stringify(d === undefined ? null : String(d).slice(0, 30)) : "the lookup of " + tag + " answers " + (d === undefined ? "nothing" : JSON.stringify(d)) + " instead of " + (want === undefined ? "nothing" : want instanceof RegExp ? "the built-in description" : JSON.stringify(want)));
    };
    const TAGS = ["ProfileType", "OnlyEnglish", "Preview-Image_2", "Regional", "Title", "Cached", "NoSuchTag", "constructor"];
    const wanted = (lang, tag, cached) => (lang === "en" && tag === "Title" ? /Dublin Core/ : cached ? new Map([["ProfileType", cached + " profile"], ["Cached", cached + " only here"]]).get(tag) : Object.prototype.hasOwnProperty.call(LISTED[lang] || {}, tag) ? LISTED[lang][tag] : undefined);
    const file = (lang, version = VERSION, dir = TMP + "/exiftool-vendored") => dir + "/tag-descriptions-" + version + "-" + lang + ".json";
    // where the cache for a language is kept is learned from the code itself
    const learned = new Map();
    const where = (lang, dir) => {
      const k = lang + "|" + (dir || "");
      if (!learned.has(k)) {
        const h = mk({}, new Set()), t = create(h, h.state(), { language: lang, ...(dir ? { cacheDir: dir } : {}) });
        let f = null;
        for (const r of call(h, t.v, "preload", [], t.st)) for (const p of Object.keys(r.st.extra.fs || {})) f = p;
        learned.set(k, f);
      }
      return learned.get(k);
    };
    const contents = (lang) => [
      ["no cache", undefined], ["own cache", cacheOf(VERSION, lang, "OWN"), "OWN"],
      ["another version's cache", cacheOf("13.58", lang, "OLD")], ["a shorter version's cache", cacheOf("13.5", lang, "OLD")], ["a cache of an empty version", cacheOf("", lang, "OLD")], ["a cache of an empty language", cacheOf(VERSION, "", "OLD")], ["a longer version's cache", cacheOf(VERSION + "1", lang, "OLD")], ["another language's cache", cacheOf(VERSION, lang === "fr" ? "en" : "fr", "OTHER")], ["a cache of a regional variant", cacheOf(VERSION, lang + "_x", "OTHER")],
      ["an empty file", ""], ["a truncated cache", cacheOf(VERSION, lang, "CUT").slice(0, 60)], ["null", "null"], ["a list", "[]"], ["a number", "42"], ["text", '"x"'], ["an empty object", "{}"],
      ["a cache without descriptions", JSON.stringify({ version: VERSION, language: lang })], ["a cache with null descriptions", JSON.stringify({ version: VERSION, language: lang, descriptions: null })], ["binary garbage", "\u0000\u0001\ufffd{"],
      ["a cache without version", JSON.stringify({ language: lang, descriptions: { ProfileType: { desc: "NOVER" } } })], ["a cache without language", JSON.stringify({ version: VERSION, descriptions: { ProfileType: { desc: "NOLANG" } } })],
    ];
    const faultSets = [[], ["readFile"], ["mkdir"], ["writeFile"], ["readFile", "mkdir", "writeFile"], ["invisible", "mkdir", "writeFile"], ["truncate"]];
    const langs = ["en", "fr", ...(tier === "thorough" ? ["de", "zh_cn", "en_gb"] : [])];
    for (const lang of langs) for (const [cn, text, own] of contents(lang)) for (const fl of faultSets) {
      if (fl.length && !["no cache", "own cache", "a truncated cache", "another version's cache"].includes(cn)) continue;
      const name = "lookup in " + lang + ", " + cn + (fl.length ? ", failing: " + fl.join(" ") : "");
      rep.scenario(name, () => {
        const f = where(lang);
        if (f === null) { rep.ob(null, name, "no cache file is written"); return; }
        const files = text === undefined ? {} : { [f]: text };
        const readable = own && !fl.includes("readFile") && !fl.includes("invisible");
        const h = mk(files, new Set(fl));
        rep.count("storage_histories");
        for (const tag of TAGS) {
          const t = create(h, h.state(), lang === "en" ? {} : { language: lang });
          for (const r of call(h, t.v, "getAsync", [S(tag)], t.st)) judge(name, h, r, tag, wanted(lang, tag, readable ? own : null));
        }
        // preload, then synchronous lookups
        const t = create(h, h.state(), { language: lang });
        for (const r of call(h, t.v, "preload", [], t.st)) {
          if (r.thr) { rep.ob(false, name, "preload fails: " + h.e.show(r.thr, r.st)); continue; }
          for (const tag of TAGS) for (const g of h.call(h.method(t.v, "get", r.st), t.v, [S(tag)], r.st.clone())) judge(name + ", preloaded", h, g, tag, wanted(lang, tag, readable ? own : null));
          const l = h.e.getProp(t.v, "isLoaded", r.st.clone(), null)[0], lv = l && !l.thr && h.e.resolve(l.v, l.st);
          rep.ob(lv && lv.k === "b" ? lv.v === true : null, name, "reported as loaded");
          const sz = h.e.getProp(t.v, "size", r.st.clone(), null)[0], sv = sz && !sz.thr && h.e.resolve(sz.v, sz.st);
          rep.ob(sv && sv.k === "d" ? sv.v > 0 : null, name, "the number of descriptions is positive");
        }
        const t2 = create(h, h.state(), { language: lang });
        for (const r of call(h, t2.v, "getAll", [], t2.st)) {
          if (r.thr) { rep.ob(false, name, "getAll fails: " + h.e.show(r.thr, r.st)); continue; }
          for (const tag of TAGS) {
            if (readable && lang === "en" && tag === "Title") continue; // what an earlier run stored
            for (const g of h.call(h.method(r.v, "get", r.st), r.v, [S(tag)], r.st.clone())) judge(name + ", getAll", h, g, tag, wanted(lang, tag, readable ? own : null));
          }
        }
        rep.addEngine(h.e);
      });
    }
    // any content at all
    for (const lang of ["en", "fr"]) rep.scenario("lookup in " + lang + ", any cache content", () => {
      const name = "lookup in " + lang + ", any cache content";
      const f = where(lang);
      if (f === null) { rep.ob(null, name, "no cache file is written"); return; }
      const h0 = mk({}, new Set());
      const files = {};
      const h = mk(files, new Set());
      void h0;
      files[f] = h.sym("CONTENT", T.S);
      for (const tag of ["ProfileType", "Title"]) {
        const t = create(h, h.state(), { language: lang });
        for (const r of call(h, t.v, "getAsync", [S(tag)], t.st)) rep.ob(!r.thr ? true : r.st.impr.size ? null : false, name, r.thr ? "the lookup fails: " + h.e.show(r.thr, r.st) : "the lookup returns");
      }
      rep.addEngine(h.e);
    });
    // a cache written by one instance serves the next one, also when ExifTool cannot list any more
    for (const lang of Object.keys(LISTED)) for (const dir of [undefined, "/var/cache/mine"]) {
      const name = "stored and read back, " + lang + (dir ? ", own directory" : "");
      rep.scenario(name, () => {
        const h = mk({}, new Set());
        const o = { language: lang, ...(dir ? { cacheDir: dir } : {}) };
        const t = create(h, h.state(), o);
        for (const r of call(h, t.v, "preload", [], t.st)) {
          if (r.thr) { rep.ob(false, name, "preload fails: " + h.e.show(r.thr, r.st)); continue; }
          const fs = r.st.extra.fs || {}, names = Object.keys(fs);
          rep.ob(names.length ? true : false, name, names.length ? "stored" : "nothing is stored although the disk cache is on");
          const D = dir || TMP + "/exiftool-vendored";
          const out = r.st.events().filter((x) => x.name === "fs" && x.path !== null && !(x.path === D || x.path.startsWith(D + "/") || (x.op === "exists" && D.startsWith(x.path))));
          rep.ob(!out.length, name, out.length ? "storage outside the cache directory is accessed: " + out[0].op + " " + out[0].path : "all accesses in the cache directory");
          for (const n of names) { let x; try { x = JSON.parse(fs[n]); } catch { x = null; } rep.ob(typeof fs[n] !== "string" ? null : x !== null, name, x === null ? "the stored cache cannot be parsed" : "the stored cache is well-formed"); }
          // next instance; listing no longer possible
          const s2 = r.st; s2.extra = { ...s2.extra, exif: { list: "fail" } };
          h.phase("second", () => {
            const t2 = create(h, s2, o);
            for (const tag of TAGS) for (const q of call(h, t2.v, "getAsync", [S(tag)], t2.st.clone())) judge(name + ", next instance", h, q, tag, wanted(lang, tag, null));
            // another version or language does not use it
            const s3 = t2.st.clone(); s3.extra = { ...s3.extra, version: "13.60", exif: {} };
            h.phase("third", () => {
              const XO = XML.replace(/Profil(e Type|typ)|Type de profil/g, (m) => m + " NEW").replace(/<desc lang='zh_cn'>/, "$&NEW ");
              s3.extra = { ...s3.extra, exif: { xml: XO } };
              const t3 = create(h, s3, o);
              for (const q of call(h, t3.v, "getAsync", [S("ProfileType")], t3.st)) {
                const w = LISTED[lang].ProfileType;
                judge(name + ", after an upgrade", h, q, "ProfileType", w === undefined ? undefined : lang === "zh_cn" ? "NEW " + w : w + " NEW");
              }
            });
          });
        }
        rep.addEngine(h.e);
      });
    }
    for (const [a, b] of [["en", "fr"], ["fr", "en"], ["en", "en_gb"], ["de", "fr"]]) rep.scenario("cache of " + a + " seen from " + b, () => {
      const name = "cache of " + a + " seen from " + b, h = mk({}, new Set());
      const t = create(h, h.state(), { language: a });
      for (const r of call(h, t.v, "preload", [], t.st)) if (!r.thr) h.phase("other", () => {
        const t2 = create(h, r.st, { language: b });
        for (const tag of TAGS) for (const q of call(h, t2.v, "getAsync", [S(tag)], t2.st.clone())) judge(name, h, q, tag, wanted(b, tag, null));
      });
    });
    // no disk cache
    for (const lang of ["en", "fr"]) rep.scenario("disk cache off, " + lang, () => {
      const name = "disk cache off, " + lang, f = where(lang);
      const h = mk(f ? { [f]: cacheOf(VERSION, lang, "OWN") } : {}, new Set());
      const t = create(h, h.state(), { language: lang, disableDiskCache: true });
      for (const tag of TAGS) for (const r of call(h, t.v, "getAsync", [S(tag)], t.st.clone())) {
        judge(name, h, r, tag, wanted(lang, tag, null));
        const acc = r.st.events().filter((x) => x.name === "fs");
        rep.ob(!acc.length, name, acc.length ? "storage is accessed (" + acc[0].op + " " + acc[0].path + ") although the disk cache is off" : "storage is not touched");
      }
    });
    // before loading, after clearing; built-in descriptions without ExifTool
    for (const lang of ["en", "fr"]) rep.scenario("loading and clearing, " + lang, () => {
      const name = "loading and clearing, " + lang, h = mk({}, new Set());
      const t = create(h, h.state(), { language: lang });
      const sync = (st, tag, want, w) => { for (const g of h.call(h.method(t.v, "get", st), t.v, [S(tag)], st.clone())) judge(name + ", " + w, h, g, tag, want); };
      const loaded = (st, want, w) => { const l = h.e.getProp(t.v, "isLoaded", st.clone(), null)[0], v = l && !l.thr && h.e.resolve(l.v, l.st); rep.ob(v && v.k === "b" ? v.v === want : null, name + ", " + w, "isLoaded is " + want); };
      loaded(t.st, false, "before"); sync(t.st, "ProfileType", undefined, "before"); sync(t.st, "Title", lang === "en" ? /Dublin Core/ : undefined, "before");
      for (const r of call(h, t.v, "preload", [], t.st)) {
        if (r.thr) continue;
        loaded(r.st, true, "after loading"); sync(r.st, "ProfileType", LISTED[lang].ProfileType, "after loading");
        for (const c of h.call(h.method(t.v, "clear", r.st), t.v, [], r.st)) {
          if (c.thr) { rep.ob(false, name, "clear fails"); continue; }
          loaded(c.st, false, "after clearing"); sync(c.st, "ProfileType", undefined, "after clearing");
          h.phase("again", () => { for (const q of call(h, t.v, "getAsync", [S("ProfileType")], c.st)) { judge(name + ", loaded again", h, q, "ProfileType", LISTED[lang].ProfileType); if (!q.thr) loaded(q.st, true, "loaded again"); } });
        }
      }
    });
    rep.scenario("built-in description without ExifTool", () => {
      const name = "built-in description without ExifTool", h = mk({}, new Set(["readFile", "mkdir", "writeFile"]), { version: "fail", list: "fail" });
      const t = create(h, h.state(), {});
      for (const r of call(h, t.v, "getAsync", [S("Title")], t.st)) judge(name, h, r, "Title", /Dublin Core/);
    });
  },
};

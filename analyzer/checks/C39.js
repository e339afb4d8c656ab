"use strict";
const { H, T, U, V, L, litOf, key } = require("../lib/harness");
const { feasible, evalParts, htmlDecode, Unknown, Infeasible } = require("../lib/evalsym");
const S = V.str, N = V.num;
const FILE = "/p/a.jpg";
// what a value looks like on the wire, when it is a plain one
const enc = (v) => (v === null || v === undefined ? "" : v === true ? "True" : v === false ? "False" : String(v));
const ADDS = ["XMP-dc:Subject", "XMP-lr:HierarchicalSubject", "IPTC:Keywords"];
module.exports = {
  level: "other", floor: 300,
  explain: "Abstract interpretation of every modifying operation with requests of each shape (numbers, order and kinds of tags; positions with each combination of number, text, null and absent for value and reference; lists of edits; retained tags), with unknown texts as values; all arguments of the submitted command that assign, clear, add, remove or copy are collected and compared with the request.",
  rule: "write: one assignment per tag of the request, in its order, no other, except that a numeric or cleared latitude, longitude or altitude brings its reference along (the same number, or cleared) unless the request names the reference itself, and two numeric coordinates bring their position; exact edits: one argument per edit, in order, and a request that removes a text it added before is refused; delete-all: everything is cleared once and each retained tag copied back, in order; rewriting copies everything back; reading asks numerically for each numeric tag once, before asking for all",
  run(rep, { tier }) {
    const assigns = (h, w) => w.lines.filter((l, i) => { const f = typeof l.p[0] === "string" ? l.p[0] : ""; const prev = i ? h.lit(w.lines[i - 1]) : null; return prev !== "-api" && prev !== "-sep" && /^-[^=<]*(?:=|<|$)/.test(f) && (l.p.length > 1 || /[=<]/.test(f)); });
    // the text of one argument with a fixed word for each unknown text
    const WORDS = new Map([["V1", "Wone"], ["V2", "Wtwo"], ["V3", "Wthree"]]);
    const shown = (h, w, l) => { try { return htmlDecode(evalParts(h, l.p, w.st, WORDS)); } catch (e) { if (e instanceof Unknown) return null; if (e instanceof Infeasible) return undefined; throw e; } };
    const sent = (h, w) => assigns(h, w).map((l) => shown(h, w, l)).filter((x) => x === null || x === undefined || !/^-FileName<FileName$/i.test(x));
    const soft = (h, w, got) => w.st.impr.size > 0 || w.lines.some((l) => l.star) || got.includes(null);
    const wireIs = (name, op, mk, want, { refuse, instOpts, companions } = {}) => rep.scenario(op + " " + name, () => {
      const h = new H({ root: rep.repo });
      const r = h.api(op, mk, { instOpts });
      rep.addEngine(h.e);
      const where = op + " " + name;
      if (refuse) { rep.ob(r.tasks.length === 0 ? true : [...r.tasks].every((t) => t.st.impr.size) ? null : false, where, r.tasks.length ? "is sent although it must be refused" : "is refused"); return; }
      rep.ob(r.tasks.length ? true : r.outs.every((o) => o.kind !== "pending") && r.outs.length && r.outs.every((o) => !o.st.impr.size) ? false : null, where, r.tasks.length ? "is sent" : "a valid request is not sent");
      for (const t of r.tasks) for (const w of h.wires(t)) {
        if (w.bad) { rep.ob(null, where, "command"); continue; }
        if (!feasible(h, w.st, WORDS)) continue; // another branch serves these words
        rep.count("commands");
        const got = sent(h, w), exp = want(h);
        if (got.includes(undefined)) continue; // another branch serves these words
        // companions may come anywhere, the caller's own tags keep their order
        const comp = (x) => companions && /^-GPS(?:LatitudeRef|LongitudeRef|AltitudeRef|Position)=/.test(x || "");
        const ok = JSON.stringify([...got].sort()) === JSON.stringify([...exp].sort()) && JSON.stringify(got.filter((x) => !comp(x))) === JSON.stringify(exp.filter((x) => !comp(x)));
        rep.ob(ok ? true : soft(h, w, got) ? null : false, where, ok ? "sends " + JSON.stringify(got) : "sends " + JSON.stringify(got) + " instead of " + JSON.stringify(exp.map(String)));
      }
    });
    const val = (h, st, v) => (v === undefined ? U : v === null ? V.NULL : typeof v === "string" ? S(v) : typeof v === "number" ? N(v) : typeof v === "boolean" ? V.bool(v) : Array.isArray(v) ? h.arr(st, v.map((x) => val(h, st, x)), "l" + key(val(h, st, v[0] ?? ""))) : v(h, st));
    const text = (n) => { const f = (h, st) => { const s = h.sym(n, T.S); h.e.refine(st, s.id, { ty: T.S, lang: L.reExact("[a-zA-Z0-9]{1,12}") }); return s; }; f.sym = n; return f; };
    const exp = (o) => Object.entries(o).map(([k, v]) => ("-" + k + "=" + (Array.isArray(v) ? v.map(enc).join("\x1f") : typeof v === "function" ? WORDS.get(v.sym) : enc(v))));
    const write = (name, tags, want, o = {}) => wireIs(name, "write", (st, h) => [S(FILE), h.obj(st, Object.fromEntries(Object.entries(tags).map(([k, v]) => [k, val(h, st, v)])), "tags"), ...(o.opts ? [h.obj(st, o.opts(h, st), "o")] : [])], () => exp(want || tags), { companions: !!want, ...o });
    // dates and times: the text ExifTool writes and reads them as
    const mkDate = (h, st, d) => {
      const C = h.exported("src/ExifTool.ts", d[0], st);
      const rs = h.call(h.method(C, d[1], st), C, [S(d[2])], st);
      return rs.length === 1 && !rs[0].thr && rs[0].v.k === "o" && !rs[0].st.impr.size ? rs[0] : null;
    };
    const PLACES = { alone: [(v) => v, (t) => t], "in a list": [(v, h, st) => h.arr(st, [S("x"), v], "dl"), (t) => "[x," + t + "]"], "in a structure": [(v, h, st) => h.obj(st, { Field: v, Other: N(1) }, "ds"), (t) => "{Field=" + t + ",Other=1}"], "deep in a structure": [(v, h, st) => h.obj(st, { List: h.arr(st, [h.obj(st, { When: v }, "d1")], "d2") }, "d3"), (t) => "{List=[{When=" + t + "}]}"] };
    for (const d of [
      ...["2024:07:04 10:11:12", "2024:07:04 10:11:12+02:00", "1999:12:31 23:59:59.123-03:30", "2024:01:01 00:00:00Z", "1970:01:01 00:00:00.5", "2010:10:09 08:07:06.050+05:45"].map((t) => ["ExifDateTime", "fromEXIF", t]),
      ...["2024:07:04", "1999:12:31", "2024:07", "2024"].map((t) => ["ExifDate", "from", t]),
      ...["10:11:12", "23:59:59.25", "00:00:00", "08:07:06+02:00", "08:07:06.5-03:30"].map((t) => ["ExifTime", "fromEXIF", t]),
      ...["2024-07-04T10:11:12+02:00", "1999-12-31T23:59:59.250-03:30"].map((t) => ["DateTime", "", t]),
    ]) for (const [pn, [place, show]] of Object.entries(PLACES)) rep.scenario("write of " + d + " " + pn, () => {
      const where = "write of " + d[0] + " " + d[2] + " " + pn, h = new H({ root: rep.repo, luxon: true });
      rep.addEngine(h.e);
      const i = h.instance(h.state());
      let b;
      if (d[0] === "DateTime") { const m = /^(\d+)-(\d+)-(\d+)T(\d+):(\d+):([\d.]+)([+-])(\d\d):(\d\d)$/.exec(d[2]); const f = h.obj(i.st, { year: N(+m[1]), month: N(+m[2]), day: N(+m[3]), hour: N(+m[4]), minute: N(+m[5]), second: N(Math.floor(+m[6])), millisecond: N(Math.round(+m[6] * 1000) % 1000) }, "lf"); const z = "UTC" + m[7] + +m[8] + (+m[9] ? ":" + m[9] : ""); b = h.call(V.nat("luxon.DateTime.fromObject"), U, [f, h.obj(i.st, { zone: S(z) }, "lz")], i.st)[0]; }
      else b = mkDate(h, i.st, d);
      if (!b || b.thr) { rep.ob(null, where, "no value"); return; }
      const n0 = h.enq.length;
      const v = place(b.v, h, b.st);
      const outs = h.settle(h.call(h.method(i.v, "write", b.st), i.v, [S(FILE), h.obj(b.st, { CreateDate: v }, "tags")], b.st));
      const tasks = h.enq.slice(n0);
      if (!tasks.length) { rep.ob(outs.length && outs.every((x) => !x.st.impr.size && x.kind === "err") ? false : null, where, "a valid request is refused"); return; }
      const t0 = d[2].replace(/^(\d+)-(\d+)-(\d+)T/, "$1:$2:$3 ");
      // the same instant or time, sub-seconds and offset: digits may be padded, Z is +00:00
      const norm = (t) => t.replace(/Z$/, "+00:00").replace(/\.(\d+)/, (_, x) => (x.replace(/0+$/, "") ? "." + x.replace(/0+$/, "") : ""));
      for (const t of tasks) for (const w of h.wires(t)) {
        if (w.bad) { rep.ob(null, where, "command"); continue; }
        rep.count("commands");
        const got = sent(h, w), l = got.length === 1 ? got[0] : null, pre = "-CreateDate=" + show("\0").split("\0")[0], post = show("\0").split("\0")[1];
        const mid = l && l.startsWith(pre) && l.endsWith(post) && l.length >= pre.length + post.length ? l.slice(pre.length, l.length - post.length) : null;
        const sec = (x) => (d[0] === "DateTime" ? x.replace(/\.\d+/, "") : x); // a luxon value is written to the second
        const ok = mid !== null && sec(norm(mid)) === sec(norm(t0));
        rep.ob(ok ? true : soft(h, w, got) ? null : false, where, "sends " + JSON.stringify(got) + (ok ? "" : " instead of " + pre + t0 + post));
      }
    });
    // plain requests
    const V1 = text("V1"), V2 = text("V2"), V3 = text("V3");
    write("of one tag", { Title: V1 });
    write("of two tags", { Title: V1, Comment: V2 });
    write("of three tags", { Comment: V1, Title: V2, Artist: V3 });
    write("with a repeated value", { Title: V1, Comment: V1 });
    write("of every kind", { Title: "x", Rating: 4, Flag: true, Off: false, Gone: null, Keywords: ["a", "b"], Caption: V1, Zero: 0, Neg: -1.5, Empty: "" });
    write("with groups", { "XMP:Title": V1, "EXIF:Artist": V2, "IPTC:Keywords": ["a"] });
    write("of names that differ in case", { title: V1, Title: V2 });
    write("of the same tag in two groups", { "XMP:Title": V1, "IPTC:Title": V2, Title: V3 });
    write("of names like built-in members", { constructor: V1, toString: V2, valueOf: V3 });
    write("that clears", { Title: null, Comment: null, Artist: "x" });
    write("of undefined values", { Title: undefined, Comment: "x" }, { Title: null, Comment: "x" });
    write("of wildcards", { "GPS*": null, "all": null });
    write("with appended and removed items", { "Keywords+": "a", "Subject-": "b" });
    write("with numeric modifiers", { "Orientation#": 6, "Rating#": 5 });
    write("of integer-like names", { Title: V1, "2": V2 }, { "2": V2, Title: V1 });
    for (let n = 0; n < (tier === "thorough" ? 40 : 12); n++) write("of " + n + " tags", Object.fromEntries(Array.from({ length: n }, (_, i) => ["Tag" + i, i % 3 ? "v" + i : i])), n ? undefined : undefined, n === 0 ? { empty: true } : {});
    // positions
    const cases = [["absent"], ["number", 12.5], ["negative", -33.25], ["zero", 0], ["negative zero", -0], ["cleared", null], ["text", "12.5 N"], ["numeric text", "12.5"]];
    const refs = [["absent"], ["given", "S"], ["cleared", null], ["number", 1]];
    const one = (tag, ref) => { for (const c of cases) for (const r of refs) {
      const t = {}, w = {};
      if (c.length > 1) t[tag] = w[tag] = c[1];
      if (r.length > 1) t[ref] = r[1];
      const num = typeof c[1] === "number" && c.length > 1, clr = c.length > 1 && c[1] === null;
      if (r.length > 1) w[ref] = r[1];
      if ((num || clr) && (r.length === 1 || r[1] === null)) w[ref] = c[1];
      if (!Object.keys(t).length) continue;
      write(tag + " " + c[0] + ", reference " + r[0], t, w);
      if (tier === "thorough" || r[0] !== "number") write(tag + " " + c[0] + ", reference " + r[0] + ", between others", { Title: V1, ...t, Comment: V2 }, Object.keys(t).includes(ref) || w[ref] === undefined ? { Title: V1, ...w, Comment: V2 } : { Title: V1, [tag]: w[tag], Comment: V2, [ref]: w[ref] });
    } };
    one("GPSLatitude", "GPSLatitudeRef"); one("GPSLongitude", "GPSLongitudeRef"); one("GPSAltitude", "GPSAltitudeRef");
    const zs = (x) => (Object.is(x, -0) ? 0 : x);
    for (const la of cases) for (const lo of cases) for (const al of [["absent"], ["number", 100.5], ["cleared", null]]) {
      if (tier !== "thorough" && al.length > 1 && (la[0] !== "number" || lo.length < 2)) continue;
      const t = {}, w = {}, late = {};
      for (const [k, c] of [["GPSLatitude", la], ["GPSLongitude", lo], ["GPSAltitude", al]]) if (c.length > 1) t[k] = w[k] = c[1];
      if (!Object.keys(t).length) continue;
      const comp = (k, c) => { if (c.length > 1 && (typeof c[1] === "number" || c[1] === null)) late[k + "Ref"] = c[1]; };
      comp("GPSLatitude", la); comp("GPSLongitude", lo);
      if (typeof la[1] === "number" && typeof lo[1] === "number") late.GPSPosition = zs(la[1]) + "," + zs(lo[1]);
      comp("GPSAltitude", al);
      write("position " + la[0] + " / " + lo[0] + " / " + al[0], t, { ...w, ...late }, { any: true });
    }
    write("of a position and its own GPSPosition", { GPSPosition: "1, 2", GPSLatitude: 3, GPSLongitude: 4 }, { GPSPosition: "3,4", GPSLatitude: 3, GPSLongitude: 4, GPSLatitudeRef: 3, GPSLongitudeRef: 4 });
    write("of an undefined latitude", { GPSLatitude: undefined, Title: "x" }, { GPSLatitude: null, Title: "x" });
    write("of undefined coordinates", { GPSLongitude: undefined, GPSAltitude: undefined }, { GPSLongitude: null, GPSAltitude: null });
    write("of a position text", { GPSPosition: "1, 2" });
    write("of other position tags", { GPSImgDirection: 90, GPSSpeed: 3, GPSDestLatitude: -3 });
    // edits
    const edit = (st, h, es) => [S(FILE), h.arr(st, es.map((e, i) => h.obj(st, { tag: S(e[1]), operation: S(e[0]), ...(typeof e[2] === "object" && e[2] !== null ? { [e[0] === "add" ? "value" : "predicate"]: h.obj(st, Object.fromEntries(Object.entries(e[2]).map(([k, v]) => [k, S(v)])), "c" + i) } : { value: typeof e[2] === "function" ? e[2](h, st) : S(e[2]) }) }, "e" + i)), "es")];
    const EX = (es) => es.map((e) => { const p = "-" + e[1] + (e[0] === "add" ? "+" : "-") + "="; return typeof e[2] === "function" ? p + WORDS.get(e[2].sym) : typeof e[2] === "object" ? p + "{" + Object.entries(e[2]).map(([k, v]) => k + "=" + v).join(",") + "}" : p + e[2]; });
    const edits = (name, es, o) => wireIs(name, "editTags", (st, h) => edit(st, h, es), () => EX(es), o);
    const K = "XMP-dc:Subject", K2 = "IPTC:Keywords", C = "XMP-mwg-coll:Collections";
    edits("of one addition", [["add", K, V1]]); edits("of one removal", [["remove", K, V1]]);
    edits("of two additions", [["add", K, "a"], ["add", K, "b"]]);
    edits("of a repeated addition", [["add", K, "a"], ["add", K, "a"]]);
    edits("of a removal and an addition of one text", [["remove", K, "a"], ["add", K, "a"]]);
    edits("of an addition and a removal of different texts", [["add", K, "a"], ["remove", K, "b"]]);
    edits("of an addition and a removal of texts that differ in case", [["add", K, "a"], ["remove", K, "A"]]);
    edits("of an addition and a removal of a longer text", [["add", K, "a"], ["remove", K, "ab"]]);
    edits("of one text in two tags", [["add", K, "a"], ["remove", K2, "a"]]);
    edits("in the given order", [["add", K, "b"], ["remove", K2, "z"], ["add", K, "a"], ["remove", K, "c"], ["add", K2, "y"]]);
    edits("of unknown texts in two tags", [["add", K, V1], ["remove", K2, V2], ["add", K2, V3]]);
    edits("adding and then removing one text", [["add", K, "a"], ["remove", K, "a"]], { refuse: true });
    edits("adding and then removing one unknown text", [["add", K, V1], ["remove", K, V1]], { refuse: true });
    edits("adding and then removing one text with others between", [["add", K2, "a"], ["add", K, "a"], ["add", K, "b"], ["remove", K2, "b"], ["remove", K, "a"]], { refuse: true });
    edits("adding and then removing one text, names in different case", [["add", K, "a"], ["remove", K.toLowerCase(), "a"]], { refuse: true });
    edits("adding twice and then removing", [["add", K, "b"], ["add", K, "a"], ["remove", K, "b"]], { refuse: true });
    edits("removing, adding and removing again", [["remove", K, "a"], ["add", K, "a"], ["remove", K, "a"]], { refuse: true });
    const c1 = { CollectionName: "n", CollectionURI: "u" };
    edits("of a collection", [["add", C, c1]]);
    edits("of a removed collection", [["remove", C, { CollectionName: "n" }]]);
    edits("of a collection and the removal of another", [["add", C, c1], ["remove", C, { CollectionName: "m" }]]);
    edits("of a collection and the removal of another with the same name", [["add", C, c1], ["remove", C, { CollectionName: "n", CollectionURI: "v" }]]);
    edits("of a collection removed before", [["remove", C, { CollectionURI: "u" }], ["add", C, c1]]);
    for (const p of [{ CollectionName: "n" }, { CollectionURI: "u" }, c1, { CollectionURI: "u", CollectionName: "n" }]) edits("adding a collection and then removing " + Object.keys(p).join(" and "), [["add", C, c1], ["remove", C, p]], { refuse: true });
    for (let n = 1; n < 7; n++) edits("of " + n + " edits", Array.from({ length: n }, (_, i) => [i % 3 === 2 ? "remove" : "add", i % 2 ? K : K2, "v" + i]));
    // delete all
    const del = (name, keep, o) => wireIs(name, "deleteAllTags", (st, h) => [S(FILE), ...(keep ? [h.obj(st, { retain: h.arr(st, keep.map((k) => S(k)), "k") }, "o")] : [])], () => ["-all=", ...(keep || []).map((k) => "-" + k + "<" + k)], o);
    const delq = (name, keep) => rep.scenario("deleteAllTags " + name, () => {
      const h = new H({ root: rep.repo }), r = h.api("deleteAllTags", (st) => [S(FILE), ...(keep ? [h.obj(st, { retain: h.arr(st, keep.map((k) => S(k)), "k") }, "o")] : [])]);
      rep.addEngine(h.e);
      rep.ob(r.tasks.length ? true : false, "deleteAllTags " + name, r.tasks.length ? "is sent" : "is not sent");
      for (const t of r.tasks) for (const w of h.wires(t)) {
        const got = w.bad ? [] : sent(h, w), want = ["-all=", ...(keep || []).map((k) => "-" + k + "<" + k)];
        const ok = JSON.stringify(got) === JSON.stringify(want);
        rep.ob(ok ? true : w.bad || soft(h, w, got) ? null : false, "deleteAllTags " + name, ok ? "sends " + JSON.stringify(got) : "sends " + JSON.stringify(got) + " instead of " + JSON.stringify(want));
      }
    });
    void del;
    delq("without retained tags"); delq("with none retained", []);
    for (const k of [["Orientation"], ["ICC_Profile:all", "Orientation"], ["Orientation", "ICC_Profile:all"], ["XMP:Title", "Title", "IPTC:ObjectName", "GPSLatitude"], ["a", "a"], ["GPS*"]]) delq("retaining " + k.join(", "), k);
    // rewriting
    for (const repair of [undefined, true, false]) rep.scenario("rewriteAllTags repair " + repair, () => {
      const h = new H({ root: rep.repo }), name = "rewriteAllTags, repair " + repair, r = h.api("rewriteAllTags", (st) => [S(FILE), S("/p/b.jpg"), ...(repair === undefined ? [] : [h.obj(st, { allowMakerNoteRepair: V.bool(repair) }, "o")])]);
      rep.addEngine(h.e);
      for (const t of r.tasks) for (const w of h.wires(t)) {
        const ls = w.bad ? null : w.lines.map((l) => h.lit(l));
        if (!ls || ls.includes(null)) { rep.ob(null, name, "command"); continue; }
        const i = ls.indexOf("-all="), j = ls.findIndex((x) => /^-tagsfromfile$/i.test(x)), k = ls.indexOf("-all:all");
        rep.ob(i >= 0 && j > i && ls[j + 1] === "@" && k > j, name, "clears and copies everything back from the file itself: " + ls.join(" "));
        rep.ob(k > j && ls.indexOf("-unsafe") > j && ls.indexOf("-icc_profile") > j, name, "including unsafe tags and the colour profile");
        rep.ob(ls.some((x) => /^-F$/.test(x)) === (repair === true), name, repair ? "repairs maker notes" : "does not repair maker notes");
        rep.ob(ls.filter((x) => /^-[A-Za-z:_]+[-+]?[=<]/.test(x)).length === 1, name, "nothing else is assigned");
      }
    });
    // reading
    const read = (name, nt, viaInst) => rep.scenario("read " + name, () => {
      const h = new H({ root: rep.repo }), o = (st, h) => ({ numericTags: h.arr(st, nt.map((x) => S(x)), "nt") });
      const r = h.api("read", (st) => [S(FILE), ...(viaInst ? [] : [h.obj(st, o(st, h), "o")])], viaInst ? { instOpts: (st, h) => h.obj(st, o(st, h), "i") } : {});
      rep.addEngine(h.e);
      rep.ob(r.tasks.length > 0, "read " + name, r.tasks.length ? "is sent" : "is not sent");
      for (const t of r.tasks) for (const w of h.wires(t)) {
        const ls = w.bad ? null : w.lines.map((l) => h.lit(l));
        if (!ls) { rep.ob(null, "read " + name, "command"); continue; }
        const got = ls.map((x, i) => [x, i]).filter(([x]) => x && /^-[^=]*#$/.test(x)), all = ls.indexOf("-all"), want = nt.map((x) => "-" + x + "#");
        rep.ob(JSON.stringify(got.map((x) => x[0])) === JSON.stringify(want) || (soft(h, w, []) || ls.includes(null) ? null : false), "read " + name, "numeric requests " + JSON.stringify(got.map((x) => x[0])));
        rep.ob(all > 0 && got.every(([, i]) => i < all), "read " + name, all < 0 ? "does not ask for the other tags" : "numeric requests come before asking for all");
      }
    });
    for (const nt of [[], ["Orientation"], ["*Duration*", "GPSAltitude", "Orientation"], ["b", "a", "c"], ["XMP:Rating", "Rating"]]) { read("numerically " + nt.join(","), nt); read("numerically by instance " + nt.join(","), nt, true); }
  },
};

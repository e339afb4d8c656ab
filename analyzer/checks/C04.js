"use strict";
const { S, each, tagsWith } = require("../lib/scenarios");
const { H, L, T, U, V, symv } = require("../lib/harness");
const E = require("../lib/evalsym");
const FILE = (h) => h.sym("FILE", T.S);
function keyLine(h, w, K = "KEY") { return w.lines.findIndex((l) => l.p.some((p) => p.sym === K)); }
function valueParts(l, K = "KEY") { // parts after "-KEY="
  if (l.p[0] !== "-" || !l.p[1] || l.p[1].sym !== K || typeof l.p[2] !== "string" || !l.p[2].startsWith("=")) return null;
  return [l.p[2].slice(1), ...l.p.slice(3)].filter((x) => x !== "");
}
// check that text assembled from `parts` decodes to `expect(words)`
function decodes(rep, h, parts, st, ids, where, judge) {
  const rs = E.reps(h, parts);
  const ws = E.words(rs);
  let n = 0, bad = null, unk = null;
  for (const w of ws) for (let i = 0; i < ids.length; i++) {
    const env = new Map(ids.map((id, j) => [id, i === j ? w : "q" + j]));
    try {
      for (const id of ids) { const f = h.e.fact(id, st); if (f.lang && !f.lang.accepts(env.get(id))) throw new E.Infeasible(id); } if (!E.feasible(h, st, env)) throw new E.Infeasible("path");
      const s = E.evalParts(h, parts, st, env);
      n++;
      const why = judge(s, ids.map((id) => env.get(id)));
      if (why && !bad) bad = JSON.stringify(w) + " is sent as " + JSON.stringify(s) + (why === true ? "" : " (" + why + ")");
    } catch (x) {
      if (x instanceof E.Infeasible) continue;
      if (x instanceof E.Unknown) { unk = x.message; break; }
      throw x;
    }
  }
  rep.count("words_evaluated", n);
  if (bad) rep.ob(false, where, bad);
  else if (unk) rep.ob(null, where, "text built by an operation outside the transducer model: " + unk);
  else rep.ob(n > 0 ? true : null, where, "text decodes to what was given (" + n + " class words)");
}
const plain = (s, w) => { const d = E.htmlDecode(s); return d === w || d === E.htmlDecode(w) ? null : "decodes to " + JSON.stringify(d); };
module.exports = {
  keyLine, valueParts, decodes, plain,
  level: "other", floor: 30,
  explain: "Abstract interpretation of write() for each kind of value; the resulting argument term (concatenations and per-character substitutions of the unknown text) is checked against the decoder ExifTool applies, on one representative of every character class in every position.",
  rule: "-KEY=<value> where value HTML-decodes to the given text; -E and -sep <separator> are declared before it; list items are joined by exactly that separator; null clears, booleans are True/False, numbers are their decimal text, other types reject",
  run(rep) {
    each(rep, { platforms: ["linux"] }, (s) => s.value && !/struct|any object/.test(s.value), (h, r, sc) => {
      const where = "write " + sc.value;
      if (sc.value === "function") {
        rep.ob(r.tasks.length === 0, where, "values of unsupported types are never sent");
        return;
      }
      rep.ob(r.tasks.length > 0 ? true : null, where, "value is accepted");
      const dd = new Set();
      for (const t of r.tasks) for (const w of h.wires(t)) {
        if (w.bad) continue;
        const k = w.lines.map((l) => h.showLine(l)).join("\n");
        if (dd.has(k)) continue;
        dd.add(k);
        const i = keyLine(h, w);
        if (i < 0) { rep.ob(false, where, "a command is sent without the tag"); continue; }
        rep.ob(w.lines.filter((l) => l.p.some((p) => p.sym === "KEY")).length === 1, where, "the tag is assigned exactly once");
        const lits = w.lines.map((l) => h.lit(l));
        const eAt = lits.indexOf("-E");
        rep.ob(eAt >= 0 && eAt < i, where, "the decode flag -E accompanies the value");
        const sAt = lits.indexOf("-sep");
        const sep = sAt >= 0 ? lits[sAt + 1] : null;
        rep.ob(sAt >= 0 && sAt < i && typeof sep === "string" && sep.length > 0, where, "a list separator is declared");
        const vp = valueParts(w.lines[i]);
        if (!vp) { rep.ob(false, where, "the argument is not -TAG=value: " + h.showLine(w.lines[i]).slice(0, 120)); continue; }
        switch (sc.value) {
          case "string": decodes(rep, h, vp, w.st, ["VAL"], where, (s, [a]) => plain(s, a)); break;
          case "number": {
            const f = h.e.fact("VAL", w.st);
            let bad = null, unk = null;
            for (const x of [0, -0, 1, -1, 7, 0.1, -1.5, 12.3456789012, 123456.789, 2 ** 31, 2 ** 53, 1e-7, 1e21, 65535.5]) {
              if (f.lo !== undefined && x < f.lo || f.hi !== undefined && x > f.hi || (f.ne || []).includes(String(x))) continue;
              try { const s = E.evalParts(h, vp, w.st, new Map([["VAL", x]])); if (!/^-?[0-9.e+-]+$/.test(s) || Number(s) !== x) bad = x + " is sent as " + JSON.stringify(s); } catch (y) { if (y instanceof E.Unknown) unk = y.message; else if (!(y instanceof E.Infeasible)) throw y; }
            }
            rep.ob(bad ? false : unk ? null : true, where, bad || "number is sent as its decimal text");
            rep.ob(f.nan === false && !h.e.langOf(symv(vp[0] && vp[0].sym || "VAL"), w.st).accepts("Infinity") || f.nan === false ? true : false, where, "NaN is not sent");
            break;
          }
          case "true": case "false": case "null": case "undefined": {
            const want = { true: "True", false: "False" }[sc.value] || "";
            const txt = vp.every((x) => typeof x === "string") ? vp.join("") : null;
            rep.ob(txt === null ? (vp.some((x) => typeof x !== "string" && h.opaqueIn(x)) ? null : false) : txt === want, where, "is sent as " + JSON.stringify(want));
            break;
          }
          case "two strings": decodes(rep, h, vp, w.st, ["V1", "V2"], where, (s, a) => { const it = s.split(sep); return it.length !== 2 ? it.length + " items" : it.map((x, j) => plain(x, a[j])).find((x) => x); }); break;
          case "empty list": rep.ob(vp.every((x) => typeof x === "string") && /^(\[\])?$/.test(vp.join("")), where, "empty list is sent as an empty value"); break;
          default: break;
        }
      }
    });
    // date and time values are sent in ExifTool's own format
    for (const [file, cls] of [["src/ExifDateTime.ts", "ExifDateTime"], ["src/ExifDate.ts", "ExifDate"], ["src/ExifTime.ts", "ExifTime"]]) rep.scenario("write " + cls, () => {
      const h = new H({ root: rep.repo });
      const r = h.api("write", (st) => { const c = h.exported(file, cls, st); const v = h.e.syms.named("VAL", "VAL", { ty: T.O, tr: true, cls: c.id }, { cls: c.id, foreign: true }); return [FILE(h), tagsWith(st, h, v), U]; });
      rep.addEngine(h.e);
      for (const t of r.tasks) for (const w of h.wires(t)) {
        const i = w.bad ? -1 : keyLine(h, w);
        if (i < 0) continue;
        const vp = valueParts(w.lines[i]);
        const p = vp && vp.length === 1 && vp[0].sym !== undefined ? h.e.syms.get(vp[0].sym).derive : null;
        const unT = (d) => (d && d.op === "tostr" && d.args[0].k === "y" ? h.e.syms.get(d.args[0].id).derive : d);
        const d = unT(p);
        rep.ob(d && d.op === "?meth:toExifString" && d.args[0].id === "VAL" ? true : d && d.op.startsWith("?meth:") && d.op !== "?meth:toExifString" ? false : null, "write " + cls, "date/time value is sent as its toExifString() text: " + h.showLine(w.lines[i]).slice(0, 120));
      }
    });
    // values of unsupported types reject, alone or as list items
    const ODD = { function: (h) => V.nat("Math.max"), symbol: () => V.jssym("x"), Date: (h, st) => h.e.construct(V.nat("Date"), [], st, null)[0].v, Map: (h, st) => h.e.construct(V.nat("Map"), [], st, null)[0].v, Buffer: (h) => h.e.syms.named("BUF", "BUF", { ty: T.O, tr: true, cls: "Uint8Array" }, { cls: "Uint8Array", extMethods: "Buffer" }) };
    for (const [n, f] of Object.entries(ODD)) for (const how of ["", " in a list"]) rep.scenario("write " + n + how, () => {
      const h = new H({ root: rep.repo });
      const r = h.api("write", (st) => { const v = f(h, st); return [FILE(h), tagsWith(st, h, how ? h.arr(st, [V.str("x"), v], "a") : v), U]; });
      rep.addEngine(h.e);
      rep.ob(r.tasks.length === 0, "write " + n + how, "a value of unsupported type is never sent");
    });
    for (const val of [NaN, Infinity]) rep.scenario("write " + val, () => {
      const h = new H({ root: rep.repo });
      const r = h.api("write", (st) => [FILE(h), tagsWith(st, h, V.num(val)), U]);
      rep.ob(r.tasks.length === 0, "write " + val, "a non-finite number is never sent");
    });
  },
};

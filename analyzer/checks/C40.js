"use strict";
const { T, V, litOf } = require("../lib/harness");
const { serve } = require("../lib/serve");
const S = V.str;
module.exports = {
  level: "other", floor: 250,
  explain: "Abstract interpretation of read() from ExifTool's document to the reported position, over a grid of coordinate notations (decimal, degrees and minutes, degrees, minutes and seconds; each spelling of the marks; each way to give the hemisphere: sign, letter in the text, reference tag; position text in either order) and of magnitudes (zero, below one degree, whole degrees, limits, minutes and seconds next to 60), against an independent computation of the position each denotes.",
  rule: "a text in a supported notation is reported as the number it denotes (to 6 decimals), in the hemisphere given by its sign, its letter or the reference; a text with minutes or seconds of 60 and more, degrees outside the range, or anything else after the coordinate is never reported as a number; a missing or unreadable coordinate is taken from the position text, the other one is not",
  run(rep, { tier }) {
    const near = (a, b) => Math.abs(a - b) <= 1.01e-6;
    const read = (name, doc, want) => rep.scenario(name, () => {
      const { h, outs } = serve(rep.repo, "read", () => [S("/p/a.jpg")], null, { engine: { maxMs: 8000 }, json: () => [{ SourceFile: "/p/a.jpg", ISO: 100, ...doc }], instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), geoTz: V.nat("Array.isArray") }, "inst") });
      rep.addEngine(h.e);
      if (!outs.length) rep.ob(null, name, "no outcome");
      for (const o of outs) {
        const soft = o.st.impr.size > 0;
        if (o.kind !== "ok") { rep.ob(o.kind === "err" && !soft ? false : null, name, "the read fails"); continue; }
        for (const [tag, w] of Object.entries(want)) {
          const r = h.e.getProp(o.v, tag, o.st.clone(), null);
          for (const x of r) {
            if (x.thr) { rep.ob(null, name, tag); continue; }
            for (const a of h.alts(x.v, x.st)) {
              const what = name + ": " + JSON.stringify(doc) + " reports " + tag + " ";
              if (a.v.k === "d") { rep.ob(typeof w === "number" && near(a.v.v, w) ? true : soft ? null : false, name, what + a.v.v + (w === null ? " although it has none" : typeof w === "number" && near(a.v.v, w) ? "" : " instead of " + w)); continue; }
              if (a.v.k === "u" || a.v.k === "n") { rep.ob(w === null ? true : soft ? null : false, name, what + "nothing" + (w === null ? "" : " instead of " + w)); continue; }
              const l = litOf(a.v);
              if (l !== null) { rep.ob(w === null || w === l ? true : soft ? null : false, name, what + JSON.stringify(l) + (w === null || w === l ? "" : " instead of " + w)); continue; }
              rep.ob(null, name, what + "an undetermined value");
            }
          }
        }
      }
    });
    // ---- notations
    const val = (d, m = 0, s = 0) => d + m / 60 + s / 3600;
    const D = [(d) => d + "°", (d) => d + " deg", (d) => d + "deg", (d) => d + " °", (d) => d + " DEG"];
    const M = [(m) => " " + m + "'", (m) => m + "'", (m) => " " + m + "′", (m) => " " + m + " '"];
    const Sx = [(s) => " " + s + '"', (s) => s + '"', (s) => " " + s + "″", (s) => " " + s + ' "'];
    const rows = [];
    const mags = [[0, 0, 0], [0, 30, 0], [0, 0, 36], [0, 59, 59.99], [1, 0, 0], [12, 34, 56.78], [33, 5, 6], [45, 30, 0], [89, 59, 59.5], [90, 0, 0]];
    const forms = (d, m, s) => {
      const out = [];
      const dec = Number(val(d, m, s).toFixed(7));
      for (const f of D) out.push([f(dec), dec]);
      if (Number.isInteger(dec)) out.push([D[0](dec + ".0"), dec]);
      for (let i = 0; i < D.length; i++) { const mm = Number((m + s / 60).toFixed(5)); out.push([D[i](d) + M[i % M.length](mm), val(d, mm)]); }
      for (let i = 0; i < D.length; i++) out.push([D[i](d) + M[i % M.length](m) + Sx[(i + 1) % Sx.length](s), val(d, m, s)]);
      return out;
    };
    for (const [d, m, s] of mags) for (const [t, v] of forms(d, m, s)) rows.push([t, v]);
    let n = 0;
    for (const [t, v] of rows) {
      n++;
      const full = tier === "thorough", pick = (k, of) => full || n % of === k;
      const other = { GPSLongitude: 10.5, GPSLongitudeRef: "E" };
      const lat = (name, text, ref, w) => read(name + " latitude " + text + (ref ? ", reference " + ref : ""), { GPSLatitude: text, ...(ref ? { GPSLatitudeRef: ref } : {}), ...other }, { GPSLatitude: w, GPSLongitude: 10.5 });
      if (pick(0, 3)) lat("northern", t + " N", null, v);
      if (pick(1, 3)) lat("southern", t + " S", null, -v);
      if (pick(2, 3)) lat("southern by reference", t, "S", -v);
      if (pick(0, 4)) lat("unsigned", t, null, v);
      if (pick(1, 2) && !/^0(?:\.0+)?(?:°| ?deg| °)/i.test(t)) lat("signed", "-" + t, null, -v);
      if (/^0(?:\D|\.0)/.test(t) && v > 0 && !/^0\./.test(t)) lat("signed", "-" + t, null, -v);
      if (pick(2, 5)) lat("northern in lower case", t + "n", "N", v);
      if (pick(3, 5)) lat("southern in both ways", t + "S", "South", -v);
      if (pick(1, 5)) { const w = 180 - v, dd = Math.floor(w), txt = w.toFixed(6) + "° W"; void dd; read("western longitude " + txt, { GPSLatitude: 10.5, GPSLatitudeRef: "N", GPSLongitude: txt }, { GPSLatitude: 10.5, GPSLongitude: -w }); }
    }
    for (const [t, v] of [["33.5", 33.5], ["-33.5", -33.5], ["0", 0], ["-0.25", -0.25], ["90", 90], ["-90", -90], ["12.1234564", 12.123456], [" 33.5 ", 33.5], ["33", 33]]) {
      read("decimal text " + t, { GPSLatitude: t, GPSLongitude: 5 }, { GPSLatitude: v, GPSLongitude: 5 });
      read("decimal text " + t + ", southern", { GPSLatitude: t, GPSLatitudeRef: "S", GPSLongitude: 5 }, { GPSLatitude: -Math.abs(v), GPSLongitude: 5 });
      read("decimal longitude " + t, { GPSLatitude: 5, GPSLongitude: t }, { GPSLatitude: 5, GPSLongitude: v });
    }
    for (const v of [0.1, -0.1, 0.0000004, 12.3456789, -45.9999999, 89.9999999, 33, -1e-7]) read("number " + v, { GPSLatitude: v, GPSLongitude: -2 * v }, { GPSLatitude: v, GPSLongitude: -2 * v });
    for (const [t, v] of [["179 deg 59' 59.9\" W", -val(179, 59, 59.9)], ["180° W", -180], ["180 deg 0' 0\" E", 180], ["100 deg 6.5' E", val(100, 6.5)], ["-120° 30'", -120.5], ["0° 0' 1\" W", -1 / 3600]]) read("longitude " + t, { GPSLatitude: 5, GPSLongitude: t }, { GPSLatitude: 5, GPSLongitude: v });
    for (const [t, v] of [["33.5° s", -33.5], ["33 deg 30' s", -33.5], ["33 deg 30' 36\" s", -33.51], ["33° 10' 5.1234567\" S", -val(33, 10, 5.1234567)], ["33° 10.1234567' S", -val(33, 10.1234567)], ["33° 007' 05.5\" N", val(33, 7, 5.5)], ["007° N", 7]]) read("latitude " + t, { GPSLatitude: t, GPSLongitude: 5 }, { GPSLatitude: v, GPSLongitude: 5 });
    for (const [t, v] of [["133.5° w", -133.5], ["133 deg 30' w", -133.5], ["133 deg 30' 36\" w", -133.51]]) read("longitude " + t, { GPSLatitude: 5, GPSLongitude: t }, { GPSLatitude: 5, GPSLongitude: v });
    // ---- not coordinates
    for (const t of ["33° 60'", "33° 60' N", "33° 61.5' N", "33° 75' 10\" N", "33° 60' 10\" N", "33° 60' 0\" S", "33° 10' 60\" N", "33° 10' 99.9\" S", "91° N", "90° 0' 1\" N", "90° 0.1' S", "90.1° N", "100° N", "33° 10' 5\" N x", "33° N 5° E", "33.5° N, 10", "N", "° N", "33 N", "abc", "1.2.3", "--3", "33° -10' N", "12,5", "33° 10' 5 N"])
      read("unreadable latitude " + t, { GPSLatitude: t, GPSLongitude: 5 }, { GPSLatitude: null });
    for (const t of ["181° E", "180° 0' 1\" W", "180.5° E", "33° 60' E", "200°"]) read("unreadable longitude " + t, { GPSLatitude: 5, GPSLongitude: t }, { GPSLongitude: null });
    // ---- position texts
    const P = [["40.5 -79.25", 40.5, -79.25], ["40.5, -79.25", 40.5, -79.25], ["-40.5,-179.25", -40.5, -179.25], ["40 79", 40, 79], ["0.5 -0.5", 0.5, -0.5],
      ["40° 26' 46\" N 79° 58' 56\" W", val(40, 26, 46), -val(79, 58, 56)], ["37 deg 46' 29.64\" N, 122 deg 25' 9.85\" W", val(37, 46, 29.64), -val(122, 25, 9.85)], ["33 deg 51' 29.6\" S, 151 deg 12' 3\" E", -val(33, 51, 29.6), val(151, 12, 3)],
      ["40° 26.767' N 79° 58.933' W", val(40, 26.767), -val(79, 58.933)], ["40.44611° N 79.98222° W", 40.44611, -79.98222], ["40° 26' 46\" S 79.98222° E", -val(40, 26, 46), 79.98222], ["79.98222° W 40.44611° S", -40.44611, -79.98222], ["122 deg 25' 9.85\" E, 37 deg 46' 29.64\" N", val(37, 46, 29.64), val(122, 25, 9.85)]];
    for (const [t, la, lo] of P) {
      read("position " + t, { GPSPosition: t }, { GPSLatitude: la, GPSLongitude: lo });
      read("position " + t + " with a latitude", { GPSPosition: t, GPSLatitude: 12.5 }, { GPSLatitude: 12.5, GPSLongitude: lo });
      read("position " + t + " with a longitude", { GPSPosition: t, GPSLongitude: 12.5 }, { GPSLatitude: la, GPSLongitude: 12.5 });
      read("position " + t + " with both", { GPSPosition: t, GPSLatitude: "1.5", GPSLongitude: 12.5 }, { GPSLatitude: 1.5, GPSLongitude: 12.5 });
      read("position " + t + " with an unreadable latitude", { GPSPosition: t, GPSLatitude: "33° 60' N", GPSLongitude: 12.5 }, { GPSLatitude: la, GPSLongitude: 12.5 });
      read("position " + t + " with an unreadable longitude", { GPSPosition: t, GPSLatitude: -12.5, GPSLongitude: "x" }, { GPSLatitude: -12.5, GPSLongitude: lo });
      read("position " + t + " and references", { GPSPosition: t, GPSLatitudeRef: "S", GPSLongitudeRef: "West" }, { GPSLatitude: -Math.abs(la), GPSLongitude: -Math.abs(lo) });
      read("position " + t + " and its place", { GPSPosition: t, GeolocationPosition: (-la).toFixed(3) + ", " + (-lo).toFixed(3) }, { GPSLatitude: -la, GPSLongitude: -lo });
      read("position " + t + " and another place", { GPSPosition: t, GeolocationPosition: (la > 0 ? -la + 2 : -la - 2).toFixed(3) + ", " + (lo > 0 ? -lo + 2 : -lo - 2).toFixed(3) }, Math.abs(la) > 2 ? { GPSLatitude: la, GPSLongitude: Math.abs(lo) > 2 ? lo : undefined } : {});
    }
    for (const t of ["40° N 50° N", "40° N", "40.5", "91° N 10° E", "x", "40.5 N 10 E", "10° E 20° W", "40° 70' N 10° E", "1 2 3", "40°  50°"]) read("unreadable position " + t, { GPSPosition: t }, { GPSLatitude: null, GPSLongitude: null });
    for (const t of ["x", "40° N", "1"]) read("unreadable place " + t, { GPSLatitude: 5, GPSLongitude: 6, GeolocationPosition: t }, { GPSLatitude: 5, GPSLongitude: 6 });
    for (const [k, v] of Object.entries({ GPSLatitude: 5, GPSLongitude: 6 })) read("only " + k, { [k]: v }, { [k === "GPSLatitude" ? "GPSLongitude" : "GPSLatitude"]: null });
    void T;
  },
};

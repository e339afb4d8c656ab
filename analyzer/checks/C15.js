"use strict";
const { H, T, U, V, L, mkStr, litOf } = require("../lib/harness");
const { serve, leaf } = require("../lib/serve");
const S = V.str;
const up = (x) => x + Math.abs(x) * 2.3e-16, MAXF = Number.MAX_VALUE, TINY = Number.MIN_VALUE;
// cells of the real line, closed intervals
const cells = (m) => [[-MAXF, -up(2 * m)], [-2 * m, -up(m + 1)], [-(m + 1), -up(m + 0.001)], [-(m + 0.001), -up(m)], [-m, -m], [-m, -1], [-1, -TINY], [0, 0], [TINY, 1], [1, m], [m, m], [up(m), m + 0.001], [up(m + 0.001), m + 1], [up(m + 1), 2 * m], [up(2 * m), MAXF]];
const OTHER = { GPSAltitude: 12.5, GPSSpeed: 3, GeolocationCity: "Somewhere", GeolocationCountry: "Nowhere", GPSImgDirection: 100 };
module.exports = {
  level: "other", floor: 400,
  explain: "Interval abstract interpretation of read() from ExifTool's document to the reported tags. The real line is cut into closed cells at the bounds, at zero and just beyond the bounds; latitude and longitude are unknown numbers of a cell, references are unknown texts of each class (N-like, S-like, other, blank) or absent.",
  rule: "in-range cells: every reported latitude (longitude) lies in [-90, 90] ([-180, 180]), its reference is N or S (E or W) with N/E => value >= 0 and S/W => value <= 0, and a southern/western reference in the file gives a value <= 0; out-of-range cells, and 0/0 when ignored: no tag whose name starts with GPS or Geolocation",
  run(rep, { tier }) {
    const num = (h, n, [lo, hi]) => leaf(lo === hi ? V.num(lo) : h.sym(n, T.D, { fact: { nan: false, lo, hi } }));
    const REFS = (neg, pos) => [
      ["absent", null], [neg, neg], [pos, pos], ["X", "X"], ["blank", " "],
      [neg + " and any text", [neg]], [pos + " and any text", [pos]], [neg + " after spaces", ["  " + neg]], [neg + " in lower case and any text", [neg.toLowerCase()]], ["other text", L.inter(L.reTest("\\S", ""), L.not(L.reExact("\\s*[" + neg + pos + "][^]*", "i")))],
      ["lower case", neg.toLowerCase()], [{ S: "South", W: "West" }[neg], { S: "South", W: "West" }[neg]], [neg + " padded", " " + neg + " "],
    ];
    const ref = (h, st, n, r) => { if (typeof r === "string") return r; if (Array.isArray(r)) return leaf(mkStr([r[0], { sym: h.sym(n + "X", T.S).id }])); const x = h.sym(n, T.S); h.e.refine(st, x.id, { ty: T.S, lang: r }); return leaf(x); };
    const range = (h, v, st) => {
      v = h.e.resolve(v, st);
      if (v.k === "d") return [v.v, v.v];
      if (v.k === "y") { const f = h.e.fact(v.id, st); if (f.ty === T.D && f.nan === false) return [f.lo ?? -Infinity, f.hi ?? Infinity]; }
      return null;
    };
    const keysOf = (h, o) => {
      const ob = o.st.get(h.e.resolve(o.v, o.st).id);
      const ks = new Set();
      for (const l of ob.layers || []) { if (!(l instanceof Map)) return null; for (const k of l.keys()) ks.add(k); }
      return [...ks];
    };
    const absent = (v) => v.k === "u" || v.k === "absent" || v.absent === true;
    const run = (name, mkDoc, mode, info = {}) => rep.scenario(name, () => {
      const inst = info.inst || {};
      const { h, outs } = serve(rep.repo, "read", (st, h) => [S("/p/a.jpg"), ...(info.opts ? [h.obj(st, info.opts(st, h), "o")] : [])], null, { engine: { maxMs: 8000 }, json: (h, st) => [{ SourceFile: "/p/a.jpg", ISO: 100, ...mkDoc(h, st) }], instOpts: (st, h) => h.obj(st, { taskRetries: V.num(0), geoTz: V.nat("Array.isArray"), ...inst }, "inst") });
      rep.addEngine(h.e);
      if (!outs.length) rep.ob(null, name, "no outcome");
      for (const o of outs) {
        if (o.kind !== "ok") { rep.ob(o.kind === "err" && !o.st.impr.size ? false : null, name, "the read fails"); continue; }
        const ks = keysOf(h, o);
        if (!ks) { rep.ob(null, name, "tags not known"); continue; }
        const get = (k, st) => { const r = h.e.getProp(o.v, k, st.clone(), null); return r.length === 1 && !r[0].thr ? r[0] : null; };
        const base = (k) => k.split(":").pop();
        const soft = o.st.impr.size > 0;
        if (mode === "none") {
          for (const k of ks.filter((k) => /^(GPS|Geolocation)/.test(base(k)))) {
            const r = get(k, o.st);
            if (!r) { rep.ob(null, name, k); continue; }
            for (const a of h.alts(r.v, r.st)) rep.ob(a.v.k === "u" ? true : soft ? null : false, name, a.v.k === "u" ? k + " is absent" : k + " is reported although the position is " + (info.what || "out of range"));
          }
          rep.ob(true, name, "looked at");
          const wn = get("warnings", o.st), len = wn && h.e.resolve(wn.v, wn.st).k === "o" ? h.e.getProp(wn.v, "length", wn.st.clone(), null)[0] : null;
          rep.ob(len && !len.thr && len.v.k === "d" ? len.v.v > 0 ? true : soft ? null : false : wn && h.e.resolve(wn.v, wn.st).k === "u" && !soft ? false : null, name, "a warning says that the position is left out");
          const iso = get("ISO", o.st);
          rep.ob(iso && iso.v.k === "d" && iso.v.v === 100 ? true : null, name, "other tags stay");
          continue;
        }
        for (const [axis, m, pos, neg] of [["GPSLatitude", 90, "N", "S"], ["GPSLongitude", 180, "E", "W"]]) {
          for (const k of ks.filter((k) => base(k) === axis)) {
            const r = get(k, o.st);
            if (!r) { rep.ob(null, name, k); continue; }
            for (const a of h.alts(r.v, r.st)) {
              if (a.v.k === "u") { rep.ob(info.maybe ? true : soft ? null : false, name, axis + " is in range but not reported"); continue; }
              const g = range(h, a.v, a.st);
              if (!g) { rep.ob(null, name, axis + " is not a known number"); continue; }
              rep.ob(g[0] >= -m && g[1] <= m ? true : soft ? null : g[0] > m || g[1] < -m ? false : null, name, axis + " in [" + g + "] reported");
              if (k !== axis) continue;
              const rr = get(axis + "Ref", a.st);
              for (const q of rr ? h.alts(rr.v, rr.st) : []) {
                const l = litOf(q.v);
                const g2 = range(h, a.v, q.st) || g;
                if (l === null) { rep.ob(q.v.k === "u" && !soft ? false : null, name, axis + " is reported without a reference"); continue; }
                const good = l === pos ? g2[0] >= 0 : l === neg ? g2[1] <= 0 : false;
                const bad = l === pos ? g2[1] < 0 : l === neg ? g2[0] > 0 : true;
                rep.ob(good ? true : bad && !soft ? false : null, name, axis + " in [" + g2 + "] is reported with reference " + JSON.stringify(l));
              }
              if (info.negative === axis) rep.ob(g[1] <= 0 ? true : g[0] > 0 && !soft ? false : null, name, axis + " in [" + g + "] is reported although the file's reference is " + neg);
            }
          }
        }
      }
    });
    const f = (c) => "[" + c.map((x) => +x.toPrecision(6)).join(", ") + "]";
    const inR = (c, m) => c[0] >= -m && c[1] <= m;
    const LAT = cells(90), LON = cells(180);
    const other = (ks) => ks;
    // every cell of latitude against a representative set of longitudes and references, and vice versa
    const pair = (a, b, ra, rb, opts = {}) => {
      const ok = inR(a, 90) && inR(b, 180);
      const zero = a[0] === 0 && a[1] === 0 && b[0] === 0 && b[1] === 0;
      const ign = opts.ignore ?? true;
      const nm = (opts.g ? "-G, " : "") + "lat " + f(a) + " ref " + ra[0] + ", lon " + f(b) + " ref " + rb[0] + (opts.ignore === undefined ? "" : ", ignoreZeroZero " + ign);
      const p = opts.g ? "GPS:" : "";
      const order = opts.refFirst;
      run(nm, (h, st) => {
        const d = {};
        const pos = { [p + "GPSLatitude"]: num(h, "LAT", a), [p + "GPSLongitude"]: num(h, "LON", b) };
        const rf = {};
        if (ra[1] !== null) rf[p + "GPSLatitudeRef"] = ref(h, st, "RLAT", ra[1]);
        if (rb[1] !== null) rf[p + "GPSLongitudeRef"] = ref(h, st, "RLON", rb[1]);
        for (const [k, v] of Object.entries(OTHER)) if (ok && !(zero && ign) ? k === "GPSAltitude" : true) d[p + k] = v;
        return order ? { ...rf, ...pos, ...d } : { ...d, ...pos, ...rf };
      }, !ok || (zero && ign) ? "none" : "some", { what: zero ? "0,0" : undefined, negative: typeof ra[1] === "string" && /^\s*s/i.test(ra[1]) ? "GPSLatitude" : undefined, inst: opts.ignore === undefined ? {} : { ignoreZeroZeroLatLon: opts.ignore ? V.TRUE : V.FALSE }, opts: opts.g ? (st, h) => ({ readArgs: h.arr(st, [S("-G")], "ra") }) : undefined });
    };
    const RA = REFS("S", "N"), RB = REFS("W", "E");
    const none = ["absent", null];
    for (const a of LAT) pair(a, [1, 180], none, none);
    for (const b of LON) pair([1, 90], b, none, none);
    for (const a of LAT.filter((c) => inR(c, 90))) for (const ra of RA.slice(1)) pair(a, [1, 180], ra, none);
    for (const b of LON.filter((c) => inR(c, 180))) for (const rb of RB.slice(1)) {
      const nm = "lon " + f(b) + " ref " + rb[0];
      run(nm, (h, st) => ({ GPSLatitude: 10, GPSLongitude: num(h, "LON", b), GPSLongitudeRef: ref(h, st, "RLON", rb[1]) }), "some", { negative: typeof rb[1] === "string" && /^\s*w/i.test(rb[1]) ? "GPSLongitude" : undefined });
    }
    for (const a of LAT.filter((c) => !inR(c, 90))) for (const ra of RA.slice(1, 4)) pair(a, [-1, -TINY], ra, RB[1]);
    for (const b of LON.filter((c) => !inR(c, 180))) for (const rb of RB.slice(1, 4)) pair([0, 0], b, RA[2], rb);
    for (const ign of [true, false]) { pair([0, 0], [0, 0], none, none, { ignore: ign }); pair([0, 0], [0, 0], RA[1], RB[1], { ignore: ign }); pair([0, 0], [1, 180], none, none, { ignore: ign }); pair([1, 90], [0, 0], none, none, { ignore: ign }); pair([0, 0], [0, 0], none, none, { ignore: ign, g: true }); }
    pair([0, 0], [0, 0], RA[2], RB[2], { refFirst: true });
    for (const [a, b] of [[[1, 90], [1, 180]], [[-90, -1], [-180, -1]], [up(90), 91].length ? [[up(90), 91], [1, 180]] : null, [[1, 90], [up(180), 181]]]) for (const r of [0, 1]) pair(a, b, RA[r], RB[r], { g: true });
    // the geolocation position may correct the sign
    for (const a of LAT.filter((c) => inR(c, 90))) for (const g of ["45.5, 90.5", "-45.5, -90.5", "0.5 0.5", "-89.9, 0", "89.9, 179.9", "nonsense"]) for (const ra of [none, RA[1], RA[2]]) run("geolocation " + g + ", lat " + f(a) + " ref " + ra[0], (h, st) => ({ GPSLatitude: num(h, "LAT", a), GPSLongitude: num(h, "LON", [1, 180]), GeolocationPosition: g, ...(ra[1] ? { GPSLatitudeRef: ra[1] } : {}) }), "some");
    for (const [a, b] of [[[up(90), 91], [1, 180]], [[1, 90], [up(180), MAXF]]]) for (const g of ["45.5, 90.5", "89.95, 10"]) run("geolocation " + g + ", lat " + f(a) + ", lon " + f(b), (h, st) => ({ GPSLatitude: num(h, "LAT", a), GPSLongitude: num(h, "LON", b), GeolocationPosition: g, GeolocationCity: "x" }), "none");
    // textual coordinates
    const TXT = [["45 deg 30' 10.00\" S", "100 deg 0' 0.00\" W", "some"], ["45.5", "-100.25", "some"], ["-45.5", "100.25", "some"], ["91", "100", "none"], ["45", "181", "none"], ["-90.5", "1", "none"], ["45 deg 30' 10.00\" N", "200.5", "none"], ["90", "180", "some"], ["0", "0", "none"], ["0.0", "-0.0", "none"]];
    for (const [a, b, m] of TXT) {
      run("text " + a + " / " + b, () => ({ GPSLatitude: a, GPSLongitude: b, GPSAltitude: 3 }), m);
      if (!/deg/.test(a)) run("position " + a + ", " + b, () => ({ GPSPosition: a + ", " + b, GPSAltitude: 3, ...(m === "none" ? { GeolocationCity: "x" } : {}) }), m, { maybe: true });
    }
    run("position in degrees", () => ({ GPSPosition: "45 deg 30' 10.00\" S, 100 deg 0' 0.00\" W" }), "some", { maybe: true });
  },
};

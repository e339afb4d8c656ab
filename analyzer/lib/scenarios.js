"use strict";
// Calls of the public API with unknown arguments. Together they cover every
// operation that sends a command; inputs are partitioned by shape so that each
// abstract run stays small.
const { H, T, U, L, V, str, num } = require("./harness");
const ANYT = 1023;

const F = (h) => h.sym("FILE", T.S);
const objOr = (h, n) => h.sym(n, T.O);
const notGps = L.not(L.reTest("^GPS", "i"));
// values a caller can give for one tag
const VALUES = {
  string: (h, st) => h.sym("VAL", T.S),
  number: (h, st) => h.sym("VAL", T.D),
  true: () => V.TRUE,
  false: () => V.FALSE,
  null: () => V.NULL,
  undefined: () => U,
  "two strings": (h, st) => h.arr(st, [h.sym("V1", T.S), h.sym("V2", T.S)], "a"),
  "two strings or numbers": (h, st) => h.arr(st, [h.sym("V1", T.S | T.D), h.sym("V2", T.S | T.D)], "a"),
  "empty list": (h, st) => h.arr(st, [], "a"),
  "list of unknown items": (h, st) => h.arr(st, [h.sym("V1", ANYT & ~(T.F | T.A | T.O)), h.sym("V2", T.S)], "a"),
  struct: (h, st) => { const o = h.obj(st, {}, "st"); h.e.setProp(o, h.sym("FIELD", T.S), h.sym("V1", T.S), st, null); return o; },
  "struct of two": (h, st) => h.obj(st, { A: h.sym("V1", T.S), B: h.sym("V2", T.S | T.D | T.B) }, "st"),
  "list in struct": (h, st) => h.obj(st, { F: h.arr(st, [h.sym("V1", T.S), h.sym("V2", T.S)], "a") }, "st"),
  "struct in list": (h, st) => h.arr(st, [h.obj(st, { F: h.sym("V1", T.S) }, "o")], "a"),
  "struct in struct": (h, st) => h.obj(st, { F: h.obj(st, { G: h.sym("V1", T.S) }, "o") }, "st"),
  "any object": (h, st) => h.sym("VAL", T.O),
  function: (h, st) => V.nat("Math.max"),
};
const tagsWith = (st, h, v) => {
  const K = h.sym("KEY", T.S), t = h.obj(st, {}, "tags");
  h.e.refine(st, K.id, { ty: T.S, lang: notGps });
  h.e.setProp(t, K, v, st, null);
  return t;
};
const S = [];
const add = (op, name, kind, args, more = {}) => S.push({ op, name: op + (name ? "/" + name : ""), kind, args, ...more });

for (const [nm, ov] of [["no options", () => U], ["any options", (h) => objOr(h, "OPTS")]]) {
  if (nm === "no options") add("read", nm, "read", (st, h) => [F(h), ov(h)]);
  add("readRaw", nm, "read", (st, h) => [F(h), ov(h)]);
  for (const [vn, vf] of Object.entries(VALUES)) if (nm === "no options" || vn === "string") add("write", vn + ", " + nm, "write", (st, h) => [F(h), tagsWith(st, h, vf(h, st)), ov(h)], { value: vn });
  add("deleteAllTags", nm, "write", (st, h) => [F(h), ov(h)]);
  for (const m of ["extractThumbnail", "extractPreview", "extractJpgFromRaw"]) add(m, nm, "extract", (st, h) => [h.sym("SRC", T.S), h.sym("DST", T.S), ov(h)]);
  add("extractBinaryTag", nm, "extract", (st, h) => [h.sym("TAG", T.S), h.sym("SRC", T.S), h.sym("DST", T.S), ov(h)]);
  add("extractBinaryTagToBuffer", nm, "buffer", (st, h) => [h.sym("TAG", T.S), h.sym("SRC", T.S), ov(h)]);
}
const RARGS = (st, h) => h.arr(st, [h.sym("RARG1", T.S), h.sym("RARG2", T.S)], "ra");
for (const m of ["read", "readRaw"]) {
  add(m, "read arguments", "read", (st, h) => [F(h), h.obj(st, { readArgs: RARGS(st, h) }, "o")]);
  add(m, "legacy read arguments", "read", (st, h) => [F(h), RARGS(st, h), h.obj(st, { useMWG: h.sym("MWG", T.B | T.U) }, "o")]);
}
add("read", "flags", "read", (st, h) => [F(h), h.obj(st, { useMWG: h.sym("MWG", T.B | T.U), struct: h.sym("STRUCT", T.D | T.S | T.U), geolocation: h.sym("GEO", T.B | T.U), keepUTCTime: h.sym("KEEP", T.B | T.U), ignoreMinorErrors: h.sym("IGN", T.B | T.U) }, "o")]);
add("read", "image hash", "read", (st, h) => [F(h), h.obj(st, { imageHashType: h.sym("HASH", T.S | T.B | T.U), includeImageDataMD5: h.sym("MD5", T.B | T.U) }, "o")]);
add("editTags", "one edit", "edit", (st, h) => [F(h), h.arr(st, [h.sym("EDIT", T.O)], "edits"), U]);
const edit = (st, h, props, n = "") => h.obj(st, { tag: h.sym("ETAG" + n, ANYT), operation: h.sym("EOP" + n, ANYT), ...props }, "edit" + n);
add("editTags", "text edit", "edit", (st, h) => [F(h), h.arr(st, [edit(st, h, { value: h.sym("EVAL", T.S) })], "edits"),
  h.obj(st, { writeArgs: h.arr(st, [h.sym("WARG", T.S)], "wa"), ignoreMinorErrors: h.sym("IGN", T.B | T.U), useMWG: h.sym("MWG", T.B | T.U), struct: h.sym("STRUCT", T.D | T.S | T.U) }, "o")]);
add("editTags", "collection value", "edit", (st, h) => [F(h), h.arr(st, [edit(st, h, { value: h.obj(st, { CollectionName: h.sym("CNAME", T.S), CollectionURI: h.sym("CURI", T.S) }, "c") })], "edits"), U]);
add("editTags", "collection predicate", "edit", (st, h) => [F(h), h.arr(st, [edit(st, h, { predicate: h.obj(st, { CollectionName: h.sym("CNAME", T.S) }, "c") })], "edits"), U]);
add("deleteAllTags", "retain", "write", (st, h) => [F(h), h.obj(st, { retain: h.arr(st, [h.sym("RETAIN1", T.S), h.sym("RETAIN2", T.S)], "r") }, "o")]);
add("read", "numericTags", "read", (st, h) => [F(h), h.obj(st, { numericTags: h.arr(st, [h.sym("NUM1", T.S), h.sym("NUM2", T.S)], "n") }, "o")]);
add("rewriteAllTags", "", "rewrite", (st, h) => [h.sym("SRC", T.S), h.sym("DST", T.S), h.sym("ARG", T.O | T.B | T.U)]);
add("version", "", "version", () => []);
add("write", "GPS numbers", "write", (st, h) => [F(h), h.obj(st, { GPSLatitude: h.sym("LAT", T.D), GPSLongitude: h.sym("LON", T.D), GPSAltitude: h.sym("ALT", T.D) }, "tags"), U]);
add("write", "GPS null", "write", (st, h) => [F(h), h.obj(st, { GPSLatitude: { k: "n" }, GPSLongitude: { k: "n" }, GPSAltitude: { k: "n" } }, "tags"), U]);
add("write", "GPS strings", "write", (st, h) => [F(h), h.obj(st, { GPSLatitude: h.sym("LAT", T.S), GPSLongitude: h.sym("LON", T.S), GPSAltitude: h.sym("ALT", T.S), GPSLatitudeRef: h.sym("REF", T.S) }, "tags"), U]);
add("write", "no tags", "write", (st, h) => [F(h), h.obj(st, {}, "tags"), U]);

// run each scenario of interest on each platform
function each(rep, opts, pick, f) {
  const platforms = opts.platforms || ["linux", "win32"];
  for (const platform of platforms) {
    for (const sc of S.filter(pick)) {
      rep.scenario(sc.name + " on " + platform, () => {
        const h = new H({ root: rep.repo, platform, ...(opts.engine || {}) });
        const t0 = Date.now();
        try {
          const r = h.api(sc.op, sc.args, { setup: sc.setup, instOpts: opts.instOpts });
          const t1 = Date.now();
          f(h, r, sc, platform);
          if (process.env.VERIF_TIME) console.log(sc.name, platform, t1 - t0, Date.now() - t1);
        } finally { rep.addEngine(h.e); }
      });
    }
  }
}
module.exports = { S, each, edit, VALUES, tagsWith, notGps };

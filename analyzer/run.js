#!/usr/bin/env node
"use strict";
// usage: node analyzer/run.js <property> [quick|thorough]
const fs = require("fs");
const path = require("path");
const id = process.argv[2];
const tier = process.argv[3] || process.env.VERIF_TIER || "quick";
const ROOT = path.resolve(__dirname, "..");
const repo = process.env.VERIF_REPO || "/repo";
const t0 = Date.now();
const check = require("./checks/" + id + ".js");
const { Report } = require("./lib/report");
const rep = new Report(id, tier, repo);
let fatal = null;
try { check.run(rep, { tier, repo }); } catch (x) {
  if (x && x.anchor) { fatal = x; } else fatal = x;
}
const known = loadKnown(id);
const fresh = rep.violations.filter((v) => !known.some((k) => k.match === v.key));
const listed = rep.violations.filter((v) => known.some((k) => k.match === v.key));
function loadKnown(id) {
  const f = path.join(ROOT, "known-findings.json");
  if (!fs.existsSync(f)) return [];
  return JSON.parse(fs.readFileSync(f, "utf8")).known.filter((k) => k.property === id);
}
const dir = path.join(ROOT, "evidence");
fs.mkdirSync(dir, { recursive: true });
let replay = null;
if (fresh.length) {
  replay = path.join(dir, id + ".violation.json");
  fs.writeFileSync(replay, JSON.stringify({ property: id, violations: fresh }, null, 2));
}
const ev = rep.evidence(check, fresh, listed, fatal, (Date.now() - t0) / 1000);
fs.writeFileSync(path.join(dir, id + ".json"), JSON.stringify(ev, null, 2) + "\n");
for (const v of listed) console.log("KNOWN-FINDING: property=" + id + " " + v.msg);
for (const v of fresh.slice(0, 20)) console.log("  " + v.where + ": " + v.msg);
console.log(`${id} ${tier}: ${rep.obligations} obligations, ${rep.discharged} discharged, ${rep.undecided.length} undecided, ${fresh.length} violations, ${((Date.now() - t0) / 1000).toFixed(1)}s`);
if (process.env.VERIF_VERBOSE) for (const u of rep.undecided) console.log("  undecided: " + u);
if (fresh.length) { console.log("VIOLATION property=" + id + " replay=" + replay); process.exit(1); }
if (fatal) { console.error("check could not run: " + (fatal.stack || fatal)); process.exit(2); }
if (!rep.skipped && rep.obligations < (check.floor || 1)) { console.error(`check is vacuous: ${rep.obligations} obligations < floor ${check.floor}`); process.exit(2); }
process.exit(0);

"use strict";
const Engine = require("./engine");
class Report {
  constructor(id, tier, repo) {
    this.id = id; this.tier = tier; this.repo = repo;
    this.obligations = 0; this.discharged = 0;
    this.violations = []; this.undecided = [];
    this.skipped = 0; this.deadline = Date.now() + (tier === "thorough" ? 3000e3 : 420e3);
    this.samples = []; this.fns = new Set(); this.cov = {}; this.seen = new Set();
  }
  // one obligation: res true (holds) | false (violated) | null (cannot be decided)
  ob(res, where, msg, key) {
    this.obligations++;
    if (res === true) { this.discharged++; if (this.samples.length < 12) this.samples.push(where + ": " + msg); return true; }
    if (res === null) { this.und(where + ": " + msg); return null; }
    this.vio(where, msg, key);
    return false;
  }
  vio(where, msg, key) {
    key = key || where + "|" + msg;
    if (this.seen.has(key)) return;
    this.seen.add(key);
    this.violations.push({ key, where, msg });
  }
  und(m) { if (this.undecided.length < 400) this.undecided.push(m); }
  count(k, n = 1) { this.cov[k] = (this.cov[k] || 0) + n; }
  // run a scenario; imprecision of the analysis is recorded, never an alarm
  scenario(name, f) {
    // enough evidence, or out of time: the rest is skipped (recorded as undecided)
    if (this.violations.length >= (this.tier === "thorough" ? 40 : 6) || Date.now() > this.deadline) { this.count("scenarios_skipped"); this.skipped++; this.obligations++; this.und(name + ": skipped"); return undefined; }
    this.count("scenarios");
    const t0 = Date.now();
    require("./harness").releaseEngines();
    try { return f(); } catch (x) {
      if (x && x.anchor) throw x;
      if (x instanceof Engine.Undecided || x instanceof RangeError || (x && x.constructor && /Unsupported|LocalBudget/.test(x.constructor.name))) { this.und(name + ": " + x.message); this.obligations++; return undefined; }
      if (process.env.VERIF_DEBUG) console.error(x);
      this.und(name + ": internal: " + (x && x.stack ? x.stack.split("\n").slice(0, 3).join(" / ") : x)); this.obligations++;
      return undefined;
    } finally { if (process.env.VERIF_TIME) console.log(Date.now() - t0, name); }
  }
  addEngine(e) {
    for (const f of e.stats.fns) this.fns.add(f);
    this.count("abstract_steps", e.steps);
    this.count("state_joins", e.stats.joins);
  }
  evidence(check, fresh, listed, fatal, wall) {
    const level = check.level || "other";
    return {
      property: this.id, tier: this.tier, seed: Number(process.env.VERIF_SEED || 1), level,
      coverage: {
        explanation: check.explain || "",
        rule: check.rule || "",
        obligations: this.obligations, discharged: this.discharged, undecided: this.undecided.length,
        checker_cmd: "node /verif/analyzer/run.js " + this.id + " " + this.tier,
        trusted_base: ["/verif/analyzer/lib (abstract interpreter and its models of Node, luxon and batch-cluster built-ins)", "TypeScript parser"],
        functions_analysed: this.fns.size,
        functions: [...this.fns].slice(0, 80),
        ...this.cov,
        sample_obligations: this.samples,
        undecided_detail: this.undecided.slice(0, 20),
        violations: fresh, known_findings: listed,
        ...(fatal ? { fatal: String(fatal.message || fatal) } : {}),
      },
      wall_s: Math.round(wall * 1000) / 1000,
    };
  }
}
module.exports = { Report };

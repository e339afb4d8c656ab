"use strict";
const fs = require("fs");
const path = require("path");
const ts = require("../lib/ts");
const { analyse } = require("../lib/redos");
// every pattern the library's source can build
function sources(repo) {
  const dir = path.join(repo, "src"), out = [];
  for (const f of fs.readdirSync(dir, { recursive: true }).map(String).sort()) {
    if (!/\.[cm]?ts$/.test(f) || /\.(spec|d)\.[cm]?ts$/.test(f) || /^(update|test)[\\/]/.test(f)) continue;
    out.push(ts.createSourceFile(f, fs.readFileSync(path.join(dir, f), "utf8"), ts.ScriptTarget.Latest, true));
  }
  return out;
}
module.exports = {
  level: "other", floor: 25,
  explain: "Every regular expression in the library's source (literals, and RegExp constructions whose text is folded through constants, templates, concatenation, joins and .source) is turned into its position automaton with edge multiplicities. A pattern takes exponential time only if some position can be left and re-entered on one word along two different paths, which the self-product of the automaton decides; a suspect is confirmed by counting the steps of a backtracking matcher on the derived attack text.",
  rule: "no pattern has a position with two different cycles on the same word whose repetition followed by a failing text multiplies the matching steps",
  run(rep, { repo }) {
    const files = sources(repo), consts = new Map();
    for (const sf of files) (function walk(n) {
      if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer) { if (!consts.has(n.name.text)) consts.set(n.name.text, []); consts.get(n.name.text).push({ sf, init: n.initializer }); }
      ts.forEachChild(n, walk);
    })(sf);
    const un = (n) => { while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(n))) n = n.expression; return n; };
    const lookup = (id, sf) => { const c = consts.get(id.text) || []; return c.find((x) => x.sf === sf) || c[0]; };
    const reOf = (n, sf, d = 0) => { n = un(n); if (d > 6) return null; if (ts.isRegularExpressionLiteral(n)) { const i = n.text.lastIndexOf("/"); return { src: n.text.slice(1, i), flags: n.text.slice(i + 1) }; } if (ts.isIdentifier(n)) { const c = lookup(n, sf); return c ? reOf(c.init, c.sf, d + 1) : null; } if ((ts.isNewExpression(n) || ts.isCallExpression(n)) && ts.isIdentifier(n.expression) && n.expression.text === "RegExp") return built(n, sf, d + 1); return null; };
    // text of an expression; an unknown part stands for one ordinary character
    const HOLE = "x";
    const text = (n, sf, d = 0) => {
      n = un(n);
      if (d > 8) return HOLE;
      if (ts.isStringLiteralLike(n)) return n.text;
      if (ts.isNumericLiteral(n)) return n.text;
      if (ts.isTemplateExpression(n)) return n.head.text + n.templateSpans.map((s) => text(s.expression, sf, d + 1) + s.literal.text).join("");
      if (ts.isTaggedTemplateExpression(n)) { const t = n.template; const raw = (x) => x.rawText ?? x.text; return ts.isNoSubstitutionTemplateLiteral(t) ? raw(t) : raw(t.head) + t.templateSpans.map((s) => text(s.expression, sf, d + 1) + raw(s.literal)).join(""); }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.PlusToken) return text(n.left, sf, d + 1) + text(n.right, sf, d + 1);
      if (ts.isIdentifier(n)) { const c = lookup(n, sf); return c ? text(c.init, c.sf, d + 1) : HOLE; }
      if (ts.isPropertyAccessExpression(n) && n.name.text === "source") { const r = reOf(n.expression, sf, d + 1); return r ? r.src : HOLE; }
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "join") {
        let a = un(n.expression.expression);
        if (ts.isIdentifier(a)) { const c = lookup(a, sf); a = c ? un(c.init) : a; }
        const sep = n.arguments.length ? text(n.arguments[0], sf, d + 1) : ",";
        if (ts.isArrayLiteralExpression(a)) return a.elements.map((x) => text(x, sf, d + 1)).join(sep);
      }
      return HOLE;
    };
    const built = (n, sf, d = 0) => {
      const a = n.arguments || [];
      if (!a.length) return { src: "(?:)", flags: "" };
      const flags = a.length > 1 ? text(a[1], sf, d).replace(/[^dgimsuvy]/g, "") : "";
      const re = reOf(a[0], sf, d + 1);
      if (re) return { src: re.src, flags: a.length > 1 ? flags : re.flags };
      return { src: text(a[0], sf, d), flags };
    };
    const judge = (n, sf, re) => {
      const { line } = sf.getLineAndCharacterOfPosition(n.getStart());
      const where = "src/" + sf.fileName + ":" + (line + 1) + " /" + re.src.slice(0, 120) + "/" + re.flags;
      rep.scenario(where, () => {
        rep.count("patterns");
        try { new RegExp(re.src, re.flags); } catch { rep.ob(null, where, "the text of this pattern is not known"); return; }
        const r = analyse(re.src, re.flags);
        rep.count("automaton_positions", r.positions);
        if (r.exponential === true) { const q = r.attack; rep.ob(false, where, "matching takes exponential time on " + JSON.stringify(q.prefix) + " followed by many repetitions of " + JSON.stringify(q.pump) + " and " + JSON.stringify(q.suffix) + " (steps for 12, 16, 20 repetitions: " + q.cost.map((c) => (c === Infinity ? "more than 4000000" : c)).join(", ") + ")"); return; }
        rep.ob(r.exponential === null ? null : true, where, r.exponential === null ? "ambiguous repetition, no failing continuation found" : "no word is repeated along two different paths");
      });
    };
    for (const sf of files) {
      rep.fns.add("src/" + sf.fileName);
      (function walk(n) {
        if (ts.isRegularExpressionLiteral(n)) judge(n, sf, reOf(n, sf));
        else if ((ts.isNewExpression(n) || ts.isCallExpression(n)) && ts.isIdentifier(n.expression) && n.expression.text === "RegExp") judge(n, sf, built(n, sf));
        else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(match|matchAll|search)$/.test(n.expression.name.text) && n.arguments.length === 1) {
          const a = un(n.arguments[0]);
          if (!ts.isRegularExpressionLiteral(a) && !reOf(a, sf)) { const t = text(a, sf); if (t !== HOLE) judge(n, sf, { src: t, flags: "" }); }
        }
        ts.forEachChild(n, walk);
      })(sf);
    }
  },
};

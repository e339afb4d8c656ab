"use strict";
// Transfer functions for expressions and statements.
const L = require("./lang");
const V = require("./values");
const Engine = require("./engine");
const { ts, SK, one, SHORT, hasMod, annotType, constToString } = Engine;
const { T, ANYT, OBJT, U, NULL, TRUE, FALSE, ABSENT, bool, num, str, obj, symv, nat, jssym, isConst, litOf, key, same, mkIte, mkStr, partsOf, cloneObj, newCond } = V;
const P = Engine.prototype;

const f64 = new Float64Array(1), u64 = new BigInt64Array(f64.buffer);
function nextUp(x) { if (!Number.isFinite(x)) return x; if (x === 0) return Number.MIN_VALUE; f64[0] = x; u64[0] += x > 0 ? 1n : -1n; return f64[0]; }
const nextDown = (x) => -nextUp(-x);

const isChain = (n) => !!(n.flags & ts.NodeFlags.OptionalChain) && (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n) || ts.isCallExpression(n) || ts.isNonNullExpression(n));

P.unshort = function (outs) { return outs.map((o) => (o.v === SHORT ? { st: o.st, v: U } : o)); };
P.ev = function (n, st, env) {
  this.tick();
  const outs = this.ev0(n, st, env);
  return outs.length > 24 ? this.mergeOuts(outs) : outs;
};
P.ev0 = function (n, st, env) {
  switch (n.kind) {
    case SK.ParenthesizedExpression: case SK.AsExpression: case SK.SatisfiesExpression: case SK.NonNullExpression: case SK.TypeAssertionExpression: case SK.ExpressionWithTypeArguments: case SK.PartiallyEmittedExpression:
      if (n.kind === SK.NonNullExpression && isChain(n)) return this.unshort(this.evChain(n, st, env));
      return this.ev(n.expression, st, env);
    case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return this.ok(st, str(n.text));
    case SK.NumericLiteral: return this.ok(st, num(Number(n.text.replace(/_/g, ""))));
    case SK.BigIntLiteral: return this.ok(st, this.opaque("bigint:" + n.text, [], { ty: T.G }));
    case SK.TrueKeyword: return this.ok(st, TRUE);
    case SK.FalseKeyword: return this.ok(st, FALSE);
    case SK.NullKeyword: return this.ok(st, NULL);
    case SK.Identifier:
      if (n.text === "undefined") return this.ok(st, U);
      return this.lookup(n.text, st, env, n);
    case SK.ThisKeyword: return this.ok(st, env.thisV || U);
    case SK.RegularExpressionLiteral: {
      const i = n.text.lastIndexOf("/");
      return this.ok(st, this.alloc(st, { cls: "RegExp", src: n.text.slice(1, i), flags: n.text.slice(i + 1), lastIndex: num(0), layers: [new Map()] }, n));
    }
    case SK.TemplateExpression: {
      let outs = this.ok(st, n.head.text ? [n.head.text] : []);
      for (const sp of n.templateSpans) {
        outs = this.seq(outs, (st, parts) => this.seq(this.ev(sp.expression, st, env), (st, v) => this.seq(this.toStr(v, st, sp), (st, s) => this.ok(st, [...parts, ...partsOf(s), sp.literal.text]))));
      }
      return this.seq(outs, (st, parts) => this.ok(st, mkStr(parts)));
    }
    case SK.TaggedTemplateExpression:
      return this.seq(this.ev(n.tag, st, env), (st, f) => {
        const raw = (t) => t.rawText ?? t.getText().replace(/^[`}]/, "").replace(/(`|\$\{)$/, "");
        if (f.k === "nat" && f.name === "String.raw" && ts.isTemplateExpression(n.template)) {
          let outs = this.ok(st, [raw(n.template.head)]);
          for (const sp of n.template.templateSpans)
            outs = this.seq(outs, (st, parts) => this.seq(this.ev(sp.expression, st, env), (st, v) => this.seq(this.toStr(v, st, sp), (st, s) => this.ok(st, [...parts, ...partsOf(s), raw(sp.literal)]))));
          return this.seq(outs, (st, parts) => this.ok(st, mkStr(parts)));
        }
        if (f.k === "nat" && f.name === "String.raw" && ts.isNoSubstitutionTemplateLiteral(n.template)) return this.ok(st, str(n.template.rawText ?? n.template.getText().slice(1, -1)));
        return this.undecided("tagged template", n);
      });
    case SK.ArrayLiteralExpression:
      return this.seq(this.evArgs(n.elements, st, env), (st, segs) => this.ok(st, this.allocArr(st, segs, n)));
    case SK.ObjectLiteralExpression: return this.evObject(n, st, env);
    case SK.PropertyAccessExpression: case SK.ElementAccessExpression: case SK.CallExpression:
      return isChain(n) ? this.unshort(this.evChain(n, st, env)) : n.kind === SK.CallExpression ? this.evCall(n, st, env) : this.evAccess(n, st, env);
    case SK.NewExpression:
      return this.seq(this.ev(n.expression, st, env), (st, c) => this.seq(this.evArgs(n.arguments || [], st, env), (st, args) => this.construct(c, args, st, n)));
    case SK.ArrowFunction: case SK.FunctionExpression: {
      if (n.kind === SK.FunctionExpression && n.name) {
        const sc = this.newScope(st, env.scope, n, "fe");
        const f = this.mkFn(n, st, { ...env, scope: sc });
        this.declare(st, sc, n.name.text, f);
        return this.ok(st, f);
      }
      return this.ok(st, this.mkFn(n, st, env));
    }
    case SK.ClassExpression: return this.evClass(n, st, env);
    case SK.ConditionalExpression:
      return this.evCond(n.condition, st, env).flatMap((o) => (o.thr ? [o] : this.ev(o.b ? n.whenTrue : n.whenFalse, o.st, env)));
    case SK.BinaryExpression: return this.evBinary(n, st, env);
    case SK.PrefixUnaryExpression: return this.evUnary(n, st, env);
    case SK.PostfixUnaryExpression:
      return this.evUpdate(n.operand, n.operator === SK.PlusPlusToken ? 1 : -1, false, st, env, n);
    case SK.TypeOfExpression:
      return this.seq(this.ev(n.expression, st, env), (st, v) => this.seq(this.strict(v, st), (st, v) => this.ok(st, this.typeOf(v, st))));
    case SK.VoidExpression: return this.seq(this.ev(n.expression, st, env), (st) => this.ok(st, U));
    case SK.DeleteExpression: {
      const e = unparen(n.expression);
      if (!ts.isPropertyAccessExpression(e) && !ts.isElementAccessExpression(e)) return this.ok(st, TRUE);
      return this.seq(this.ev(e.expression, st, env), (st, o) => {
        if (ts.isPropertyAccessExpression(e)) return this.deleteProp(o, e.name.text, st, n);
        return this.seq(this.ev(e.argumentExpression, st, env), (st, k) => this.deleteProp(o, k, st, n));
      });
    }
    case SK.AwaitExpression: return this.seq(this.ev(n.expression, st, env), (st, v) => this.awaitV(v, st, n));
    case SK.YieldExpression:
      if (n.asteriskToken) return this.seq(this.ev(n.expression, st, env), (st, v) => this.seq(this.iterSegs(v, st, n), (st, segs) => { this.pushYield(st, env, segs); return this.ok(st, U); }));
      return this.seq(n.expression ? this.ev(n.expression, st, env) : this.ok(st, U), (st, v) => { this.pushYield(st, env, [one(v)]); return this.ok(st, U); });
    case SK.SpreadElement: return this.undecided("spread", n);
    case SK.MetaProperty: return this.ok(st, this.opaque("meta", []));
    case SK.OmittedExpression: return this.ok(st, U);
    case SK.SuperKeyword: return this.ok(st, env.thisV);
  }
  return this.undecided("unsupported expression " + SK[n.kind], n);
};
function unparen(n) { while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isSatisfiesExpression(n)) n = n.expression; return n; }
P.pushYield = function (st, env, segs) {
  const o = cloneObj(st.get(env.yields.id));
  o.segs = [...o.segs, ...segs];
  st.set(env.yields.id, o);
};
P.typeOf = function (v, st) {
  const m = this.typeMask(v, st);
  const t = typeNames(m);
  if (t.length === 1) return str(t[0]);
  return this.derived("typeof", [v], { ty: T.S });
};
function typeNames(m) {
  const r = [];
  if (m & T.U) r.push("undefined");
  if (m & (T.N | T.A | T.O)) r.push("object");
  if (m & T.B) r.push("boolean");
  if (m & T.D) r.push("number");
  if (m & T.S) r.push("string");
  if (m & T.F) r.push("function");
  if (m & T.Y) r.push("symbol");
  if (m & T.G) r.push("bigint");
  return r;
}
P.typeNames = typeNames;
// conditions -> [{st, b} | {st, thr}]
P.evCond = function (n, st, env) {
  const outs = [];
  const e = unparen(n);
  if (ts.isPrefixUnaryExpression(e) && e.operator === SK.ExclamationToken) return this.evCond(e.operand, st, env).map((o) => (o.thr ? o : { st: o.st, b: !o.b }));
  if (ts.isBinaryExpression(e) && (e.operatorToken.kind === SK.AmpersandAmpersandToken || e.operatorToken.kind === SK.BarBarToken)) {
    const and = e.operatorToken.kind === SK.AmpersandAmpersandToken;
    for (const o of this.evCond(e.left, st, env)) {
      if (o.thr) outs.push(o);
      else if (o.b !== and) outs.push(o);
      else outs.push(...this.evCond(e.right, o.st, env));
    }
    return this.mergeConds(outs);
  }
  for (const o of this.ev(n, st, env)) {
    if (o.thr) { outs.push(o); continue; }
    outs.push(...this.truthy(o.v, o.st));
  }
  return this.mergeConds(outs);
};
P.mergeConds = function (outs) {
  if (outs.length <= 8) return outs;
  const t = outs.filter((o) => !o.thr && o.b), f = outs.filter((o) => !o.thr && !o.b), x = outs.filter((o) => o.thr);
  const m = (a, b) => this.mergeAll(a.map((o) => o.st)).map((st) => ({ st, b }));
  return [...m(t, true), ...m(f, false), ...x];
};
// elements with spreads -> segs
P.evArgs = function (elems, st, env) {
  let outs = this.ok(st, []);
  for (const e of elems) {
    outs = this.seq(outs, (st, acc) => {
      if (ts.isSpreadElement(e)) return this.seq(this.ev(e.expression, st, env), (st, v) => this.seq(this.iterSegs(v, st, e), (st, s) => this.ok(st, [...acc, ...s])));
      return this.seq(this.ev(e, st, env), (st, v) => this.ok(st, [...acc, one(v)]));
    });
    if (outs.length > 8) outs = this.mergeSegOuts(outs);
  }
  return outs;
};
P.privKey = function (nameNode, from) {
  const nm = nameNode.text;
  let p = from.parent;
  while (p) {
    if (ts.isClassLike(p) && p.members.some((m) => m.name && ts.isPrivateIdentifier(m.name) && m.name.text === nm)) return nm + "@" + this.siteKey(p);
    p = p.parent;
  }
  return nm;
};
P.memberKey = function (nm, from, st, env) {
  if (ts.isPrivateIdentifier(nm)) return this.ok(st, str(this.privKey(nm, from)));
  if (ts.isComputedPropertyName(nm)) return this.ev(nm.expression, st, env);
  if (ts.isNumericLiteral(nm)) return this.ok(st, str(String(Number(nm.text))));
  return this.ok(st, str(nm.text));
};
P.evObject = function (n, st, env) {
  const res = this.alloc(st, { cls: "Object", layers: [new Map()] }, n);
  let outs = this.ok(st, U);
  const put = (st, kv, val) => {
    const k = this.propKey(this.resolve(kv, st));
    const o = cloneObj(st.get(res.id));
    if (k === null) {
      return this.seq(this.toStr(kv, st, n), (st, ks) => { const o2 = cloneObj(st.get(res.id)); o2.layers = [...o2.layers, { dyn: ks, v: val }]; st.set(res.id, o2); return this.ok(st, U); });
    }
    this.putOwn(o, k, { v: val });
    st.set(res.id, o);
    return this.ok(st, U);
  };
  for (const p of n.properties) {
    outs = this.seq(outs, (st) => {
      if (ts.isSpreadAssignment(p)) return this.seq(this.ev(p.expression, st, env), (st, v) => this.seq(this.strictObj(v, st), (st, v) => { this.spreadInto(res, v, st, p); return this.ok(st, U); }));
      if (ts.isShorthandPropertyAssignment(p)) return this.seq(this.ev(p.name, st, env), (st, v) => put(st, str(p.name.text), v));
      return this.seq(this.memberKey(p.name, p, st, env), (st, kv) => this.seq(this.strict(kv, st), (st, kv) => {
        if (ts.isPropertyAssignment(p)) {
          if (this.propKey(kv) === "__proto__" && !ts.isComputedPropertyName(p.name)) return this.seq(this.ev(p.initializer, st, env), (st, v) => { const o = cloneObj(st.get(res.id)); o.proto = v; st.set(res.id, o); return this.ok(st, U); });
          return this.seq(this.ev(p.initializer, st, env), (st, v) => put(st, kv, v));
        }
        if (ts.isMethodDeclaration(p)) return put(st, kv, this.mkFn(p, st, env));
        if (ts.isGetAccessor(p) || ts.isSetAccessor(p)) {
          const f = this.mkFn(p, st, env);
          const o = cloneObj(st.get(res.id));
          const k = this.propKey(kv);
          const top = o.layers[o.layers.length - 1];
          const cur = top instanceof Map && top.get(k) && top.get(k).acc ? top.get(k).acc : {};
          this.putOwn(o, k, { acc: ts.isGetAccessor(p) ? { ...cur, get: f } : { ...cur, set: f } });
          st.set(res.id, o);
          return this.ok(st, U);
        }
        return this.undecided("object member", p);
      }));
    });
    if (outs.length > 8) outs = this.mergeOuts(outs);
  }
  return this.seq(outs, (st) => this.ok(st, res));
};
// for spreading: keep conditional values whole unless they mix objects and symbols
P.strictObj = function (v, st) { v = this.resolve(v, st); return v.k === "i" ? this.strict(v, st) : this.ok(st, v); };

P.evObjExpr = function (n, st, env) { return isChain(n) ? this.evChain(n, st, env) : this.ev(n, st, env); };
P.evChain = function (n, st, env) {
  if (ts.isNonNullExpression(n)) return this.evChain(n.expression, st, env);
  if (ts.isCallExpression(n)) return this.evCall(n, st, env);
  return this.evAccess(n, st, env);
};
P.nullGuard = function (opt, o, st, f) {
  if (o === SHORT) return this.ok(st, SHORT);
  if (!opt) return f(st, o);
  return this.seq(this.isNullish(o, st), (st, b) => (b.v ? this.ok(st, SHORT) : f(st, o)));
};
P.evAccess = function (n, st, env) {
  if (n.expression.kind === SK.SuperKeyword) return this.superGet(ts.isPropertyAccessExpression(n) ? str(n.name.text) : U, st, env, n);
  return this.seq(this.evObjExpr(n.expression, st, env), (st, o) => this.nullGuard(n.questionDotToken, o, st, (st, o) => {
    if (ts.isPropertyAccessExpression(n)) {
      const k = ts.isPrivateIdentifier(n.name) ? this.privKey(n.name, n) : n.name.text;
      return this.getProp(o, k, st, n);
    }
    return this.seq(this.ev(n.argumentExpression, st, env), (st, kv) => this.getProp(o, kv, st, n));
  }));
};
P.superGet = function (kv, st, env, n) {
  const home = env.home;
  const c = st.get(home.cls);
  const k = litOf(kv);
  if (home.static) return c.parent ? this.getProp(c.parent, k, st, n) : this.ok(st, U);
  if (!c.parent) return this.ok(st, this.natives.protoMember("Object", k));
  if (c.parent.k === "nat") return this.ok(st, this.natives.protoMember(c.parent.name, k));
  const m = this.classMember(c.parent.id, k, st);
  if (m && m.e) return m.e.acc ? (m.e.acc.get ? this.call(m.e.acc.get, env.thisV, [], st, n) : this.ok(st, U)) : this.ok(st, m.e.v);
  if (m && m.nat) return this.ok(st, this.natives.protoMember(m.nat, k));
  return this.ok(st, this.natives.protoMember("Object", k));
};
P.evCall = function (n, st, env) {
  const cal = n.expression;
  if (cal.kind === SK.SuperKeyword) {
    return this.seq(this.evArgs(n.arguments, st, env), (st, args) => {
      const c = st.get(env.home.cls);
      return this.seq(this.runCtorOf(c.parent, env.thisV, args, st, n), (st) => this.seq(this.initFields(env.home.cls, env.thisV, st, env.ctorParams), (st) => this.ok(st, U)));
    });
  }
  if (cal.kind === SK.ImportKeyword) {
    return this.seq(this.ev(n.arguments[0], st, env), (st, v) => {
      const l = litOf(v);
      if (l === null) return this.ok(st, this.mkPromise(st, "ext", this.opaque("import", [v]), n));
      if (this.hooks.onImport) { const r = this.hooks.onImport(l, st, n, this); if (r) return r; }
      const f = this.moduleFile(l, env.module ? env.module.file : n.getSourceFile().fileName);
      const mv = f ? { k: "mod", file: f } : nat(l.replace(/^node:/, ""));
      if (f) this.needModule(f);
      return this.ok(st, this.mkPromise(st, "ok", mv, n));
    });
  }
  let fouts;
  const c = cal.kind === SK.ParenthesizedExpression ? unparen(cal) : cal.kind === SK.NonNullExpression ? unparen(cal) : cal;
  if (ts.isPropertyAccessExpression(c) || ts.isElementAccessExpression(c)) {
    if (c.expression.kind === SK.SuperKeyword) fouts = this.seq(this.evAccess(c, st, env), (st, f) => this.ok(st, { f, t: env.thisV }));
    else fouts = this.seq(this.evObjExpr(c.expression, st, env), (st, o) => this.nullGuard(c.questionDotToken, o, st, (st, o) => this.seq(this.strict(o, st), (st, o) => {
      if (ts.isPropertyAccessExpression(c)) return this.seq(this.getProp(o, ts.isPrivateIdentifier(c.name) ? this.privKey(c.name, c) : c.name.text, st, c), (st, f) => this.ok(st, { f, t: o }));
      return this.seq(this.ev(c.argumentExpression, st, env), (st, kv) => this.seq(this.getProp(o, kv, st, c), (st, f) => this.ok(st, { f, t: o })));
    })));
  } else fouts = this.seq(this.evObjExpr(cal, st, env), (st, f) => (f === SHORT ? this.ok(st, SHORT) : this.ok(st, { f, t: U })));
  return this.mergeOuts(this.seq(fouts, (st, r) => {
    if (r === SHORT) return this.ok(st, SHORT);
    return this.nullGuard(n.questionDotToken, r.f, st, (st, f) => this.seq(this.evArgs(n.arguments, st, env), (st, args) => this.call(f, r.t, args, st, n)));
  }).map((o) => o), 10);
};
// ---------------------------------------------------------------- classes
P.evClass = function (n, st, env) {
  const heritage = (n.heritageClauses || []).find((h) => h.token === SK.ExtendsKeyword);
  const pouts = heritage ? this.ev(heritage.types[0].expression, st, env) : this.ok(st, null);
  return this.seq(pouts, (st, parent) => {
    if (parent && parent.k !== "o" && parent.k !== "nat") this.undecided("class parent", n);
    const cv = this.alloc(st, { cls: "Function", classNode: n, name: n.name ? n.name.text : "", parent, protoProps: new Map(), layers: [new Map()], env: null, fields: [], fieldTypes: new Map() }, n, "class");
    const sc = this.newScope(st, env.scope, n, "cls");
    if (n.name) this.declare(st, sc, n.name.text, cv);
    const cenv = { ...env, scope: sc };
    const C = cloneObj(st.get(cv.id));
    C.env = cenv;
    C.protoProps = new Map();
    C.fields = [];
    st.set(cv.id, C);
    let outs = this.ok(st, U);
    const statics = [];
    for (const m of n.members) {
      if (ts.isConstructorDeclaration(m)) {
        if (m.body) { C.ctorNode = m; for (const p of m.parameters) if (ts.getModifiers(p) && ts.getModifiers(p).length && p.type) { const t = this.annot(p.type, m); if (t) C.fieldTypes.set(p.name.text, p.questionToken ? t | T.U : t); } }
        continue;
      }
      if (ts.isSemicolonClassElement(m) || ts.isIndexSignatureDeclaration(m)) continue;
      const isStatic = hasMod(m, SK.StaticKeyword);
      if (ts.isClassStaticBlockDeclaration && ts.isClassStaticBlockDeclaration(m)) { statics.push({ m }); continue; }
      outs = this.seq(outs, (st) => this.seq(this.memberKey(m.name, m, st, cenv), (st, kv) => {
        const k = this.propKey(this.resolve(kv, st));
        if (k === null) this.undecided("computed class member", m);
        const o = cloneObj(st.get(cv.id));
        o.protoProps = new Map(o.protoProps); o.fields = o.fields.slice(); o.ctorNode = C.ctorNode;
        if (ts.isMethodDeclaration(m)) {
          if (!m.body) return this.ok(st, U);
          const f = this.mkFn(m, st, cenv, { home: { cls: cv.id, static: isStatic } });
          if (isStatic) this.putOwn(o, k, { v: f, ne: true }); else o.protoProps.set(k, { v: f });
        } else if (ts.isGetAccessor(m) || ts.isSetAccessor(m)) {
          const f = this.mkFn(m, st, cenv, { home: { cls: cv.id, static: isStatic } });
          const which = ts.isGetAccessor(m) ? "get" : "set";
          if (isStatic) { const cur = o.layers[0].get(k); this.putOwn(o, k, { acc: { ...((cur && cur.acc) || {}), [which]: f }, ne: true }); }
          else { const cur = o.protoProps.get(k); o.protoProps.set(k, { acc: { ...((cur && cur.acc) || {}), [which]: f } }); }
        } else if (ts.isPropertyDeclaration(m)) {
          if (m.type) { const t = this.annot(m.type, m); if (t) o.fieldTypes.set(k, m.questionToken ? t | T.U : t); }
          if (hasMod(m, SK.DeclareKeyword)) return this.ok(st, U);
          if (isStatic) statics.push({ m, k }); else o.fields.push({ k, m });
        }
        st.set(cv.id, o);
        return this.ok(st, U);
      }));
    }
    outs = this.seq(outs, (st) => { const o = cloneObj(st.get(cv.id)); o.ctorNode = C.ctorNode; st.set(cv.id, o); return this.ok(st, U); });
    for (const s of statics) {
      const senv = { ...cenv, thisV: cv, home: { cls: cv.id, static: true } };
      outs = this.seq(outs, (st) => {
        if (!s.k) return this.stmtAsExpr(this.execList(s.m.body.statements, [st], { ...senv, scope: this.newScope(st, sc, s.m, "sb") }));
        return this.seq(s.m.initializer ? this.ev(s.m.initializer, st, senv) : this.ok(st, U), (st, v) => { const o = cloneObj(st.get(cv.id)); this.putOwn(o, s.k, { v }); st.set(cv.id, o); return this.ok(st, U); });
      });
    }
    return this.seq(outs, (st) => this.ok(st, cv));
  });
};
P.annot = function (t) { return annotType(t); };
P.stmtAsExpr = function (outs) { return outs.map((o) => (o.c === "thr" ? { st: o.st, thr: o.v } : { st: o.st, v: o.v || U })); };
P.construct = function (c, args, st, node) {
  return this.seq(this.strict(c, st), (st, c) => {
    if (c.k === "nat") return this.natives.construct(c.name, args, st, node);
    if (c.k === "y") return this.ok(st, this.opaque("new", [c], { ty: T.O, tr: true }));
    if (c.k !== "o") return this.throwErr(st, "TypeError", "not a constructor", node);
    const C = st.get(c.id);
    if (!C.classNode) return this.undecided("construct function", node);
    let base = this.nativeBase({ ctor: c.id }, st);
    const isErr = /Error$/.test(base);
    const inst = this.alloc(st, { cls: isErr ? base : "Object", ctor: c.id, layers: [new Map()] }, node, "new" + c.id);
    return this.seq(this.runCtorOf(c, inst, args, st, node), (st) => this.ok(st, inst));
  });
};
P.initFields = function (clsId, thisV, st, ctorParams) {
  const C = st.get(clsId);
  let outs = this.ok(st, U);
  const put = (st, k, v) => { const o = cloneObj(st.get(thisV.id)); this.putOwn(o, k, k.startsWith("#") ? { v, ne: true } : { v }); st.set(thisV.id, o); return this.ok(st, U); };
  if (ctorParams) for (const [k, scope] of ctorParams) outs = this.seq(outs, (st) => put(st, k, st.get(scope).vars.get(k) ?? U));
  for (const f of C.fields) {
    outs = this.seq(outs, (st) => {
      const env = { ...C.env, scope: this.newScope(st, C.env.scope, f.m, "fi"), thisV, home: { cls: clsId } };
      return this.seq(f.m.initializer ? this.ev(f.m.initializer, st, env) : this.ok(st, U), (st, v) => put(st, f.k, v));
    });
  }
  return outs;
};
P.runCtorOf = function (c, thisV, args, st, node) {
  if (!c) return this.ok(st, U);
  c = this.resolve(c, st);
  if (c.k === "nat") return this.natives.superInit(c.name, thisV, args, st, node);
  const C = st.get(c.id);
  const ctor = C.ctorNode;
  if (!ctor) {
    return this.seq(this.runCtorOf(C.parent, thisV, args, st, node), (st) => this.initFields(c.id, thisV, st, null));
  }
  this.stats.calls++;
  this.stats.fns.add(this.siteKey(ctor) + " new " + C.name);
  this.ctx.push("n" + (node ? node.pos : "e") + "." + c.id);
  this.stack.push({ fnNode: ctor, node });
  let outs;
  try {
    const scope = this.newScope(st, C.env.scope, ctor, "call");
    const pp = ctor.parameters.filter((p) => ts.getModifiers(p) && ts.getModifiers(p).length).map((p) => [p.name.text, scope]);
    const env = { ...C.env, scope, thisV, home: { cls: c.id }, fn: ctor, ctorParams: pp };
    outs = this.seq(this.bindParams(ctor.parameters, args, st, env), (st) => {
      const go = (st) => {
        this.hoist(ctor.body.statements, st, env);
        return this.execList(ctor.body.statements, [st], env).map((o) => (o.c === "thr" ? { st: o.st, thr: o.v } : { st: o.st, v: U }));
      };
      if (C.parent) return go(st);
      return this.seq(this.initFields(c.id, thisV, st, pp), (st) => go(st));
    });
  } finally { this.ctx.pop(); this.stack.pop(); }
  return this.mergeOuts(outs);
};
// ---------------------------------------------------------------- operators
P.evUnary = function (n, st, env) {
  const op = n.operator;
  if (op === SK.PlusPlusToken || op === SK.MinusMinusToken) return this.evUpdate(n.operand, op === SK.PlusPlusToken ? 1 : -1, true, st, env, n);
  if (op === SK.ExclamationToken) return this.evCond(n.operand, st, env).map((o) => (o.thr ? o : { st: o.st, v: bool(!o.b) }));
  return this.seq(this.ev(n.operand, st, env), (st, v) => this.seq(this.toNum(v, st, n), (st, v) => {
    if (op === SK.PlusToken) return this.ok(st, v);
    if (op === SK.MinusToken) return this.ok(st, v.k === "d" ? num(-v.v) : this.derived("neg", [v], { ty: T.D }));
    if (v.k === "d" && op === SK.TildeToken) return this.ok(st, num(~v.v));
    return this.ok(st, this.opaque("unary" + op, [v], { ty: T.D }));
  }));
};
P.toNum = function (v, st, node) {
  return this.seq(this.strict(v, st), (st, v) => {
    switch (v.k) {
      case "d": return this.ok(st, v);
      case "u": return this.ok(st, num(NaN));
      case "n": return this.ok(st, num(0));
      case "b": return this.ok(st, num(v.v ? 1 : 0));
      case "s": { const l = litOf(v); if (l !== null) return this.ok(st, num(Number(l))); return this.ok(st, this.derived("strnum", [v], { ty: T.D })); }
      case "y": {
        const f = this.fact(v.id, st);
        if (f.ty === T.D) return this.ok(st, v);
        if (f.ty === T.S) return this.ok(st, this.derived("strnum", [v], { ty: T.D }));
        return this.ok(st, this.derived("tonum", [v], { ty: T.D }));
      }
      case "o": {
        const o = st.get(v.id);
        if (o.ctor !== undefined) {
          const m = this.classMember(o.ctor, "valueOf", st);
          if (m && m.e && m.e.v) return this.seq(this.call(m.e.v, v, [], st, node), (st, r) => this.toNum(r, st, node));
        }
        return this.ok(st, this.opaque("num", [v], { ty: T.D }));
      }
    }
    return this.ok(st, this.opaque("num", [v], { ty: T.D }));
  });
};
P.evUpdate = function (target, d, prefix, st, env, n) {
  return this.seq(this.ev(target, st, env), (st, v) => this.seq(this.toNum(v, st, n), (st, old) => {
    const nv = old.k === "d" ? num(old.v + d) : this.derived("add", [old, num(d)], { ty: T.D });
    return this.seq(this.assignTo(target, nv, st, env, n), (st) => this.ok(st, prefix ? nv : old));
  }));
};
P.assignTo = function (target, v, st, env, n) {
  const t = unparen(target);
  if (ts.isIdentifier(t)) return this.assign(t.text, v, st, env, n);
  if (ts.isPropertyAccessExpression(t)) {
    return this.seq(this.ev(t.expression, st, env), (st, o) => this.setProp(o, ts.isPrivateIdentifier(t.name) ? this.privKey(t.name, t) : t.name.text, v, st, n));
  }
  if (ts.isElementAccessExpression(t)) return this.seq(this.ev(t.expression, st, env), (st, o) => this.seq(this.ev(t.argumentExpression, st, env), (st, k) => this.setProp(o, k, v, st, n)));
  if (ts.isArrayLiteralExpression(t)) {
    return this.seq(this.iterSegs(v, st, n), (st, segs) => {
      let outs = this.ok(st, U);
      t.elements.forEach((e, i) => { if (ts.isOmittedExpression(e)) return; outs = this.seq(outs, (st) => this.assignDefault(e, this.segIndex(segs, i, st), st, env, n)); });
      return outs;
    });
  }
  if (ts.isObjectLiteralExpression(t)) {
    let outs = this.ok(st, U);
    for (const p of t.properties) outs = this.seq(outs, (st) => {
      if (ts.isShorthandPropertyAssignment(p)) return this.seq(this.getProp(v, p.name.text, st, n), (st, x) => this.assign(p.name.text, x, st, env, n));
      if (ts.isPropertyAssignment(p)) return this.seq(this.memberKey(p.name, p, st, env), (st, k) => this.seq(this.getProp(v, k, st, n), (st, x) => this.assignDefault(p.initializer, x, st, env, n)));
      return this.undecided("assignment pattern", n);
    });
    return outs;
  }
  return this.undecided("assignment target", n);
};
P.assignDefault = function (e, v, st, env, n) {
  if (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.EqualsToken)
    return this.seq(this.isUndef(v, st), (st, b) => (b.v ? this.seq(this.ev(e.right, st, env), (st, d) => this.assignTo(e.left, d, st, env, n)) : this.assignTo(e.left, v, st, env, n)));
  return this.assignTo(e, v, st, env, n);
};
P.evBinary = function (n, st, env) {
  const op = n.operatorToken.kind;
  switch (op) {
    case SK.CommaToken: return this.seq(this.ev(n.left, st, env), (st) => this.ev(n.right, st, env));
    case SK.EqualsToken:
      return this.seq(this.ev(n.right, st, env), (st, v) => this.seq(this.assignTo(n.left, v, st, env, n), (st) => this.ok(st, v)));
    case SK.AmpersandAmpersandToken: case SK.BarBarToken: {
      const and = op === SK.AmpersandAmpersandToken;
      return this.seq(this.ev(n.left, st, env), (st, v) => this.truthy(v, st).flatMap((o) => (o.b !== and ? this.ok(o.st, this.resolve(v, o.st)) : this.ev(n.right, o.st, env))));
    }
    case SK.QuestionQuestionToken:
      return this.seq(this.ev(n.left, st, env), (st, v) => this.seq(this.isNullish(v, st), (st, b) => (b.v ? this.ev(n.right, st, env) : this.ok(st, v))));
    case SK.QuestionQuestionEqualsToken:
      return this.seq(this.ev(n.left, st, env), (st, v) => this.seq(this.isNullish(v, st), (st, b) => (b.v ? this.seq(this.ev(n.right, st, env), (st, r) => this.seq(this.assignTo(n.left, r, st, env, n), (st) => this.ok(st, r))) : this.ok(st, v))));
    case SK.BarBarEqualsToken: case SK.AmpersandAmpersandEqualsToken: {
      const and = op === SK.AmpersandAmpersandEqualsToken;
      return this.seq(this.ev(n.left, st, env), (st, v) => this.truthy(v, st).flatMap((o) => (o.b !== and ? this.ok(o.st, v) : this.seq(this.ev(n.right, o.st, env), (st, r) => this.seq(this.assignTo(n.left, r, st, env, n), (st) => this.ok(st, r))))));
    }
    case SK.InKeyword:
      if (ts.isPrivateIdentifier(n.left)) return this.seq(this.ev(n.right, st, env), (st, o) => this.hasProp(o, this.privKey(n.left, n), st, n, true));
      return this.seq(this.ev(n.left, st, env), (st, k) => this.seq(this.ev(n.right, st, env), (st, o) => this.hasProp(o, k, st, n, false)));
    case SK.InstanceOfKeyword:
      return this.seq(this.ev(n.left, st, env), (st, v) => this.seq(this.ev(n.right, st, env), (st, c) => this.instanceOf(v, c, st, n)));
  }
  const comp = COMPOUND[op];
  return this.seq(this.ev(n.left, st, env), (st, a) => this.seq(this.ev(n.right, st, env), (st, b) => {
    const r = this.binop(comp || op, a, b, st, n);
    return comp ? this.seq(r, (st, v) => this.seq(this.assignTo(n.left, v, st, env, n), (st) => this.ok(st, v))) : r;
  }));
};
const COMPOUND = { [SK.PlusEqualsToken]: SK.PlusToken, [SK.MinusEqualsToken]: SK.MinusToken, [SK.AsteriskEqualsToken]: SK.AsteriskToken, [SK.SlashEqualsToken]: SK.SlashToken, [SK.PercentEqualsToken]: SK.PercentToken, [SK.BarEqualsToken]: SK.BarToken, [SK.AmpersandEqualsToken]: SK.AmpersandToken, [SK.CaretEqualsToken]: SK.CaretToken, [SK.LessThanLessThanEqualsToken]: SK.LessThanLessThanToken, [SK.GreaterThanGreaterThanEqualsToken]: SK.GreaterThanGreaterThanToken };
P.binop = function (op, a, b, st, n) {
  switch (op) {
    case SK.EqualsEqualsEqualsToken: return this.eqStrict(a, b, st, n);
    case SK.ExclamationEqualsEqualsToken: return this.notV(this.eqStrict(a, b, st, n));
    case SK.EqualsEqualsToken: return this.eqLoose(a, b, st, n);
    case SK.ExclamationEqualsToken: return this.notV(this.eqLoose(a, b, st, n));
    case SK.LessThanToken: return this.compare("<", a, b, st, n);
    case SK.GreaterThanToken: return this.compare(">", a, b, st, n);
    case SK.LessThanEqualsToken: return this.compare("<=", a, b, st, n);
    case SK.GreaterThanEqualsToken: return this.compare(">=", a, b, st, n);
    case SK.PlusToken: return this.plus(a, b, st, n);
  }
  return this.seq(this.toNum(a, st, n), (st, a) => this.seq(this.toNum(b, st, n), (st, b) => this.ok(st, this.arith(op, a, b))));
};
P.arith = function (op, a, b) {
  if (a.k === "d" && b.k === "d") {
    const x = a.v, y = b.v;
    switch (op) {
      case SK.MinusToken: return num(x - y); case SK.AsteriskToken: return num(x * y); case SK.SlashToken: return num(x / y); case SK.PercentToken: return num(x % y); case SK.AsteriskAsteriskToken: return num(x ** y);
      case SK.BarToken: return num(x | y); case SK.AmpersandToken: return num(x & y); case SK.CaretToken: return num(x ^ y); case SK.LessThanLessThanToken: return num(x << y); case SK.GreaterThanGreaterThanToken: return num(x >> y); case SK.GreaterThanGreaterThanGreaterThanToken: return num(x >>> y);
    }
  }
  const nm = { [SK.MinusToken]: "sub", [SK.AsteriskToken]: "mul", [SK.SlashToken]: "div", [SK.PercentToken]: "mod", [SK.AsteriskAsteriskToken]: "pow", [SK.AmpersandToken]: "band" }[op];
  if (nm) return this.derived(nm, [a, b], { ty: T.D });
  return this.opaque("bit" + op, [a, b], { ty: T.D, nan: false, int: true });
};
P.notV = function (outs) {
  return outs.flatMap((o) => (o.thr ? [o] : o.v.k === "b" ? [{ st: o.st, v: bool(!o.v.v) }] : this.truthy(o.v, o.st).map((x) => ({ st: x.st, v: bool(!x.b) }))));
};
P.plus = function (a, b, st, n) {
  return this.seq(this.strict(a, st), (st, a) => this.seq(this.strict(b, st), (st, b) => {
    if (a.k === "d" && b.k === "d") return this.ok(st, num(a.v + b.v));
    const ta = this.typeMask(a, st), tb = this.typeMask(b, st);
    const cat = (st) => this.seq(this.toStr(a, st, n), (st, x) => this.seq(this.toStr(b, st, n), (st, y) => this.ok(st, mkStr([...partsOf(x), ...partsOf(y)]))));
    if (ta === T.S || tb === T.S) return cat(st);
    const numy = T.D | T.U | T.N | T.B;
    if (!(ta & ~numy) && !(tb & ~numy)) return this.seq(this.toNum(a, st, n), (st, x) => this.seq(this.toNum(b, st, n), (st, y) => this.ok(st, x.k === "d" && y.k === "d" ? num(x.v + y.v) : this.derived("add", [x, y], { ty: T.D }))));
    if (!(ta & numy) || !(tb & numy)) return cat(st);
    // mixed: split on the unknown operand being a string
    const u = a.k === "y" && (ta & T.S) ? a : b.k === "y" && (tb & T.S) ? b : null;
    if (u) return this.seq(this.splitType(st, u, T.S), (st, q) => (q.v ? cat(st) : this.plus(a, b, st, n)));
    return this.ok(st, this.opaque("plus", [a, b], { ty: T.D | T.S }));
  }));
};
const comparable = (v) => v.k !== "y" && v.k !== "i";
P.eqStrict = function (a, b, st, n) {
  return this.seq(this.strict(a, st), (st, a) => this.seq(this.strict(b, st), (st, b) => {
    b = this.resolve(b, st); a = this.resolve(a, st);
    if (a.k === "i" || b.k === "i") return this.eqStrict(a, b, st, n);
    if (a.k === "y" && b.k === "y" && a.id !== b.id && (this.syms.get(a.id) || {}).known && (this.syms.get(b.id) || {}).known) return this.ok(st, FALSE);
    if (isConst(a) && isConst(b)) {
      if (a.k !== b.k) return this.ok(st, FALSE);
      if (a.k === "d") return this.ok(st, bool(a.v === b.v));
      return this.ok(st, bool(key(a) === key(b)));
    }
    if (a.k === "o" || b.k === "o" || a.k === "nat" || b.k === "nat" || a.k === "mod" || b.k === "mod" || a.k === "S" || b.k === "S") {
      if (comparable(a) && comparable(b)) return this.ok(st, bool(key(a) === key(b)));
      const y = a.k === "y" ? a : b, x = a.k === "y" ? b : a;
      if (x.k === "o" && !this.baseIds?.has(x.id)) { // fresh object cannot alias an input
        if (!this.syms.get(y.id).widened) return this.ok(st, FALSE);
      }
      if (!(this.typeMask(x, st) & this.fact(y.id, st).ty)) return this.ok(st, FALSE);
      return this.forkCond("eq:" + key(y) + "=" + key(x), st, (s) => this.refine(s, y.id, { ty: this.typeMask(x, s) }), null);
    }
    if (a.k === "y" && b.k === "y") return this.eqSyms(a, b, st);
    if (a.k === "y" || b.k === "y") {
      const y = a.k === "y" ? a : b, c = a.k === "y" ? b : a;
      return this.eqConst(y, c, st);
    }
    // composite strings
    if (a.k === "s" && b.k === "s") {
      if (key(a) === key(b)) return this.ok(st, TRUE);
      const la = litOf(a), lb = litOf(b);
      if (lb !== null) return this.splitLang(st, a, L.lit(lb));
      if (la !== null) return this.splitLang(st, b, L.lit(la));
      if (L.isEmpty(L.inter(this.langOf(a, st), this.langOf(b, st)))) return this.ok(st, FALSE);
      return this.forkCond("eq:" + key(a) + "=" + key(b), st);
    }
    return this.ok(st, FALSE);
  }));
};
P.forkCond = function (c, st, onT, onF) {
  const d = st.conds.get(c);
  if (d !== undefined) return this.ok(st, bool(d));
  const s2 = st.clone(), out = [];
  if (this.decide(st, c, true) && (!onT || onT(st))) out.push({ st, v: TRUE });
  if (this.decide(s2, c, false) && (!onF || onF(s2))) out.push({ st: s2, v: FALSE });
  return out;
};
P.eqConst = function (y, c, st) {
  const f = this.fact(y.id, st);
  const info = this.syms.get(y.id);
  if (info.derive && info.derive.op[0] === "?") this.markImprecise(st, y);
  switch (c.k) {
    case "u": return this.splitType(st, y, T.U);
    case "n": return this.splitType(st, y, T.N);
    case "b": {
      if (!(f.ty & T.B)) return this.ok(st, FALSE);
      const s2 = st.clone(), out = [];
      if (this.refine(st, y.id, { ty: T.B, tr: c.v, eq: c })) out.push({ st, v: TRUE });
      if (f.ty === T.B) { if (this.refine(s2, y.id, { ty: T.B, tr: !c.v })) out.push({ st: s2, v: FALSE }); }
      else {
        if (f.ne && f.ne.includes(key(c))) return [{ st: s2, v: FALSE }];
        this.refine(s2, y.id, { ty: ANYT, ne: [key(c)] });
        out.push({ st: s2, v: FALSE });
      }
      return out;
    }
    case "d": {
      if (!(f.ty & T.D) || Number.isNaN(c.v) || (f.lo !== undefined && f.lo > c.v) || (f.hi !== undefined && f.hi < c.v) || (f.ne && f.ne.includes(key(c)))) return this.ok(st, FALSE);
      const s2 = st.clone(), out = [];
      if (this.refine(st, y.id, { ty: T.D, lo: c.v, hi: c.v, nan: false, eq: c })) out.push({ st, v: TRUE });
      const g = { ty: ANYT, ne: [key(c)] };
      if (f.ty === T.D) { if (f.lo === c.v) g.lo = f.int ? c.v + 1 : nextUp(c.v); if (f.hi === c.v) g.hi = f.int ? c.v - 1 : nextDown(c.v); }
      if (this.refine(s2, y.id, g)) out.push({ st: s2, v: FALSE });
      return out;
    }
    case "s": {
      if (!(f.ty & T.S)) return this.ok(st, FALSE);
      const l = litOf(c);
      if (l === null) {
        if (L.isEmpty(L.inter(f.lang || L.ALL, this.langOf(c, st)))) return this.ok(st, FALSE);
        return this.forkCond("eq:" + key(y) + "=" + key(c), st, (s) => this.refineStr(s, y, this.langOf(c, s)));
      }
      if (f.ty === T.S) return this.splitLang(st, y, L.lit(l));
      const s2 = st.clone(), out = [];
      if (this.refine(st, y.id, { ty: T.S, lang: L.lit(l) })) out.push({ st, v: TRUE });
      // not equal: a string other than l, or not a string
      if (this.refine(s2, y.id, { ty: ANYT, lang: L.not(L.lit(l)) })) out.push({ st: s2, v: FALSE });
      return out;
    }
  }
  return this.forkCond("eq:" + key(y) + "=" + key(c), st);
};
P.eqSyms = function (a, b, st) {
  const fa = this.fact(a.id, st), fb = this.fact(b.id, st);
  if (a.id === b.id) {
    if (!(fa.ty & T.D) || fa.nan === false) return this.ok(st, TRUE);
    const s2 = st.clone(), out = [];
    if (this.refine(st, a.id, { ty: ANYT, nan: false })) out.push({ st, v: TRUE });
    if (this.refine(s2, a.id, { ty: T.D, eq: num(NaN) })) out.push({ st: s2, v: FALSE });
    return out;
  }
  if (!(fa.ty & fb.ty)) return this.ok(st, FALSE);
  if ((fa.ty & fb.ty) === T.S && fa.lang && fb.lang && L.isEmpty(L.inter(fa.lang, fb.lang))) return this.ok(st, FALSE);
  const [p, q] = a.id < b.id ? [a, b] : [b, a];
  const c = "eq:" + key(p) + "=" + key(q);
  return this.forkCond(c, st, (s) => {
    const m = { ...fa, ty: fa.ty & fb.ty };
    if (!this.refine(s, b.id, { ty: m.ty, ...(fa.lang ? { lang: fa.lang } : {}), ...(fa.lo !== undefined ? { lo: fa.lo } : {}), ...(fa.hi !== undefined ? { hi: fa.hi } : {}), ...(fa.cls !== undefined ? { cls: fa.cls } : {}) })) return false;
    const rb = this.resolve(b, s);
    const ra = this.resolve(a, s);
    if (ra.k === "y" && !(rb.k === "y" && rb.id === ra.id)) return this.refine(s, ra.id, { ty: m.ty, eq: rb });
    return true;
  });
};
P.eqLoose = function (a, b, st, n) {
  return this.seq(this.strict(b, st), (st, b) => {
    if (b.k === "u" || b.k === "n") return this.isNullish(a, st);
    return this.seq(this.strict(a, st), (st, a) => {
      if (a.k === "u" || a.k === "n") return this.isNullish(b, st);
      const ta = this.typeMask(a, st), tb = this.typeMask(b, st);
      if (ta === tb) return this.eqStrict(a, b, st, n);
      // values of equal type compare strictly; mixed types are over-approximated
      return this.forkCond("leq:" + key(a) + "=" + key(b), st, (s) => { this.markImprecise(s, a); return true; }, (s) => { this.markImprecise(s, a); return true; });
    });
  });
};
const FLIP = { "<": ">", ">": "<", "<=": ">=", ">=": "<=" };
P.compare = function (op, a, b, st, n) {
  return this.seq(this.strict(a, st), (st, a) => this.seq(this.strict(b, st), (st, b) => {
    const ta = this.typeMask(a, st), tb = this.typeMask(b, st);
    if (ta === T.S && tb === T.S) {
      const x = litOf(a), y = litOf(b);
      if (x !== null && y !== null) return this.ok(st, bool(op === "<" ? x < y : op === ">" ? x > y : op === "<=" ? x <= y : x >= y));
      return this.ok(st, this.opaque("scmp" + op, [a, b], { ty: T.B }));
    }
    // split mixed-typed symbol into number / other
    for (const v of [a, b]) {
      if (v.k === "y") {
        const f = this.fact(v.id, st);
        if (f.ty !== T.D && (f.ty & T.D)) return this.seq(this.splitType(st, v, T.D), (st) => this.compare(op, a, b, st, n));
      }
    }
    return this.seq(this.toNum(a, st, n), (st, a) => this.seq(this.toNum(b, st, n), (st, b) => this.cmpNum(op, a, b, st)));
  }));
};
P.rangeOf = function (v, st) {
  if (v.k === "d") return { lo: v.v, hi: v.v, nan: Number.isNaN(v.v) ? "is" : false, int: Number.isInteger(v.v) };
  const f = this.fact(v.id, st);
  return { lo: f.lo ?? -Infinity, hi: f.hi ?? Infinity, nan: f.nan === false ? false : "may", int: f.int };
};
P.cmpNum = function (op, a, b, st) {
  if (a.k === "d" && b.k === "d") { const x = a.v, y = b.v; return this.ok(st, bool(op === "<" ? x < y : op === ">" ? x > y : op === "<=" ? x <= y : x >= y)); }
  if (op === ">" || op === ">=") return this.cmpNum(FLIP[op], b, a, st);
  const A = this.rangeOf(a, st), B = this.rangeOf(b, st);
  if (A.nan === "is" || B.nan === "is") return this.ok(st, FALSE);
  const strict = op === "<";
  const never = strict ? A.lo >= B.hi : A.lo > B.hi;
  if (never) return this.ok(st, FALSE);
  const nonan = A.nan === false && B.nan === false;
  if (nonan && (strict ? A.hi < B.lo : A.hi <= B.lo)) return this.ok(st, TRUE);
  const both = a.k === "y" && b.k === "y";
  const c = both ? "cmp:" + key(a) + op + key(b) : null;
  if (c && st.conds.has(c)) return this.ok(st, bool(st.conds.get(c)));
  const s2 = st.clone(), out = [];
  const down = (v, int) => (strict ? (int ? Math.ceil(v) - 1 : nextDown(v)) : int ? Math.floor(v) : v);
  const up = (v, int) => (strict ? (int ? Math.floor(v) + 1 : nextUp(v)) : int ? Math.ceil(v) : v);
  let okT = true, okF = true;
  const fin = (x) => (Number.isFinite(x) ? x : undefined);
  // true: a < b
  if (a.k === "y") okT = okT && this.refine(st, a.id, clean({ ty: T.D, nan: false, hi: fin(down(B.hi, A.int)) }));
  if (b.k === "y") okT = okT && this.refine(st, b.id, clean({ ty: T.D, nan: false, lo: fin(up(A.lo, B.int)) }));
  if (okT && (!c || this.decide(st, c, true))) out.push({ st, v: TRUE });
  // false: !(a < b): a >= b or NaN
  const dn2 = (v, int) => (strict ? (int ? Math.floor(v) : v) : int ? Math.ceil(v) - 1 : nextDown(v));
  const up2 = (v, int) => (strict ? (int ? Math.ceil(v) : v) : int ? Math.floor(v) + 1 : nextUp(v));
  // with a possibly-NaN partner nothing is known about the other side
  if (a.k === "y" && B.nan === false) okF = okF && this.refine(s2, a.id, clean({ ty: T.D, lo: fin(up2(B.lo, A.int)) }));
  if (b.k === "y" && A.nan === false) okF = okF && this.refine(s2, b.id, clean({ ty: T.D, hi: fin(dn2(A.hi, B.int)) }));
  if (okF && (!c || this.decide(s2, c, false))) out.push({ st: s2, v: FALSE });
  return out;
};
function clean(o) { for (const k of Object.keys(o)) if (o[k] === undefined) delete o[k]; return o; }
P.nextUp = nextUp; P.nextDown = nextDown;
// is class a equal to or derived from class b (ids / native names)
P.isSubClass = function (a, b, st) {
  for (let c = a, i = 0; c !== undefined && i < 20; i++) {
    if (c === b) return true;
    if (typeof c === "string") return b === "Object" || (b === "Error" && /Error$/.test(c)) || (c === "Buffer" && b === "Uint8Array");
    const co = st.get(c);
    if (!co.parent) return b === "Object";
    c = co.parent.k === "o" ? co.parent.id : co.parent.name;
  }
  return false;
};
P.instanceOf = function (v, c, st, n) {
  return this.seq(this.strict(v, st), (st, v) => this.seq(this.strict(c, st), (st, c) => {
    const cid = c.k === "o" ? c.id : c.k === "nat" ? c.name.replace(/^(luxon|batch-cluster|buffer)\./, "") : null;
    if (cid === null) return this.ok(st, this.opaque("instanceof", [v, c], { ty: T.B }));
    if (v.k === "o") {
      const o = st.get(v.id);
      if (cid === "Object") return this.ok(st, bool(!(o.proto && o.proto.k === "n")));
      return this.ok(st, bool(this.isSubClass(o.ctor !== undefined ? o.ctor : o.cls, cid, st)));
    }
    if (v.k === "nat" || v.k === "mod") return this.ok(st, bool(cid === "Object" || (cid === "Function" && this.typeMask(v, st) === T.F)));
    if (v.k !== "y") return this.ok(st, FALSE);
    return this.splitCls(st, v, cid);
  }));
};
P.splitCls = function (st, v, cid) {
  if (cid === "Array") return this.splitType(st, v, T.A);
  const f = this.fact(v.id, st);
  const info = this.syms.get(v.id);
  if (!(f.ty & OBJT)) return this.ok(st, FALSE);
  if (cid === "Object") return this.splitType(st, v, OBJT);
  if (cid === "Function") return this.splitType(st, v, T.F);
  if (!(f.ty & T.O)) return this.ok(st, FALSE);
  const cls = f.cls ?? info.cls;
  if (info.isError && cid === "Error") return this.splitType(st, v, OBJT);
  if (cls !== undefined) {
    if (this.isSubClass(cls, cid, st)) return this.splitType(st, v, T.O);
    if (!this.isSubClass(cid, cls, st)) return this.ok(st, FALSE);
  }
  if (f.ncls && f.ncls.includes(String(cid))) return this.ok(st, FALSE);
  if (info.plain) return this.ok(st, FALSE);
  const s2 = st.clone(), out = [];
  if (this.refine(st, v.id, { ty: T.O, cls: cid })) out.push({ st, v: TRUE });
  if (this.refine(s2, v.id, { ty: ANYT, ncls: [String(cid)] })) out.push({ st: s2, v: FALSE });
  return out;
};
// ---------------------------------------------------------------- promises
P.mkPromise = function (st, pstate, pv, node, tag) { return this.alloc(st, { cls: "Promise", layers: [new Map()], pstate, pv }, node, "P" + (tag || "") + (typeof pstate === "string" ? pstate : "")); };
P.awaitV = function (v, st, node) {
  return this.seq(this.strict(v, st), (st, v) => {
    if (v.k === "o" && st.get(v.id).cls === "Promise") return this.awaitPromise(v.id, st, node, 0);
    if (v.k === "o") {
      const o = st.get(v.id);
      if (o.ctor === undefined && o.cls === "Object") {
        const t = this.ownLookup(o, "then", st);
        const tv = t.v && this.resolve(t.v, st), plain = tv && (["s", "n", "u", "d", "b"].includes(tv.k) || (tv.k === "y" && !(this.typeMask(tv, st) & T.F)) || (tv.k === "o" && !st.get(tv.id).fn && st.get(tv.id).cls === "Object"));
        if (tv && !plain && tv.k !== "x") return this.undecided("awaiting a thenable", node);
      }
    }
    if (this.hooks.onAwait) this.hooks.onAwait(st, node);
    return this.ok(st, v);
  });
};
P.awaitPromise = function (id, st, node, depth) {
  if (this.opts.loop && !st.get(id).handled) st.set(id, { ...st.get(id), handled: true });
  const p = st.get(id);
  let ps = p.pstate;
  while (ps && typeof ps === "object") {
    const d = st.conds.get(ps.ite);
    if (d === undefined) {
      const s2 = st.clone(), c = ps.ite, out = [];
      if (this.decide(st, c, true)) out.push(...this.awaitPromise(id, st, node, depth));
      if (this.decide(s2, c, false)) out.push(...this.awaitPromise(id, s2, node, depth));
      return out;
    }
    ps = d ? ps.a : ps.b;
  }
  if (this.hooks.onAwait) this.hooks.onAwait(st, node);
  switch (ps) {
    case "ok": return this.awaitV(p.pv, st, node);
    case "err": return [{ st, thr: p.pv }];
    case "ext": {
      const s2 = st.clone();
      const set = (s, pstate, pv) => s.set(id, { ...s.get(id), pstate, pv });
      const okv = p.pv ?? this.syms.named("res:" + id, "awaited value", {}, {});
      set(st, "ok", okv);
      const out = [{ st, v: okv }];
      if (!p.nofail) {
        const e = p.perr ?? this.syms.named("rej:" + id, (p.what || "external") + " rejection", { ty: T.O, tr: true }, { isError: true });
        set(s2, "err", e);
        if (p.onReject) p.onReject(s2);
        out.push({ st: s2, thr: e });
      }
      if (p.onFulfil) p.onFulfil(st);
      return out;
    }
    case "pending": {
      if (depth > 12) this.undecided("pending promise", node);
      if (!st.timers.length) {
        if (this.hooks.onHang) this.hooks.onHang(st, node);
        st.event({ name: "hang", node });
        return [];
      }
      const [t, ...rest] = st.timers;
      st.timers = rest;
      if (this.opts.loop && t.due !== undefined && t.due !== Infinity) st.extra = { ...st.extra, now: Math.max(st.extra.now || 0, t.due) };
      return this.seq(this.call(t.cb, U, t.args || [], st, node), (st) => this.awaitPromise(id, st, node, depth + 1));
    }
  }
  return this.undecided("promise state " + ps, node);
};
// ---------------------------------------------------------------- statements
const N = (st) => [{ st }];
P.execList = function (stmts, states, env) {
  const abrupt = [];
  let cur = states;
  for (const s of stmts) {
    if (!cur.length) break;
    const nx = [];
    for (const st of cur) for (const o of this.exec(s, st, env)) (o.c ? abrupt : nx).push(o);
    cur = this.compact(nx.map((o) => o.st));
  }
  const res = [...cur.map((st) => ({ st })), ...(abrupt.length > 8 ? this.mergeAbrupt(abrupt) : abrupt)];
  return res;
};
P.mergeAbrupt = function (outs) {
  const g = new Map(), res = [];
  for (const o of outs) {
    if (o.c === "brk" || o.c === "cont") { res.push(o); continue; }
    const v = this.resolve(o.v, o.st);
    const k = o.c + this.groupKey(o.st) + (isConst(v) ? key(v) : "");
    if (!g.has(k)) g.set(k, []);
    g.get(k).push(o);
  }
  for (const l of g.values()) { const m = this.joinOuts(l.map((o) => ({ st: o.st, v: o.v }))); res.push({ st: m.st, c: l[0].c, v: m.v }); }
  return res;
};
const toStmt = (outs, f) => outs.flatMap((o) => (o.thr ? [{ st: o.st, c: "thr", v: o.thr }] : f ? f(o.st, o.v) : [{ st: o.st }]));
P.exec = function (n, st, env) {
  this.tick();
  switch (n.kind) {
    case SK.ExpressionStatement: return toStmt(this.ev(n.expression, st, env));
    case SK.VariableStatement: return this.execVars(n.declarationList, st, env);
    case SK.FunctionDeclaration: case SK.EmptyStatement: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.ImportDeclaration: case SK.ExportDeclaration: case SK.ModuleDeclaration: return N(st);
    case SK.ExportAssignment: return toStmt(this.ev(n.expression, st, env), (st, v) => { this.declare(st, env.scope, "*default*", v); return N(st); });
    case SK.ClassDeclaration: return toStmt(this.evClass(n, st, env), (st, v) => { if (n.name) this.declare(st, env.scope, n.name.text, v); return N(st); });
    case SK.EnumDeclaration: return this.undecided("enum", n);
    case SK.Block: {
      const needs = n.statements.some((s) => ts.isVariableStatement(s) || ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s));
      const e2 = needs ? { ...env, scope: this.newScope(st, env.scope, n, "blk") } : env;
      if (needs) this.hoist(n.statements, st, e2);
      return this.execList(n.statements, [st], e2);
    }
    case SK.IfStatement: {
      const out = [];
      let cs = this.evCond(n.expression, st, env);
      for (const o of cs) {
        if (o.thr) { out.push({ st: o.st, c: "thr", v: o.thr }); continue; }
        if (o.b) out.push(...this.exec(n.thenStatement, o.st, env));
        else if (n.elseStatement) out.push(...this.exec(n.elseStatement, o.st, env));
        else out.push({ st: o.st });
      }
      return out;
    }
    case SK.ReturnStatement: return n.expression ? toStmt(this.ev(n.expression, st, env), (st, v) => [{ st, c: "ret", v }]) : [{ st, c: "ret", v: U }];
    case SK.ThrowStatement: return toStmt(this.ev(n.expression, st, env), (st, v) => [{ st, c: "thr", v }]);
    case SK.BreakStatement: return [{ st, c: "brk", label: n.label && n.label.text }];
    case SK.ContinueStatement: return [{ st, c: "cont", label: n.label && n.label.text }];
    case SK.LabeledStatement: {
      const lb = n.label.text;
      return this.exec(n.statement, st, { ...env, label: lb }).map((o) => ((o.c === "brk") && o.label === lb ? { st: o.st } : o));
    }
    case SK.TryStatement: return this.execTry(n, st, env);
    case SK.ForOfStatement: return this.execForOf(n, st, env);
    case SK.ForInStatement: return toStmt(this.ev(n.expression, st, env), (st, v) => toStmt(this.isNullish(v, st), (st, b) => b.v ? N(st) : toStmt(this.ownKeys(v, st, n), (st, segs) => this.loopBody(n, segs, st, env))));
    case SK.ForStatement: case SK.WhileStatement: case SK.DoStatement: return this.execLoop(n, st, env);
    case SK.SwitchStatement: return this.execSwitch(n, st, env);
    case SK.DebuggerStatement: return N(st);
  }
  return this.undecided("unsupported statement " + SK[n.kind], n);
};
P.execVars = function (list, st, env) {
  let outs = this.ok(st, U);
  for (const d of list.declarations) {
    outs = this.seq(outs, (st) => this.seq(d.initializer ? this.ev(d.initializer, st, env) : this.ok(st, U), (st, v) => this.bindPattern(d.name, v, st, env)));
  }
  return toStmt(outs);
};
P.execTry = function (n, st, env) {
  let outs = this.exec(n.tryBlock, st, env);
  if (n.catchClause) {
    const nx = [];
    const thr = outs.filter((o) => o.c === "thr");
    const merged = thr.length > 6 ? this.mergeAbrupt(thr) : thr;
    for (const o of [...outs.filter((o) => o.c !== "thr"), ...merged]) {
      if (o.c !== "thr") { nx.push(o); continue; }
      const scope = this.newScope(o.st, env.scope, n.catchClause, "catch");
      const e2 = { ...env, scope };
      if (this.hooks.onCatch) this.hooks.onCatch(o.v, o.st, n);
      let bs = this.ok(o.st, U);
      if (n.catchClause.variableDeclaration) bs = this.bindPattern(n.catchClause.variableDeclaration.name, o.v, o.st, e2);
      nx.push(...toStmt(bs, (st) => this.exec(n.catchClause.block, st, e2)));
    }
    outs = nx;
  }
  if (n.finallyBlock) {
    const nx = [];
    for (const o of outs) for (const q of this.exec(n.finallyBlock, o.st, env)) nx.push(q.c ? q : { ...o, st: q.st });
    outs = nx;
  }
  return outs;
};
P.loopBody = function (n, segs, st, env) {
  const body = (st, v) => {
    const e2 = { ...env, scope: this.newScope(st, env.scope, n, "it") , label: undefined };
    let bs;
    if (ts.isVariableDeclarationList(n.initializer)) bs = this.bindPattern(n.initializer.declarations[0].name, v, st, e2);
    else bs = this.assignTo(n.initializer, v, st, e2, n);
    if (n.awaitModifier) bs = this.undecided("for await", n);
    return toStmt(bs, (st) => this.exec(n.statement, st, e2)).map((o) => ((o.c === "cont" || o.c === "brk") && o.label && o.label === env.label ? { ...o, label: undefined } : o));
  };
  const r = this.loopSegs(this.resolveSegs(segs, st), [st], body, n);
  return [...this.compact([...r.ends, ...r.breaks]).map((st) => ({ st })), ...r.abrupt];
};
P.execForOf = function (n, st, env) {
  return toStmt(this.ev(n.expression, st, env), (st, v) => toStmt(this.iterSegs(v, st, n.expression), (st, segs) => this.loopBody(n, segs, st, env)));
};
P.execLoop = function (n, st, env) {
  let e2 = env;
  const out = [];
  let heads = [st];
  if (ts.isForStatement(n) && n.initializer) {
    e2 = { ...env, scope: this.newScope(st, env.scope, n, "for"), label: undefined };
    const io = ts.isVariableDeclarationList(n.initializer) ? this.execVars(n.initializer, st, e2) : toStmt(this.ev(n.initializer, st, e2));
    heads = [];
    for (const o of io) (o.c ? out.push(o) : heads.push(o.st));
  }
  const exits = [];
  const condN = ts.isForStatement(n) ? n.condition : n.expression;
  const isDo = ts.isDoStatement(n);
  let widening = 0, undecidedRounds = 0;
  const test = (sts) => {
    const t = [], f = [];
    for (const s of sts) {
      if (!condN) { t.push(s); continue; }
      for (const o of this.evCond(condN, s, e2)) { if (o.thr) out.push({ st: o.st, c: "thr", v: o.thr }); else (o.b ? t : f).push(o.st); }
    }
    return { t, f };
  };
  const bodyOnce = (sts) => {
    const ends = [];
    for (const s of sts) for (const o of this.exec(n.statement, s, { ...e2, label: undefined })) {
      const lb = !o.label || o.label === env.label;
      if (!o.c || (o.c === "cont" && lb)) ends.push(o.st);
      else if (o.c === "brk" && lb) exits.push(o.st);
      else out.push(o);
    }
    const r = [];
    for (const s of this.compact(ends)) {
      if (ts.isForStatement(n) && n.incrementor) { for (const o of this.ev(n.incrementor, s, e2)) { if (o.thr) out.push({ st: o.st, c: "thr", v: o.thr }); else r.push(o.st); } }
      else r.push(s);
    }
    return r;
  };
  let first = isDo;
  for (let round = 0; heads.length; round++) {
    this.ctx.push("W" + Math.min(round, 400));
    try {
      if (widening) {
        // fixpoint from the current heads
        const fin = [];
        for (const h of heads) {
          let H = h;
          const tag = this.siteKey(n) + ":" + this.ctx.slice(0, -1).join("/");
          for (let k = 0; ; k++) {
            const nExit = exits.length, nOut = out.length;
            const { t, f } = test([H.clone()]);
            const ends = bodyOnce(this.compact(t));
            const W = this.widen(H, ends, new Set(), k + 2, tag);
            if (this.sameState(H, W)) { exits.push(...f); break; }
            exits.length = nExit; out.length = nOut;
            H = W;
            if (k > 10) this.undecided("loop fixpoint not reached", n);
          }
          fin.push(H);
        }
        heads = [];
        break;
      }
      let t, f;
      if (first) { t = heads; f = []; first = false; } else ({ t, f } = test(heads));
      exits.push(...f);
      if (t.length && f.length) undecidedRounds++;
      heads = this.compact(bodyOnce(this.compact(t)), 2);
      if (undecidedRounds >= 3 || round > 300) widening = 1;
    } finally { this.ctx.pop(); }
  }
  return [...this.compact(exits).map((st) => ({ st })), ...out];
};
P.execSwitch = function (n, st, env) {
  return toStmt(this.ev(n.expression, st, env), (st, v) => {
    const e2 = { ...env, scope: this.newScope(st, env.scope, n, "sw") };
    const cl = n.caseBlock.clauses;
    const out = [];
    const runFrom = (i, st) => {
      let cur = [st];
      for (let j = i; j < cl.length && cur.length; j++) {
        const r = this.execList(cl[j].statements, cur, e2);
        cur = [];
        for (const o of r) { if (!o.c) cur.push(o.st); else if (o.c === "brk" && !o.label) out.push({ st: o.st }); else out.push(o); }
      }
      cur.forEach((s) => out.push({ st: s }));
    };
    let pend = [st];
    cl.forEach((c, i) => {
      if (ts.isDefaultClause(c)) return;
      const nx = [];
      for (const s of pend) for (const o of this.ev(c.expression, s, e2)) {
        if (o.thr) { out.push({ st: o.st, c: "thr", v: o.thr }); continue; }
        for (const q of this.eqStrict(v, o.v, o.st, c)) for (const t of this.truthy(q.v, q.st)) { if (t.b) runFrom(i, t.st); else nx.push(t.st); }
      }
      pend = nx;
    });
    const d = cl.findIndex((c) => ts.isDefaultClause(c));
    for (const s of pend) { if (d >= 0) runFrom(d, s); else out.push({ st: s }); }
    return out;
  });
};

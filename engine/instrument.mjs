// Mechanical translation of /repo's TypeScript (types stripped in place, so positions are preserved) into
// JavaScript in which every operator, property access, call and branch goes through the runtime `$$`.
import ts from "/opt/veriftools/node/node_modules/typescript/lib/typescript.js";
import { stripTypeScriptTypes } from "node:module";
const K = ts.SyntaxKind;
const ASSIGN = new Map([[K.PlusEqualsToken, "+"], [K.MinusEqualsToken, "-"], [K.AsteriskEqualsToken, "*"], [K.SlashEqualsToken, "/"], [K.PercentEqualsToken, "%"], [K.AsteriskAsteriskEqualsToken, "**"], [K.LessThanLessThanEqualsToken, "<<"], [K.GreaterThanGreaterThanEqualsToken, ">>"], [K.GreaterThanGreaterThanGreaterThanEqualsToken, ">>>"], [K.AmpersandEqualsToken, "&"], [K.BarEqualsToken, "|"], [K.CaretEqualsToken, "^"]]);
const LOGASSIGN = new Map([[K.AmpersandAmpersandEqualsToken, "&&"], [K.BarBarEqualsToken, "||"], [K.QuestionQuestionEqualsToken, "??"]]);
const BIN = new Set(["+", "-", "*", "/", "%", "**", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "<<", ">>", ">>>", "&", "|", "^", "in", "instanceof"]);

export function strip(source, rel = "x.ts") {
  try { return stripTypeScriptTypes(source, { mode: "strip" }); } catch {
    return ts.transpileModule(source, { fileName: rel, compilerOptions: { target: ts.ScriptTarget.ESNext, module: ts.ModuleKind.ESNext, verbatimModuleSyntax: true, useDefineForClassFields: true } }).outputText;
  }
}

export function instrument(source, rel) {
  const js = rel.endsWith(".ts") ? strip(source, rel) : source;
  const sf = ts.createSourceFile(rel + ".js", js, ts.ScriptTarget.ESNext, true, ts.ScriptKind.JS);
  let uid = 0;
  const fname = []; // enclosing function names
  const loc = (n) => sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1;
  const raw = (n) => js.slice(n.getStart(sf), n.end);
  const J = JSON.stringify;

  function def(n) { // default: text with children replaced
    let out = ""; let pos = n.getStart(sf);
    const kids = [];
    ts.forEachChild(n, (c) => { kids.push(c); });
    kids.sort((a, b) => a.pos - b.pos);
    for (const c of kids) {
      const s = c.getStart(sf);
      if (s < pos) continue;
      out += js.slice(pos, s) + e(c); pos = c.end;
    }
    return out + js.slice(pos, n.end);
  }
  const isMember = (n) => n.kind === K.PropertyAccessExpression || n.kind === K.ElementAccessExpression;
  const isPrivate = (n) => n.kind === K.PropertyAccessExpression && n.name.kind === K.PrivateIdentifier;
  const isSuper = (n) => isMember(n) && n.expression.kind === K.SuperKeyword;
  const unparen = (n) => { while (n.kind === K.ParenthesizedExpression) n = n.expression; return n; };
  function args(list) {
    if (list.some((a) => a.kind === K.SpreadElement)) return `$$.spreadArgs([${list.map((a) => a.kind === K.SpreadElement ? `$$.sp(${e(a.expression)})` : e(a)).join(", ")}])`;
    return `[${list.map(e).join(", ")}]`;
  }
  // optional chains: returns [linksFn] ; emit(n) = guard wrapping
  function chain(n) {
    // collect links from outermost to root of this optional chain
    const links = []; let cur = n;
    while ((isMember(cur) || cur.kind === K.CallExpression) && (cur.flags & ts.NodeFlags.OptionalChain)) {
      links.push(cur);
      const isRoot = cur.questionDotToken !== undefined;
      cur = cur.expression;
      if (isRoot && !(cur.flags & ts.NodeFlags.OptionalChain)) break;
      if (cur.kind === K.NonNullExpression) cur = cur.expression;
    }
    links.reverse();
    return build(e(cur), links, 0, cur);
  }
  function build(base, links, i, baseNode) {
    if (i >= links.length) return base;
    const l = links[i];
    // method call o.m(...) / o?.m(...) / o.m?.(...)
    const next = links[i + 1];
    if (isMember(l) && next && next.kind === K.CallExpression && next.expression === l) {
      const key = l.kind === K.PropertyAccessExpression ? J(l.name.text) : e(l.argumentExpression);
      const rest = (b) => build(b, links, i + 2);
      if (l.questionDotToken) {
        if (next.questionDotToken) return `($$.nn(${base}) ? ($$.optm($$.last(), ${key}) ? ${rest(`$$.call2($$.last2(), ${args(next.arguments)})`)} : undefined) : undefined)`;
        return `($$.nn(${base}) ? ${rest(`$$.callm($$.last(), ${key}, ${args(next.arguments)})`)} : undefined)`;
      }
      if (next.questionDotToken) return `($$.optm(${base}, ${key}) ? ${rest(`$$.call2($$.last2(), ${args(next.arguments)})`)} : undefined)`;
      return rest(`$$.callm(${base}, ${key}, ${args(next.arguments)})`);
    }
    if (isMember(l)) {
      const key = l.kind === K.PropertyAccessExpression ? J(l.name.text) : e(l.argumentExpression);
      if (isPrivate(l)) throw new Error("optional private " + loc(l));
      if (l.questionDotToken) return `($$.nn(${base}) ? ${build(`$$.get($$.last(), ${key})`, links, i + 1)} : undefined)`;
      return build(`$$.get(${base}, ${key})`, links, i + 1);
    }
    // call link
    if (l.questionDotToken) {
      // base is a member expression outside the chain: keep this
      if (baseNode && i === 0 && isMember(unparen(baseNode)) && !isPrivate(unparen(baseNode)) && !isSuper(unparen(baseNode))) {
        const m = unparen(baseNode); const key = m.kind === K.PropertyAccessExpression ? J(m.name.text) : e(m.argumentExpression);
        return `($$.optm(${e(m.expression)}, ${key}) ? ${build(`$$.call2($$.last2(), ${args(l.arguments)})`, links, i + 1)} : undefined)`;
      }
      return `($$.nn(${base}) ? ${build(`$$.call($$.last(), ${args(l.arguments)})`, links, i + 1)} : undefined)`;
    }
    return build(`$$.call(${base}, ${args(l.arguments)})`, links, i + 1);
  }
  const keyOf = (m) => m.kind === K.PropertyAccessExpression ? J(m.name.text) : e(m.argumentExpression);
  // purity: expression that may be evaluated speculatively (no assignment, await, yield, ++)
  function pure(n) {
    let ok = true;
    (function w(x) {
      if (!ok) return;
      switch (x.kind) {
        case K.AwaitExpression: case K.YieldExpression: case K.NewExpression: case K.FunctionExpression: case K.ArrowFunction: case K.ClassExpression: case K.ObjectLiteralExpression: case K.ArrayLiteralExpression: case K.DeleteExpression: case K.TaggedTemplateExpression: ok = false; return;
        case K.PrefixUnaryExpression: if (x.operator === K.PlusPlusToken || x.operator === K.MinusMinusToken) { ok = false; return; } break;
        case K.PostfixUnaryExpression: ok = false; return;
        case K.CallExpression: {
          // only well-known pure string/array/number methods
          const c = x.expression;
          if (!(c.kind === K.PropertyAccessExpression && PUREM.has(c.name.text))) { ok = false; return; }
          break;
        }
        case K.BinaryExpression: if (x.operatorToken.kind === K.EqualsToken || ASSIGN.has(x.operatorToken.kind) || LOGASSIGN.has(x.operatorToken.kind) || x.operatorToken.kind === K.CommaToken) { ok = false; return; } break;
      }
      ts.forEachChild(x, w);
    })(n);
    return ok;
  }
  const PUREM = new Set(["startsWith", "endsWith", "includes", "charCodeAt", "charAt", "at", "isInteger", "isNaN", "isFinite", "isSafeInteger", "isArray", "has", "trim", "test", "codePointAt", "indexOf", "hasOwn"]);

  function assignedOuter(body) {
    const names = new Set(); const declared = new Set();
    (function w(x) {
      if (x.kind === K.BinaryExpression && (x.operatorToken.kind === K.EqualsToken || ASSIGN.has(x.operatorToken.kind) || LOGASSIGN.has(x.operatorToken.kind))) pat(x.left, names);
      if ((x.kind === K.PrefixUnaryExpression || x.kind === K.PostfixUnaryExpression) && (x.operator === K.PlusPlusToken || x.operator === K.MinusMinusToken) && x.operand.kind === K.Identifier) names.add(x.operand.text);
      if (x.kind === K.VariableDeclaration || x.kind === K.Parameter) pat(x.name, declared);
      ts.forEachChild(x, w);
    })(body);
    function pat(p, set) {
      if (p.kind === K.Identifier) set.add(p.text);
      else if (p.kind === K.ObjectBindingPattern || p.kind === K.ArrayBindingPattern) p.elements.forEach((x) => x.name && pat(x.name, set));
      else if (p.kind === K.ArrayLiteralExpression) p.elements.forEach((x) => pat(x, set));
      else if (p.kind === K.ObjectLiteralExpression) p.properties.forEach((x) => x.kind === K.ShorthandPropertyAssignment ? set.add(x.name.text) : x.initializer && pat(x.initializer, set));
    }
    return [...names].filter((x) => !declared.has(x));
  }
  const accessors = (names) => `() => [${names.map((x) => `[${J(x)}, () => ${x}, ($v) => { ${x} = $v; }]`).join(", ")}]`;
  function loopInfo(n, parts) {
    const names = new Set();
    for (const p of parts) if (p) for (const x of assignedOuter(p)) names.add(x);
    return [...names];
  }
  const stmt = (n) => n.kind === K.Block ? e(n) : `{ ${e(n)} }`;
  function loop(n, label) {
    const id = J(`${rel}:${fname[fname.length - 1] ?? ""}:${uid++}`); const lv = `$L${uid}`; const lab = label ? label + ": " : "";
    const line = loc(n);
    switch (n.kind) {
      case K.WhileStatement: {
        const ns = loopInfo(n, [n.statement, n.expression]);
        return `{ const ${lv} = $$.loop(${id}, ${line}, ${accessors(ns)}); try { ${lab}while (${lv}.head() && ${cond(n.expression)} && ${lv}.enter()) ${stmt(n.statement)} ${lv}.exit(); } finally { ${lv}.done(); } }`;
      }
      case K.DoStatement: {
        const ns = loopInfo(n, [n.statement, n.expression]);
        return `{ const ${lv} = $$.loop(${id}, ${line}, ${accessors(ns)}); try { ${lab}do { ${lv}.headDo(); ${e(n.statement)} } while (${cond(n.expression)}); } finally { ${lv}.done(); } }`;
      }
      case K.ForStatement: {
        const declared = new Set(); let initNames = [];
        if (n.initializer && n.initializer.kind === K.VariableDeclarationList) for (const d of n.initializer.declarations) if (d.name.kind === K.Identifier) declared.add(d.name.text);
        const bodyNames = loopInfo(n, [n.statement, n.condition, n.incrementor]);
        // copies of the per-iteration bindings: accessors must close over the loop variables, so head() receives them
        return `{ const ${lv} = $$.loop(${id}, ${line}, null); try { ${lab}for (${n.initializer ? (n.initializer.kind === K.VariableDeclarationList ? def(n.initializer) : e(n.initializer)) : ""}; ${lv}.head(${accessors(bodyNames)}) && ${n.condition ? cond(n.condition) : "true"} && ${lv}.enter(); ${n.incrementor ? e(n.incrementor) : ""}) ${stmt(n.statement)} ${lv}.exit(); } finally { ${lv}.done(); } }`;
      }
      case K.ForOfStatement: {
        const ns = loopInfo(n, [n.statement]);
        const init = n.initializer.kind === K.VariableDeclarationList ? def(n.initializer) : raw(n.initializer);
        if (n.awaitModifier) return `${lab}for await (${init} of ${e(n.expression)}) ${stmt(n.statement)}`;
        return `${lab}for (${init} of $$.iter(${e(n.expression)}, ${id}, ${line}, ${accessors(ns)})) ${stmt(n.statement)}`;
      }
      case K.ForInStatement: {
        const init = n.initializer.kind === K.VariableDeclarationList ? def(n.initializer) : raw(n.initializer);
        return `${lab}for (${init} in $$.plainObj(${e(n.expression)})) ${stmt(n.statement)}`;
      }
    }
  }
  function cond(n) {
    const u = unparen(n);
    return `$$.truthy(${e(n)})`;
  }
  function fnName(n) {
    if (n.name && n.name.kind === K.Identifier) return n.name.text;
    if (n.name) return raw(n.name);
    const p = n.parent;
    if (p && p.kind === K.VariableDeclaration && p.name.kind === K.Identifier) return p.name.text;
    if (p && p.kind === K.PropertyAssignment) return raw(p.name);
    if (p && p.kind === K.BinaryExpression && p.left) return raw(p.left).replace(/\s+/g, "");
    return "";
  }
  function func(n) {
    const nm = fnName(n);
    const top = fname.length === 0;
    fname.push((fname.length ? fname[fname.length - 1] + "." : "") + (nm || "anon"));
    let out;
    const q = fname[fname.length - 1];
    if (n.body && n.body.kind === K.Block && n.kind !== K.Constructor && nm) {
      const gen = !!n.asteriskToken;
      const arrow = n.kind === K.ArrowFunction;
      const head = js.slice(n.getStart(sf), n.body.getStart(sf));
      // re-emit head with instrumented parameters
      let h = ""; let pos = n.getStart(sf);
      for (const p of n.parameters) { h += js.slice(pos, p.getStart(sf)) + e(p); pos = p.end; }
      h += js.slice(pos, n.body.getStart(sf));
      const body = e(n.body);
      const isAsync = n.modifiers?.some((m) => m.kind === K.AsyncKeyword);
      if (top && n.kind === K.FunctionDeclaration && !arrow) {
        const ret = gen ? "return yield* $r.v;" : "return $r.v;";
        out = `${h}{ const $r = $$.enter(${J(rel + "#" + q)}, arguments); if ($r) ${ret} ${body.slice(1)}`;
      } else out = `${h}{ $$.enterN(${J(rel + "#" + q)}); ${body.slice(1)}`;
    } else if (n.kind === K.Constructor && n.body && !n.parent.heritageClauses?.some((h) => h.token === K.ExtendsKeyword)) {
      let h = ""; let pos = n.getStart(sf);
      for (const p of n.parameters) { h += js.slice(pos, p.getStart(sf)) + e(p); pos = p.end; }
      out = `${h}${js.slice(pos, n.body.getStart(sf))}{ $$.b(this); ${e(n.body).slice(1)}`;
    } else out = def(n);
    fname.pop();
    return out;
  }
  function e(n) {
    switch (n.kind) {
      case K.PropertyAccessExpression: case K.ElementAccessExpression:
        if (n.flags & ts.NodeFlags.OptionalChain) return chain(n);
        if (isSuper(n)) return def(n);
        if (isPrivate(n)) return `${e(n.expression)}.${n.name.text}`;
        return `$$.get(${e(n.expression)}, ${keyOf(n)})`;
      case K.CallExpression: {
        if (n.flags & ts.NodeFlags.OptionalChain) return chain(n);
        const c = n.expression;
        if (c.kind === K.SuperKeyword || c.kind === K.ImportKeyword || isSuper(c)) return def(n);
        const u = unparen(c);
        if (isMember(u)) {
          if (u.flags & ts.NodeFlags.OptionalChain) return `$$.call(${e(u)}, ${args(n.arguments)})`;
          if (isPrivate(u)) return `${e(u.expression)}.${u.name.text}(...${args(n.arguments)})`;
          return `$$.callm(${e(u.expression)}, ${keyOf(u)}, ${args(n.arguments)})`;
        }
        return `$$.call(${e(c)}, ${args(n.arguments)})`;
      }
      case K.NewExpression: return `$$.new(${e(n.expression)}, ${args(n.arguments ?? [])})`;
      case K.TaggedTemplateExpression: {
        if (n.template.kind === K.NoSubstitutionTemplateLiteral) return raw(n);
        let o = raw(n.tag) + n.template.head.getText(sf);
        for (const s of n.template.templateSpans) o += e(s.expression) + s.literal.getText(sf);
        return o;
      }
      case K.TemplateExpression: {
        const parts = [J(n.head.text)];
        for (const s of n.templateSpans) { parts.push(e(s.expression)); parts.push(J(s.literal.text)); }
        return `$$.tpl([${parts.join(", ")}])`;
      }
      case K.BinaryExpression: {
        const op = n.operatorToken.kind;
        if (op === K.AmpersandAmpersandToken) return pure(n.right) ? `$$.land(${e(n.left)}, () => ${wrapObj(e(n.right))})` : `($$.tst(${e(n.left)}) ? ${e(n.right)} : $$.last())`;
        if (op === K.BarBarToken) return pure(n.right) ? `$$.lor(${e(n.left)}, () => ${wrapObj(e(n.right))})` : `($$.tst(${e(n.left)}) ? $$.last() : ${e(n.right)})`;
        if (op === K.QuestionQuestionToken) return `($$.nn(${e(n.left)}) ? $$.last() : ${e(n.right)})`;
        if (op === K.CommaToken) return def(n);
        if (op === K.EqualsToken) {
          const l = unparen(n.left);
          if (isMember(l) && !isPrivate(l) && !isSuper(l)) return `$$.set(${e(l.expression)}, ${keyOf(l)}, ${e(n.right)})`;
          if (isPrivate(l)) return `${e(l.expression)}.${l.name.text} = ${e(n.right)}`;
          if (l.kind === K.Identifier) return `${l.text} = ${e(n.right)}`;
          return `${raw(l)} = $$.plainObj(${e(n.right)})`;
        }
        if (ASSIGN.has(op)) {
          const o = ASSIGN.get(op), l = unparen(n.left);
          if (l.kind === K.Identifier) return `${l.text} = $$.bin(${J(o)}, ${l.text}, ${e(n.right)})`;
          if (isPrivate(l)) return `${e(l.expression)}.${l.name.text} = $$.bin(${J(o)}, ${e(l)}, ${e(n.right)})`;
          return `$$.setop(${e(l.expression)}, ${keyOf(l)}, ${J(o)}, ${e(n.right)})`;
        }
        if (LOGASSIGN.has(op)) {
          const o = LOGASSIGN.get(op), l = unparen(n.left);
          const get = e(l);
          const st = l.kind === K.Identifier ? `(${l.text} = ${e(n.right)})` : isPrivate(l) ? `(${e(l.expression)}.${l.name.text} = ${e(n.right)})` : `$$.set(${e(l.expression)}, ${keyOf(l)}, ${e(n.right)})`;
          if (o === "??") return `($$.nn(${get}) ? $$.last() : ${st})`;
          if (o === "||") return `($$.tst(${get}) ? $$.last() : ${st})`;
          return `($$.tst(${get}) ? ${st} : $$.last())`;
        }
        const s = ts.tokenToString(op);
        if (s === "in" && n.left.kind === K.PrivateIdentifier) return def(n);
        if (BIN.has(s)) return `$$.bin(${J(s)}, ${e(n.left)}, ${e(n.right)})`;
        throw new Error("operator " + s);
      }
      case K.PrefixUnaryExpression: {
        const o = n.operator;
        if (o === K.PlusPlusToken || o === K.MinusMinusToken) return incdec(n.operand, o === K.PlusPlusToken ? 1 : -1, true);
        if (o === K.ExclamationToken) return `$$.not(${e(n.operand)})`;
        const s = ts.tokenToString(o);
        if (n.operand.kind === K.NumericLiteral || n.operand.kind === K.BigIntLiteral) return def(n);
        return `$$.un(${J(s)}, ${e(n.operand)})`;
      }
      case K.PostfixUnaryExpression: return incdec(n.operand, n.operator === K.PlusPlusToken ? 1 : -1, false);
      case K.TypeOfExpression: {
        const u = unparen(n.expression);
        if (u.kind === K.Identifier) return `$$.typeof(typeof ${u.text} === "undefined" ? undefined : ${u.text})`;
        return `$$.typeof(${e(n.expression)})`;
      }
      case K.DeleteExpression: {
        const u = unparen(n.expression);
        if (u.kind === K.PropertyAccessExpression) return `$$.del(${e(u.expression)}, ${J(u.name.text)})`;
        return `$$.del(${e(u.expression)}, ${e(u.argumentExpression)})`;
      }
      case K.ConditionalExpression: {
        if (pure(n.whenTrue) && pure(n.whenFalse)) return `$$.ite(${e(n.condition)}, () => ${wrapObj(e(n.whenTrue))}, () => ${wrapObj(e(n.whenFalse))})`;
        return `(${cond(n.condition)} ? ${e(n.whenTrue)} : ${e(n.whenFalse)})`;
      }
      case K.ArrayLiteralExpression:
        if (n.parent && ((n.parent.kind === K.BinaryExpression && n.parent.left === n && n.parent.operatorToken.kind === K.EqualsToken) || n.parent.kind === K.ForOfStatement && n.parent.initializer === n)) return raw(n);
        if (n.elements.some((x) => x.kind === K.SpreadElement)) return `$$.arr([${n.elements.map((x) => x.kind === K.SpreadElement ? `$$.sp(${e(x.expression)})` : x.kind === K.OmittedExpression ? "undefined" : e(x)).join(", ")}])`;
        return `$$.b(${def(n)})`;
      case K.ObjectLiteralExpression: {
        const parent = n.parent;
        return `$$.b(${def(n)})`;
      }
      case K.SpreadAssignment: return `...$$.ospread(${e(n.expression)})`;
      case K.ComputedPropertyName: return `[$$.key(${e(n.expression)})]`;
      case K.IfStatement: return `if (${cond(n.expression)}) ${stmt(n.thenStatement)}${n.elseStatement ? ` else ${n.elseStatement.kind === K.IfStatement ? e(n.elseStatement) : stmt(n.elseStatement)}` : ""}`;
      case K.WhileStatement: case K.DoStatement: case K.ForStatement: case K.ForOfStatement: case K.ForInStatement: return loop(n, null);
      case K.LabeledStatement: {
        const k = n.statement.kind;
        if (k === K.WhileStatement || k === K.DoStatement || k === K.ForStatement || k === K.ForOfStatement || k === K.ForInStatement) return loop(n.statement, n.label.text);
        return def(n);
      }
      case K.SwitchStatement: {
        const cs = n.caseBlock.clauses; const keys = []; let o = "";
        let idx = 0; let body = "";
        for (const c of cs) {
          if (c.kind === K.CaseClause) { keys.push(`() => ${wrapObj(e(c.expression))}`); body += ` case ${idx++}: `; } else body += " default: ";
          body += c.statements.map(e).join("\n");
        }
        return `switch ($$.sw(${e(n.expression)}, [${keys.join(", ")}])) {${body} }`;
      }
      case K.CatchClause: {
        if (!n.variableDeclaration) return `catch ($e) { $$.caught($e); ${e(n.block).slice(1)}`;
        if (n.variableDeclaration.name.kind !== K.Identifier) throw new Error("catch pattern");
        const v = n.variableDeclaration.name.text;
        return `catch (${v}) { $$.caught(${v}); ${e(n.block).slice(1)}`;
      }
      case K.FunctionDeclaration: case K.FunctionExpression: case K.ArrowFunction: case K.MethodDeclaration: case K.GetAccessor: case K.SetAccessor: case K.Constructor: return func(n);
      case K.ClassDeclaration: case K.ClassExpression: { fname.push((fname.length ? fname[fname.length - 1] + "." : "") + (n.name?.text ?? "class")); const r = def(n); fname.pop(); return r; }
      case K.YieldExpression: if (n.asteriskToken) return `(yield* $$.iter(${e(n.expression)}))`; return def(n);
      case K.VariableDeclaration:
        if ((n.name.kind === K.ObjectBindingPattern) && n.initializer) return `${e(n.name)} = $$.plainObj(${e(n.initializer)})`;
        if ((n.name.kind === K.ArrayBindingPattern) && n.initializer) return `${e(n.name)} = $$.destr(${e(n.initializer)}, ${n.name.elements.length}, ${n.name.elements.some((x) => x.dotDotDotToken)})`;
        return def(n);
      case K.ImportDeclaration: case K.ExportDeclaration: return raw(n);
      default: return def(n);
    }
  }
  function wrapObj(s) { return s.startsWith("{") ? `(${s})` : s; }
  function incdec(t, d, prefix) {
    t = unparen(t);
    if (t.kind === K.Identifier) return prefix ? `(${t.text} = $$.inc(${t.text}, ${d}))` : `(${t.text} = $$.inc(${t.text}, ${d}), $$.prev())`;
    if (isPrivate(t)) return prefix ? `(${e(t.expression)}.${t.name.text} = $$.inc(${e(t)}, ${d}))` : `(${e(t.expression)}.${t.name.text} = $$.inc(${e(t)}, ${d}), $$.prev())`;
    return `$$.upd(${e(t.expression)}, ${keyOf(t)}, ${d}, ${prefix})`;
  }
  let out = ""; let pos = 0;
  for (const s of sf.statements) { out += js.slice(pos, s.getStart(sf)) + e(s); pos = s.end; }
  return out + js.slice(pos);
}

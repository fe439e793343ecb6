// Lists what a viewer reads of the data it displays, from its syntax tree:
// node reads.js FILE...  (nothing is executed)
'use strict';
const fs = require('fs');
const ts = require(process.env.TYPESCRIPT ||
                   '/opt/veriftools/node/node_modules/typescript');
const K = ts.SyntaxKind;

function analyse(path) {
  const src = ts.createSourceFile(path, fs.readFileSync(path, 'utf8'),
                                  ts.ScriptTarget.Latest, true,
                                  ts.ScriptKind.JS);
  const out = {file: path, reads: [], writes: [], compared: [], indexed: [],
               strings: []};
  const line = n => src.getLineAndCharacterOfPosition(n.getStart()).line + 1;

  // -- scopes: what names are bound to
  const scopes = new Map();
  const isFn = n => ts.isFunctionLike(n) && n.kind !== K.FunctionType;
  function scopeOf(n) {
    while (n && !isFn(n) && n !== src) { n = n.parent; }
    return n;
  }
  function bind(scope, name, value) {
    if (!scopes.has(scope)) { scopes.set(scope, new Map()); }
    const s = scopes.get(scope);
    if (!s.has(name)) { s.set(name, []); }
    s.get(name).push(value);
  }
  function lookup(n, name) {
    for (let s = scopeOf(n); s; s = s === src ? null : scopeOf(s.parent)) {
      if (scopes.has(s) && scopes.get(s).has(name)) {
        return scopes.get(s).get(name);
      }
    }
    return [];
  }
  function bindPattern(scope, pattern, init, kind, position) {
    if (ts.isIdentifier(pattern)) {
      bind(scope, pattern.text, {kind: kind, init: init, position: position});
    } else {
      for (const e of pattern.elements) {
        if (!ts.isBindingElement(e)) { continue; }
        const key = e.propertyName || e.name;
        if (ts.isObjectBindingPattern(pattern) && ts.isIdentifier(key)) {
          out.pending.push([key.text, kind === 'param' || init, e]);
        }
        bindPattern(scope, e.name, init, kind, -1);
      }
    }
  }
  out.pending = [];
  (function bindings(n) {
    if (isFn(n)) {
      n.parameters.forEach((p, i) =>
        bindPattern(n, p.name, null, 'param', i));
      const call = n.parent;
      if (call && ts.isCallExpression(call) &&
          call.expression.getText() === 'd3.json' && n.parameters[1] &&
          ts.isIdentifier(n.parameters[1].name)) {
        scopes.get(n).get(n.parameters[1].name.text).forEach(
          b => { b.loaded = true; });
      }
      if (n.name && ts.isIdentifier(n.name)) {
        bind(scopeOf(n.parent), n.name.text, {kind: 'function', init: n});
      }
    } else if (ts.isVariableDeclaration(n)) {
      const forOf = n.parent.parent && ts.isForOfStatement(n.parent.parent)
        ? n.parent.parent.expression : null;
      bindPattern(scopeOf(n), n.name, n.initializer || forOf, 'var', -1);
    } else if (ts.isBinaryExpression(n) &&
               n.operatorToken.kind === K.EqualsToken &&
               ts.isIdentifier(n.left)) {
      let s = scopeOf(n);
      for (; s !== src; s = scopeOf(s.parent)) {
        if (scopes.has(s) && scopes.get(s).has(n.left.text)) { break; }
      }
      bind(s, n.left.text, {kind: 'var', init: n.right});
    }
    ts.forEachChild(n, bindings);
  })(src);

  // -- which expressions are records of the data
  const busy = new Set();
  function isData(n) {
    if (ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n)) {
      return isData(n.expression);
    }
    if (ts.isIdentifier(n)) {
      return lookup(n, n.text).some(b => {
        if (b.kind === 'param') { return true; }
        if (b.kind !== 'var' || !b.init || busy.has(b)) { return false; }
        busy.add(b);
        const r = isData(b.init);
        busy.delete(b);
        return r;
      });
    }
    if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) {
      return isData(n.expression);
    }
    if (ts.isBinaryExpression(n)) { return isData(n.left) || isData(n.right); }
    if (ts.isConditionalExpression(n)) {
      return isData(n.whenTrue) || isData(n.whenFalse);
    }
    if (ts.isCallExpression(n)) { return n.expression.getText() === 'JSON.parse'; }
    return false;
  }
  function field(n) {
    if (ts.isPropertyAccessExpression(n)) { return n.name.text; }
    if (ts.isElementAccessExpression(n) && n.argumentExpression &&
        ts.isStringLiteralLike(n.argumentExpression)) {
      return n.argumentExpression.text;
    }
    return null;
  }
  // the whole of what is loaded, and not a record of it
  function isTop(n) {
    if (ts.isParenthesizedExpression(n)) { return isTop(n.expression); }
    if (ts.isCallExpression(n)) { return isData(n); }
    if (!ts.isIdentifier(n)) { return false; }
    return lookup(n, n.text).some(b => {
      if (b.kind === 'var' && b.init && !busy.has(b)) {
        busy.add(b);
        const r = isTop(b.init);
        busy.delete(b);
        return r;
      }
      return b.kind === 'param' && b.position === 1 && b.loaded;
    });
  }
  // names that an expression depends on (through variables)
  function mentions(n, depth) {
    const names = new Set(), params = [];
    (function walk(x, d) {
      const f = field(x);
      if (f !== null) { names.add(f); }
      if (ts.isIdentifier(x) && d > 0 &&
          !(ts.isPropertyAccessExpression(x.parent) && x.parent.name === x)) {
        for (const b of lookup(x, x.text)) {
          if (b.kind === 'param') { params.push(b.position); }
          if (b.init && !isFn(b.init)) { walk(b.init, d - 1); }
          if (b.init && isFn(b.init)) { names.add('()'); }
        }
      }
      ts.forEachChild(x, c => walk(c, d));
    })(n, depth);
    return {names: [...names], params: params};
  }

  // -- accesses
  (function walk(n) {
    const f = field(n);
    if (f !== null && isData(n.expression)) {
      const p = n.parent;
      const called = ts.isCallExpression(p) && p.expression === n;
      const assigned = ts.isBinaryExpression(p) && p.left === n &&
        p.operatorToken.kind === K.EqualsToken;
      const record = {name: f, line: line(n), text: n.getText(),
                      top: isTop(n.expression)};
      if (assigned) {
        // (changed, hidden or shown again, but not added)
        const rhs = mentions(p.right, 2).names;
        record.kept = p.right.kind === K.NullKeyword || rhs.includes(f) ||
          rhs.includes('_' + f);
        out.writes.push(record);
      }
      else if (!called) { out.reads.push(record); }
    }
    if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) {
      if (ts.isIdentifier(n.name) || ts.isStringLiteralLike(n.name)) {
        out.writes.push({name: n.name.text, line: line(n)});
      }
    }
    if (ts.isBinaryExpression(n) && [K.EqualsEqualsToken,
        K.EqualsEqualsEqualsToken].includes(n.operatorToken.kind)) {
      for (const [a, b] of [[n.left, n.right], [n.right, n.left]]) {
        const names = mentions(a, 2).names;
        if (ts.isStringLiteralLike(b)) {
          out.compared.push({fields: names, value: b.text, line: line(n)});
        }
      }
    }
    if (ts.isCaseClause(n) && ts.isStringLiteralLike(n.expression)) {
      out.compared.push({fields: mentions(n.parent.parent.expression, 2).names,
                         value: n.expression.text, line: line(n)});
    }
    if (ts.isElementAccessExpression(n) && field(n.expression) !== null &&
        n.argumentExpression && isData(n.expression)) {
      // (what is between the index and the end of links, if any)
      const base = mentions(n.expression.expression, 3);
      const index = mentions(n.argumentExpression, 3);
      out.indexed.push({name: field(n.expression), base: base.names,
                        index: index.names, params: index.params,
                        line: line(n), text: n.getText()});
    }
    if (ts.isStringLiteralLike(n)) { out.strings.push(n.text); }
    ts.forEachChild(n, walk);
  })(src);
  for (const [name, init, e] of out.pending) {
    if (init === true || (init && isData(init))) {
      out.reads.push({name: name, line: line(e), text: e.getText(),
                      top: init !== true ? isTop(init) : null});
    }
  }
  delete out.pending;
  return out;
}

console.log(JSON.stringify(process.argv.slice(2).map(analyse)));

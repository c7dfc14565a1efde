// Rewrites JavaScript (ES2019, produced by the TypeScript compiler) so that every operation that
// could meet a symbolic value goes through the symbolic runtime `$`.
import { createRequire } from 'node:module';
const require = createRequire('/opt/veriftools/node/package.json');
const acorn = require('acorn');

const BIN = { '+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '**': 'pow', '&': 'band', '|': 'bor', '^': 'bxor', '<<': 'shl', '>>': 'sar', '>>>': 'shr', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '===': 'seq', '!==': 'sne', '==': 'eq', '!=': 'ne' };

export function instrument(src, file, fnBase, fnNames) {
  const ast = acorn.parse(src, { ecmaVersion: 2022, sourceType: 'script', allowReturnOutsideFunction: true, locations: true });
  let uid = 0;
  const nameStack = [];

  function kids(node) {
    const out = [];
    for (const k in node) {
      if (k === 'type' || k === 'loc' || k === 'start' || k === 'end') continue;
      const v = node[k];
      if (Array.isArray(v)) { for (const x of v) if (x && typeof x.type === 'string') out.push(x); } else if (v && typeof v.type === 'string') out.push(v);
    }
    out.sort((a, b) => a.start - b.start);
    return out;
  }
  // copies the node's text, replacing children by gen(child)
  function generic(node, f = gen) {
    let out = '', pos = node.start, last = -1;
    for (const ch of kids(node)) {
      if (ch.start < pos || ch.start === last) continue; // shorthand duplicates
      out += src.slice(pos, ch.start) + f(ch);
      pos = ch.end; last = ch.start;
    }
    return out + src.slice(pos, node.end);
  }
  const isNsIdent = (n) => n.type === 'Identifier' && (/_\d+$/.test(n.name) || n.name === 'exports' || n.name === 'module');
  const rawObj = (n) => n.type === 'Super' || n.type === 'ThisExpression' || isNsIdent(n);
  const key = (n) => n.computed ? gen(n.property) : n.property.type === 'PrivateIdentifier' ? null : JSON.stringify(n.property.name);
  const args = (xs) => xs.map((x) => ex(x)).join(', ');
  // `(a, b)` sequences and arrow bodies need parentheses when moved into argument position
  const ex = (n) => n.type === 'SequenceExpression' ? '(' + gen(n) + ')' : gen(n);
  function test(n) {
    if (n.type === 'LogicalExpression' && n.operator !== '??') return `(${test(n.left)} ${n.operator} ${test(n.right)})`;
    if (n.type === 'UnaryExpression' && n.operator === '!') return `!${test(n.argument)}`;
    if (n.type === 'Literal') return gen(n);
    return `$.t(${ex(n)})`;
  }
  function lhs(n) {
    switch (n.type) {
      case 'MemberExpression': return `${rawObj(n.object) ? gen(n.object) : gen(n.object)}${n.computed ? '[' + gen(n.property) + ']' : '.' + src.slice(n.property.start, n.property.end)}`;
      case 'Identifier': return n.name;
      case 'AssignmentPattern': return `${lhs(n.left)} = ${ex(n.right)}`;
      case 'ObjectPattern': return '{' + n.properties.map((p) => p.type === 'RestElement' ? '...' + lhs(p.argument) : (p.computed ? `[$.ck(${gen(p.key)})]` : src.slice(p.key.start, p.key.end)) + ': ' + lhs(p.value)).join(', ') + '}';
      case 'ArrayPattern': return '[' + n.elements.map((e) => e === null ? '' : lhs(e)).join(', ') + (n.elements.at(-1) === null ? ',' : '') + ']';
      case 'RestElement': return '...' + lhs(n.argument);
      default: return gen(n);
    }
  }
  const loopBody = (n) => `{ $.k(); ${gen(n)} }`;
  function fnId(node) {
    const id = fnBase + fnNames.length;
    const nm = nameStack.length ? nameStack.join('.') : '<module>';
    fnNames.push(`${file}:${nm}`);
    return id;
  }
  function fnName(node, fallback) { return node.id ? node.id.name : fallback ?? 'anonymous@' + node.loc.start.line; }
  function func(node, name) {
    nameStack.push(name);
    const id = fnId(node);
    let out;
    if (node.type === 'ArrowFunctionExpression') {
      const ps = '(' + node.params.map(lhs).join(', ') + ')';
      out = (node.async ? 'async ' : '') + ps + ' => ' + (node.expression ? `($.f(${id}), ${ex(node.body)})` : body(node.body, id));
    } else {
      const ps = '(' + node.params.map(lhs).join(', ') + ')';
      out = { ps, body: body(node.body, id) };
    }
    nameStack.pop();
    return out;
  }
  function body(block, id) {
    let i = 0, dir = '';
    while (i < block.body.length && block.body[i].directive !== undefined) { dir += src.slice(block.body[i].start, block.body[i].end) + ' '; i++; }
    return `{ ${dir}$.f(${id}); ` + block.body.slice(i).map(gen).join('\n') + ' }';
  }
  function gen(n) {
    switch (n.type) {
      case 'Program': return n.body.map(gen).join('\n');
      case 'ExpressionStatement': return n.directive !== undefined ? src.slice(n.start, n.end) : wrapStmt(gen(n.expression)) + ';';
      case 'FunctionDeclaration': { const r = func(n, fnName(n)); return `${n.async ? 'async ' : ''}function${n.generator ? '*' : ''} ${n.id ? n.id.name : ''}${r.ps} ${r.body}`; }
      case 'FunctionExpression': { const r = func(n, fnName(n)); return `(${n.async ? 'async ' : ''}function${n.generator ? '*' : ''} ${n.id ? n.id.name : ''}${r.ps} ${r.body})`; }
      case 'ArrowFunctionExpression': return '(' + func(n, fnName(n)) + ')';
      case 'MethodDefinition': {
        const nm = n.computed ? `[${gen(n.key)}]` : src.slice(n.key.start, n.key.end);
        const r = func(n.value, nm);
        return `${n.static ? 'static ' : ''}${n.kind === 'get' ? 'get ' : n.kind === 'set' ? 'set ' : ''}${n.value.async ? 'async ' : ''}${n.value.generator ? '*' : ''}${nm}${r.ps} ${r.body}`;
      }
      case 'Property': {
        if (n.method || n.kind !== 'init') {
          const nm = n.computed ? `[${gen(n.key)}]` : src.slice(n.key.start, n.key.end);
          const r = func(n.value, nm);
          return `${n.kind === 'get' ? 'get ' : n.kind === 'set' ? 'set ' : ''}${n.value.async ? 'async ' : ''}${n.value.generator ? '*' : ''}${nm}${r.ps} ${r.body}`;
        }
        if (n.shorthand) return n.key.name;
        const nm = n.computed ? `[$.ck(${gen(n.key)})]` : src.slice(n.key.start, n.key.end);
        return `${nm}: ${ex(n.value)}`;
      }
      case 'ClassDeclaration': case 'ClassExpression': {
        nameStack.push(n.id ? n.id.name : 'class');
        const r = `class ${n.id ? n.id.name : ''}${n.superClass ? ' extends ' + gen(n.superClass) : ''} {\n${n.body.body.map(gen).join('\n')}\n}`;
        nameStack.pop();
        return n.type === 'ClassExpression' ? `(${r})` : r;
      }
      case 'StaticBlock': return 'static {' + n.body.map(gen).join('\n') + '}';
      case 'PropertyDefinition': throw new Error('class field should have been lowered');
      case 'VariableDeclaration': return n.kind + ' ' + n.declarations.map((d) => lhs(d.id) + (d.init ? ' = ' + named(d.init, d.id) : '')).join(', ') + ';';
      case 'IfStatement': return `if (${test(n.test)}) ${blk(n.consequent)}${n.alternate ? ` else ${blk(n.alternate)}` : ''}`;
      case 'WhileStatement': return `while (${test(n.test)}) ${loopBody(n.body)}`;
      case 'DoWhileStatement': return `do ${loopBody(n.body)} while (${test(n.test)});`;
      case 'ForStatement': return `for (${n.init ? (n.init.type === 'VariableDeclaration' ? gen(n.init) : gen(n.init) + ';') : ';'} ${n.test ? test(n.test) : ''}; ${n.update ? gen(n.update) : ''}) ${loopBody(n.body)}`;
      case 'ForInStatement': return `for (${decl(n.left)} of $.fi(${ex(n.right)})) ${loopBody(n.body)}`;
      case 'ForOfStatement': return `for ${n.await ? 'await ' : ''}(${decl(n.left)} of $.it(${ex(n.right)})) ${loopBody(n.body)}`;
      case 'BlockStatement': return '{ ' + n.body.map(gen).join('\n') + ' }';
      case 'LabeledStatement': return `${n.label.name}: ${gen(n.body)}`;
      case 'ReturnStatement': return n.argument ? `return (${gen(n.argument)});` : 'return;';
      case 'ThrowStatement': return `throw (${gen(n.argument)});`;
      case 'SwitchStatement': {
        const v = '$sw' + uid++;
        return `{ const ${v} = ${ex(n.discriminant)}; switch (true) { ${n.cases.map((cs) => (cs.test ? `case $.t($.seq(${v}, ${ex(cs.test)})): ` : 'default: ') + cs.consequent.map(gen).join('\n')).join('\n')} } }`;
      }
      case 'BinaryExpression':
        if (n.operator === 'instanceof') return `$.io(${ex(n.left)}, ${ex(n.right)})`;
        if (n.operator === 'in') return n.left.type === 'PrivateIdentifier' ? generic(n) : `$.has(${ex(n.left)}, ${ex(n.right)})`;
        return `$.${BIN[n.operator]}(${ex(n.left)}, ${ex(n.right)})`;
      case 'LogicalExpression': {
        const l = ex(n.left), r = ex(n.right);
        if (n.operator === '&&') return `($.t($.h = ${l}) ? ${r} : $.h)`;
        if (n.operator === '||') return `($.t($.h = ${l}) ? $.h : ${r})`;
        return `($.t($.eq($.h = ${l}, null)) ? ${r} : $.h)`;
      }
      case 'UnaryExpression':
        switch (n.operator) {
          case '!': return `$.not(${ex(n.argument)})`;
          case '-': return n.argument.type === 'Literal' ? src.slice(n.start, n.end) : `$.neg(${ex(n.argument)})`;
          case '+': return `$.pos(${ex(n.argument)})`;
          case '~': return `$.bnot(${ex(n.argument)})`;
          case 'typeof': return n.argument.type === 'Identifier' ? `(typeof ${n.argument.name} === 'object' ? $.ty(${n.argument.name}) : typeof ${n.argument.name})` : `$.ty(${ex(n.argument)})`;
          case 'delete': { let a = n.argument; return a.type === 'MemberExpression' ? `$.del(${ex(a.object)}, ${a.computed ? ex(a.property) : JSON.stringify(a.property.name)})` : generic(n); }
          default: return `(${n.operator} (${gen(n.argument)}))`;
        }
      case 'UpdateExpression': {
        const op = n.operator === '++' ? 'inc' : 'dec';
        const a = n.argument;
        if (a.type === 'Identifier') return n.prefix ? `(${a.name} = $.${op}(${a.name}))` : `$.first($.p = $.num(${a.name}), ${a.name} = $.${op}($.p))`;
        if (a.object.type === 'Super' || a.property.type === 'PrivateIdentifier') return generic(n);
        return `$.upd(${ex(a.object)}, ${key(a)}, ${n.operator === '++' ? 1 : -1}, ${n.prefix})`;
      }
      case 'AssignmentExpression': {
        const a = n.left;
        if (n.operator === '=') {
          if (a.type === 'MemberExpression' && a.computed && a.property.type !== 'Literal' && a.object.type !== 'Super') return `$.s(${ex(a.object)}, ${ex(a.property)}, ${ex(n.right)})`;
          return `(${lhs(a)} = ${named(n.right, a)})`;
        }
        const op = n.operator.slice(0, -1);
        if (op === '&&' || op === '||' || op === '??') throw new Error('logical assignment should have been lowered');
        if (a.type === 'Identifier') return `(${a.name} = $.${BIN[op]}(${a.name}, ${ex(n.right)}))`;
        if (a.object.type === 'Super') throw new Error('super compound assignment');
        if (a.object.type === 'ThisExpression' && !a.computed) return `(this.${a.property.name} = $.${BIN[op]}(this.${a.property.name}, ${ex(n.right)}))`;
        return `$.s($.o = ${ex(a.object)}, $.p = ${key(a)}, $.${BIN[op]}($.g($.o, $.p), ${ex(n.right)}))`;
      }
      case 'ConditionalExpression': return `(${test(n.test)} ? ${ex(n.consequent)} : ${ex(n.alternate)})`;
      case 'SequenceExpression': return n.expressions.map(gen).join(', ');
      case 'MemberExpression':
        if (n.property.type === 'PrivateIdentifier') return generic(n);
        if (rawObj(n.object)) return n.computed ? (n.object.type === 'Super' ? generic(n) : `$.g(${gen(n.object)}, ${gen(n.property)})`) : `${gen(n.object)}.${n.property.name}`;
        return `$.g(${ex(n.object)}, ${key(n)})`;
      case 'CallExpression': {
        const cal = n.callee;
        if (cal.type === 'Super' || cal.type === 'Import') return generic(n);
        if (cal.type === 'Identifier' && cal.name === 'require') return generic(n);
        if (cal.type === 'MemberExpression') {
          if (cal.object.type === 'Super' || cal.property.type === 'PrivateIdentifier') return `${generic(cal)}(${args(n.arguments)})`;
          return `$.m(${ex(cal.object)}, ${key(cal)}${n.arguments.length ? ', ' + args(n.arguments) : ''})`;
        }
        return `$.c(${cal.type === 'SequenceExpression' ? '(' + gen(cal) + ')' : gen(cal)}${n.arguments.length ? ', ' + args(n.arguments) : ''})`;
      }
      case 'NewExpression': return `$.nw(${ex(n.callee)}${n.arguments.length ? ', ' + args(n.arguments) : ''})`;
      case 'SpreadElement': return `...$.it(${ex(n.argument)})`;
      case 'ObjectExpression': return (n.properties.some((p) => p.computed && p.kind === 'init' && !p.method) ? '$.ol' : '') + '({' + n.properties.map((p) => p.type === 'SpreadElement' ? '...' + ex(p.argument) : gen(p)).join(', ') + '})';
      case 'ArrayExpression': return '[' + n.elements.map((e) => e === null ? '' : ex(e)).join(', ') + (n.elements.at(-1) === null ? ',' : '') + ']';
      case 'TemplateLiteral': return n.expressions.length === 0 ? src.slice(n.start, n.end) : `$.tpl([${n.quasis.map((q) => JSON.stringify(q.value.cooked)).join(', ')}], [${n.expressions.map(ex).join(', ')}])`;
      case 'TaggedTemplateExpression': {
        const q = n.quasi;
        let out = '`';
        q.quasis.forEach((s, i) => { out += src.slice(s.start, s.end); if (i < q.expressions.length) out += '${' + ex(q.expressions[i]) + '}'; });
        return `${n.tag.type === 'MemberExpression' ? lhs(n.tag) : par(n.tag)}${out}\``;
      }
      case 'AwaitExpression': return `(await ${par(n.argument)})`;
      case 'YieldExpression': return `(yield${n.delegate ? '*' : ''}${n.argument ? ' ' + par(n.argument) : ''})`;
      case 'ParenthesizedExpression': return `(${gen(n.expression)})`;
      case 'ObjectPattern': case 'ArrayPattern': case 'AssignmentPattern': case 'RestElement': return lhs(n);
      case 'ChainExpression': throw new Error('optional chaining should have been lowered');
      default: return generic(n);
    }
  }
  const par = (n) => '(' + gen(n) + ')';
  // keeps function name inference for `x = () => …` although arrow functions are parenthesised (JS keeps it through parentheses)
  function named(n) { return ex(n); }
  function wrapStmt(s) { return s.startsWith('{') || s.startsWith('function') || s.startsWith('class') ? `(${s})` : s; }
  function decl(n) { return n.type === 'VariableDeclaration' ? n.kind + ' ' + n.declarations.map((d) => lhs(d.id)).join(', ') : lhs(n); }
  function blk(n) { return n.type === 'BlockStatement' ? gen(n) : `{ ${gen(n)} }`; }
  const out = gen(ast);
  acorn.parse(out, { ecmaVersion: 2022, sourceType: 'script', allowReturnOutsideFunction: true });
  return out;
}

// The build plugin: minifies the templates of the configured tags, and nothing else.
import { minifyTemplates } from '@repo/tools/esbuild-plugin-minify-templates/src/index.js';
import DATA from './data/c31.mjs';
import { swc } from './stubs/swc.mjs';
import { files } from './stubs/fs.mjs';

const blank = (ch) => ch === ' ' || ch === '\n' || ch === '\r' || ch === '\t';
const bracket = (ch) => ch === '<' || ch === '>';
/** Every line break goes with the blanks after it; next to a bracket nothing stays, elsewhere a space. */
export function minified(s) {
  let out = '';
  for (let i = 0; i < s.length;) {
    const n = s[i] === '\n' ? 1 : s[i] === '\r' && i + 1 < s.length && s[i + 1] === '\n' ? 2 : 0;
    if (n === 0) { out = out + s[i]; i++; continue; }
    let j = i + n; while (j < s.length && blank(s[j])) j++;
    if (!((i > 0 && bracket(s[i - 1])) || (j < s.length && bracket(s[j])))) out = out + ' ';
    i = j;
  }
  return out;
}
function plugin(ctx, host, options) {
  swc.calls.length = swc.printed.length = files.calls.length = 0; swc.fail = undefined;
  const p = minifyTemplates(options);
  const loads = [];
  p.setup({ onLoad: (o, cb) => loads.push([o, cb]) });
  ctx.check(loads.length === 1, 'the plugin loads files');
  const [{ filter, namespace }, load] = loads[0];
  return { filter, namespace, load };
}
/** A copy in which every template's parts and every name H or G are what `make` gives. */
function copy(x, make) {
  if (Array.isArray(x)) return x.map((y) => copy(y, make));
  if (x === null || typeof x !== 'object') return x;
  if (x.type === 'TemplateElement') return { ...x, raw: make.raw(x) };
  const out = {};
  for (const k of Object.keys(x)) out[k] = k === 'value' && x.type === 'Identifier' && (x[k] === 'H' || x[k] === 'G') ? make.name(x[k]) : copy(x[k], make);
  return out;
}
/** The templates that are to be minified. */
function marked(x, is, out = []) {
  if (Array.isArray(x)) { for (const y of x) marked(y, is, out); return out; }
  if (x === null || typeof x !== 'object') return out;
  if (x.type === 'TaggedTemplateExpression') {
    const t = x.tag, name = t.type === 'Identifier' ? t.value : t.type === 'MemberExpression' && t.property.type === 'Identifier' ? t.property.value : undefined;
    if (name !== undefined && is(name)) out.push(x);
  }
  for (const k of Object.keys(x)) marked(x[k], is, out);
  return out;
}
/** The same but for `cooked`, and for the raw text of the quasis of `changed`. */
function sameTree(ctx, a, b, quasi, at) {
  if (Array.isArray(a)) { ctx.check(Array.isArray(b) && a.length === b.length, 'the program keeps its shape', { at }); a.forEach((x, i) => sameTree(ctx, x, b[i], quasi, at)); return; }
  if (a === null || typeof a !== 'object') { ctx.check(a === b, 'all other code stays', { at, was: a, is: b }); return; }
  ctx.check(b !== null && typeof b === 'object', 'the program keeps its shape', { at });
  const ka = Object.keys(a), kb = Object.keys(b);
  ctx.check(ka.every((k) => kb.includes(k)) && kb.every((k) => k === 'cooked' || ka.includes(k)), 'the program keeps its shape', { at, ka, kb });
  for (const k of ka) {
    if (a.type === 'TemplateElement' && k === 'cooked') continue;
    if (a.type === 'TemplateElement' && k === 'raw') { const want = quasi.has(a) ? minified(a.raw) : a.raw; ctx.check(b.raw === want, quasi.has(a) ? 'the templates of the configured tags are minified' : 'other templates stay', { at, was: a.raw, is: b.raw, want }); continue; }
    sameTree(ctx, a[k], b[k], quasi, at + '.' + k);
  }
}
const TAGS = [undefined, ['html'], ['x', 'html'], [], ['y']];
export default async function main(ctx, c, host) {
  if (c.files) {
    const p = plugin(ctx, host, undefined);
    const name = ctx.str('name', c.files, [[46, 46], [106, 106], [115, 116], [120, 120], [109, 109]]);
    const path = '/a.b/x' + name;
    const ends = (e) => path.length >= e.length && path.slice(path.length - e.length) === e;
    const ext = ends('.js') ? 'js' : ends('.jsx') ? 'jsx' : ends('.ts') ? 'ts' : ends('.tsx') ? 'tsx' : undefined;
    ctx.check(p.namespace === undefined || p.namespace === 'file', 'the plugin handles files');
    ctx.check(p.filter.test(path) === (ext !== undefined), 'the plugin handles exactly the JavaScript and TypeScript files', { path });
    if (ext === undefined) { ctx.reach('other files'); return; }
    const text = 'html` \n `';
    files.read = () => text;
    const fails = ctx.choose('fails', 3);
    const tree = copy(JSON.parse(DATA).js[0].ast, { raw: () => ' \n ', name: () => 'html' });
    swc.fail = fails === 2 ? 'print' : undefined;
    swc.parse = () => { if (fails === 1) throw new Error('parse'); return tree; };
    const r = await p.load({ path, namespace: 'file', suffix: '', pluginData: undefined, with: {} });
    ctx.check(files.calls.length === 1 && files.calls[0][0] === path && (files.calls[0][1] === 'utf8' || files.calls[0][1]?.encoding === 'utf8' || files.calls[0][1] === 'utf-8'), 'the file is read as text', { path });
    ctx.check(swc.calls.length === 1, 'the file is parsed');
    const [input, o] = swc.calls[0];
    ctx.check(input === text, 'what is parsed is the text of the file');
    ctx.check(o.syntax === (ext[0] === 't' ? 'typescript' : 'ecmascript'), 'as the language its name stands for', { path });
    if (ext === 'jsx') ctx.check(o.jsx === true, 'jsx files may contain elements');
    ctx.check(ext[0] !== 't' || (o.tsx ?? false) === (ext === 'tsx'), 'exactly tsx files may contain elements', { path });
    if (fails > 0) { ctx.check(r === undefined || r === null, 'files that cannot be transformed are left to esbuild', { fails }); ctx.reach('failed'); return; }
    ctx.check(r.contents === 'printed1' && r.loader === ext, 'the result is loaded as the same language', { loader: r.loader });
    ctx.reach('transformed');
    return;
  }
  const options = TAGS[c.tags] === undefined ? (c.empty ? {} : undefined) : { tagNames: [...TAGS[c.tags]] };
  const is = (name) => TAGS[c.tags] === undefined ? name === 'html' || name === 'svg' || name === 'math' || name === 'css' : TAGS[c.tags].some((t) => t === name);
  const p = plugin(ctx, host, options);
  const H = c.names === undefined ? 'html' : c.names[ctx.choose('H', c.names.length)];
  const G = c.names === undefined ? 'g' : c.names[ctx.choose('G', c.names.length)];
  const chosen = c.chars === undefined ? -1 : c.where;
  const fixed = ['>\n a', 'b\r\n<', '\n c\n \td ', ' e \n', '<\n\n', '\n'];
  const raws = { raw: ({ raw: i }) => { return i === chosen ? ctx.str(c.id ?? 'raw', c.chars, c.alphabet) : fixed[i % fixed.length] + i; }, name: (x) => (x === 'H' ? H : G) };
  for (const { src, ast, pieces } of JSON.parse(DATA)[c.ext].slice(c.from, c.to)) {
    swc.calls.length = swc.printed.length = 0;
    const before = copy(ast, raws);
    const given = copy(before, { raw: (x) => x.raw, name: (x) => x });
    swc.parse = (input) => { ctx.check(input === text, 'the file is parsed as it is', { src }); return given; }; 
    let text = ''; for (const x of pieces) text = text + (typeof x === 'string' ? x : x.name === undefined ? raws.raw({ raw: x.n }) : raws.name(x.name));
    files.read = () => text;
    const r = await p.load({ path: '/a/b.' + c.ext, namespace: 'file', suffix: '', pluginData: undefined, with: {} });
    const templates = marked(before, is), quasi = new Set(templates.flatMap((t) => t.template.quasis));
    ctx.check(r !== undefined && r !== null && r.loader === c.ext, 'the file is transformed', { src, is: r });
    if (r.contents === text) {
      ctx.check([...quasi].every((x) => minified(x.raw) === x.raw), 'a program with templates to minify is changed', { src });
      ctx.reach('kept');
      continue;
    }
    ctx.check(swc.printed.length === 1 && r.contents === 'printed1', 'the result is the program printed', { src });
    sameTree(ctx, before, swc.printed[0][0], quasi, src);
    ctx.reach('minified');
  }
}

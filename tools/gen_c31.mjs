// Parses the programs of C31 with the real swc once; harness/data/c31.mjs is committed.  Run from /repo/tools/esbuild-plugin-minify-templates.
import { createRequire } from 'node:module';
import fs from 'node:fs';
const swc = createRequire('/repo/tools/esbuild-plugin-minify-templates/package.json')('@swc/core');
// T stands for a template with tag H; every template has one or two quasis
const P = {
  js: [
    'H`q`;', 'const a = H`q${x}q`;', 'H`q${x}q${y}q${G`q${z}q${z}q`}q`;', 'let [a = H`q`, { b = H`q`, [H`q`]: c }] = d;', 'export default H`q`;', 'export const a = () => H`q`;', 'export default function () { return H`q${H`q`}q`; }',
    'function f(a = H`q`, { b } = H`q`, ...c) { if (H`q`) return H`q`; else throw H`q`; }', 'class A extends H`q` { a = H`q`; static b = H`q`; #c = H`q`; static { H`q`; } [H`q`] = 1; get d() { return H`q`; } constructor(x = H`q`) { super(H`q`); } async *e() { yield H`q`; await H`q`; } }',
    'for (let i = H`q`; H`q`; i = H`q`) { H`q`; } for (const x of H`q`) H`q`; for (const k in H`q`) H`q`;', 'while (H`q`) { do { H`q`; } while (H`q`); }', 'switch (H`q`) { case H`q`: H`q`; break; default: H`q`; }', 'try { H`q`; } catch ({ a = H`q` }) { H`q`; } finally { H`q`; }', 'l: { H`q`; }',
    '({ a: H`q`, [H`q`]: 1, ...H`q`, m() { return H`q`; }, get g() { return H`q`; } });', '[H`q`, ...H`q`, , H`q`];', 'f(H`q`, ...H`q`); new F(H`q`); a?.b(H`q`); a?.[H`q`]; a[H`q`].c;', 'a = H`q` ? H`q` : H`q`; a ||= H`q`; (H`q`, H`q`); !H`q`; H`q` + H`q`; typeof H`q`; a ?? H`q`;', '`q${H`q`}q`;', 'G`q${H`q${G`q`}q`}q`; H`q${G`q${H`q`}q`}q`;', 'A.H`q`; A.b.H`q`; this.H`q`; f().H`q`; A["H"]`q`; A[H]`q`; A.#H;'.replace(' A.#H;', ''), 'H.x`q`; f(H)`q`; H`q``q`; H`q`.length; H?.a`x`;'.replace(' H?.a`x`;', ''), 'async () => { for await (const x of H`q`) await H`q`; };', 'import("x" + H`q`); export { a };', 'const f = async (a = H`q`) => { return { H: H`q` }; };', 'class B { @d x; }'.replace('@d ', ''), 'if (a) H`q`; else if (b) H`q`; else { H`q`; }', 'String.raw`q`; css`q${x}q`; "H`q`"; /H`q`/;', 'var a = function H() { return H`q${() => H`q`}q`; };', 'x.y = class { static H = H`q`; };', 'delete a[H`q`]; a in H`q`; a instanceof H`q`;',
  ],
  jsx: ['const a = <div a={H`q`} {...H`q`}>{H`q`}te\n <i/>\n xt<b.c d="H`q`"/>{/* c */}<>{H`q`}</></div>;'],
  ts: ['const a = H<string>`q`; const b = H`q` as string; const c = H`q`!; const d = <any>H`q`; const e = H`q` satisfies T;', 'enum E { A = f(H`q`), B }', 'namespace N { export const a = H`q`; }', 'class A { constructor(private a = H`q`, public readonly b: T) {} declare c: T; d?: T = H`q`; }', 'type T = `q${string}q`; interface I { H: string }', 'export = H`q`;', 'abstract class A<T> extends X implements I { protected a: T = H`q`; override b(): void { H`q`; } }', 'function f(this: T, a?: T, b: T = H`q`): asserts a { H`q`; }', 'const x = { H: H`q` } as const; let y = (H`q`); declare const z: T;', 'import x = require("x"); export import y = N.y; x(H`q`);'],
  tsx: ['const A = <T,>(p: T) => <C<T> a={H`q` as T}>{p ? H`q` : <i>{H`q`}</i>}</C>;'],
};
const out = {};
for (const [ext, list] of Object.entries(P)) {
  out[ext] = [];
  for (const src of list) out[ext].push({ src, ast: await swc.parse(src, { syntax: ext.startsWith('ts') ? 'typescript' : 'ecmascript', jsx: ext === 'jsx', tsx: ext === 'tsx' }) });
}
// the source in pieces: text, or { n: index of a template part }, or { name: 'H' | 'G' }
for (const list of Object.values(out)) for (const p of list) {
  const base = p.ast.span.start, marks = [];
  const find = (x) => { if (x === null || typeof x !== 'object') return; if (x.type === 'TemplateElement') marks.push([x.span.start - base, x.span.end - base, x]); if (x.type === 'Identifier' && /^[HG]$/.test(x.value)) marks.push([x.span.start - base, x.span.end - base, x]); for (const k of Object.keys(x)) find(x[k]); };
  find(p.ast);
  marks.sort((a, b) => a[0] - b[0] || a[1] - b[1]);
  p.pieces = []; let at = 0, n = 0;
  for (const [from, to, x] of marks) {
    if (from < at) { if (x.type === 'Identifier') continue; throw new Error('overlap in ' + p.src); } // a shorthand is one name
    p.pieces.push(p.src.slice(at, from)); at = to;
    if (x.type === 'Identifier') { if (p.src.slice(from, from + 1) !== x.value) throw new Error('misplaced in ' + p.src); p.pieces.push({ name: x.value }); } else { if (p.src.slice(from, to) !== x.raw) throw new Error('misplaced in ' + p.src); p.pieces.push({ n }); x.raw = n++; }
  }
  p.pieces.push(p.src.slice(at));
}
const bare = (x) => { if (x === null || typeof x !== 'object') return; for (const k of Object.keys(x)) { if (k === 'span') x[k] = 0; else bare(x[k]); } };
bare(out);
const text = '// Made by tools/gen_c31.mjs: programs as parsed by swc 1 (spans left out).\nexport default ' + JSON.stringify(JSON.stringify(out)) + ';\n';
fs.writeFileSync('/verif/harness/data/c31.mjs', text);
console.log(Object.entries(out).map(([k, v]) => k + ' ' + v.length).join(', '), text.length);

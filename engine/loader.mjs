// Reads the current TypeScript sources of /repo and the harness, and produces two versions of
// every module: the real one (types stripped, nothing else) and the symbolic one.
import fs from 'node:fs';
import path from 'node:path';
import { createRequire } from 'node:module';
import { instrument } from './instrument.mjs';
const require = createRequire('/opt/veriftools/node/package.json');
const ts = require('typescript');

export const REPO = process.env.VERIF_REPO || '/repo';
export const VERIF = path.dirname(path.dirname(new URL(import.meta.url).pathname));
export const ENV_NAMES = ['window', 'document', 'Element', 'Node', 'XMLSerializer', 'requestAnimationFrame', 'cancelAnimationFrame', 'requestIdleCallback', 'setTimeout', 'clearTimeout', 'scheduler', 'MessageChannel', 'crypto', 'console', 'performance', 'Map', 'Set', 'navigation', 'location', 'Event', 'AbortController', 'URL', 'host', 'ctx'];

function resolveFile(spec, from, stubs = {}) {
  let p;
  if (stubs['pkg:' + spec] !== undefined) return path.join(VERIF, 'harness', stubs['pkg:' + spec]);
  if (spec.startsWith('@src/')) p = path.join(REPO, 'src', spec.slice(5));
  else if (spec.startsWith('@repo/')) p = path.join(REPO, spec.slice(6));
  else if (spec.startsWith('@h/')) p = path.join(VERIF, 'harness', spec.slice(3));
  else if (spec.startsWith('@e/')) p = path.join(VERIF, 'engine', spec.slice(3));
  else if (spec.startsWith('.')) p = path.resolve(path.dirname(from), spec);
  else return null;
  if (p.endsWith('.js') && !fs.existsSync(p)) p = p.slice(0, -3) + '.ts';
  return p;
}
function transpile(text, file, target) {
  const r = ts.transpileModule(text, {
    fileName: file.replace(/\.mjs$/, '.ts'),
    compilerOptions: { module: ts.ModuleKind.CommonJS, target, esModuleInterop: true, isolatedModules: true, useDefineForClassFields: true, allowUnusedLabels: true, removeComments: true, importHelpers: false },
    reportDiagnostics: true,
  });
  const errs = (r.diagnostics ?? []).filter((d) => d.category === ts.DiagnosticCategory.Error);
  if (errs.length) throw new Error('cannot parse ' + file + ': ' + ts.flattenDiagnosticMessageText(errs[0].messageText, '\n'));
  return r.outputText;
}
/** Modules replaced in both versions: module path suffix, or pkg:NAME for a package -> file under harness. */
export function prepare(entry, stubs = {}) {
  const modules = {};
  const fnNames = [];
  const visit = (file) => {
    if (modules[file]) return;
    const m = (modules[file] = { deps: {}, sym: null, real: null });
    let real = file;
    for (const suffix in stubs) if (file.endsWith(suffix)) real = path.join(VERIF, 'harness', stubs[suffix]);
    const text = fs.readFileSync(real, 'utf8');
    m.real = transpile(text, real, ts.ScriptTarget.ES2022);
    const low = transpile(text, real, ts.ScriptTarget.ES2019);
    const label = file.startsWith(REPO) ? path.relative(REPO, file) : 'verif:' + path.basename(file);
    m.sym = instrument(low, label, 0, fnNames);
    const re = /\brequire\("([^"]+)"\)/g;
    for (const match of low.matchAll(re)) {
      const r = resolveFile(match[1], file, stubs);
      if (r !== null) { m.deps[match[1]] = r; }
    }
    for (const match of m.real.matchAll(re)) {
      const r = resolveFile(match[1], file, stubs);
      if (r !== null) { m.deps[match[1]] = r; }
    }
    for (const d of Object.values(m.deps)) visit(d);
  };
  const e = resolveFile(entry, VERIF + '/x.mjs');
  visit(e);
  return { entry: e, modules, fnNames };
}

/** Compiles a prepared program once; instantiate() gives a fresh module graph. */
export class Program {
  constructor(prep, symbolic) {
    this.prep = prep; this.symbolic = symbolic;
    this.fns = {};
  }
  wrapper(file) {
    let f = this.fns[file];
    if (f === undefined) {
      const m = this.prep.modules[file];
      const code = (this.symbolic ? m.sym : m.real) + `\n//# sourceURL=${this.symbolic ? 'sym' : 'real'}:${file}`;
      f = this.fns[file] = new Function('exports', 'require', 'module', '$', ...ENV_NAMES, code);
    }
    return f;
  }
  instantiate($, env) {
    const cache = {};
    const envArgs = ENV_NAMES.map((n) => env[n]);
    const load = (file) => {
      const hit = cache[file];
      if (hit !== undefined) return hit.exports;
      const module = (cache[file] = { exports: {} });
      const m = this.prep.modules[file];
      const req = (spec) => {
        const d = m.deps[spec];
        if (d !== undefined) return load(d);
        throw new Error(`module ${spec} is outside the program`);
      };
      this.wrapper(file).call(undefined, module.exports, req, module, $, ...envArgs);
      return module.exports;
    };
    return { load, entry: load(this.prep.entry) };
  }
}

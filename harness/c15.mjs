// Style bindings show exactly the requested properties.
import { createComponent, createFragment, html } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';
const NAME = [[97, 122], [65, 90], [45, 45]], VALUE = [[97, 122], [48, 57], [32, 32]];
const isUpper = (ch) => ch >= 'A' && ch <= 'Z';
/** The documented kebab-case name. */
function kebab(name) {
  let out = '';
  for (const p of ['webkit', 'moz', 'ms', 'o']) if (name.length > p.length && name.slice(0, p.length) === p && isUpper(name[p.length])) { out = '-'; break; }
  for (let i = 0; i < name.length; i++) out += isUpper(name[i]) ? '-' + name[i].toLowerCase() : name[i];
  return out;
}
const longhands = (n) => n === 'margin' || n === 'padding' ? ['top', 'right', 'bottom', 'left'].map((side) => n + '-' + side) : [n];
function fakeStyle() { // records what the binding asks for
  const props = [];
  const at = (n) => props.findIndex((p) => p[0] === n);
  return {
    props, cssText: '', [Symbol.iterator]() { return props.map((p) => p[0])[Symbol.iterator](); },
    setProperty(name, v) { for (const n of longhands(name)) this.set(n, v); },
    removeProperty(name) { for (const n of longhands(name)) this.remove(n); return ''; },
    set(n, v) { const i = at(n); if (v === '') { if (i >= 0) props.splice(i, 1); } else if (i < 0) props.push([n, v]); else props[i][1] = v; },
    remove(n) { const i = at(n); if (i >= 0) props.splice(i, 1); },
  };
}
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const through = { A: createComponent(function A(props) { return props.v; }, { arePropsEqual: () => false }), B: createComponent(function B(props) { return through.A(props); }, { arePropsEqual: () => false }) };
  const pass = (v, s) => through[c.through?.[s]]?.({ v }) ?? v; // values that components return
  if (!c.real) {
    const styles = new WeakMap();
    Object.defineProperty(Object.getPrototypeOf(document.createElement('p')), 'style', { configurable: true, get() { let s = styles.get(this); if (s === undefined) { s = fakeStyle(); styles.set(this, s); } return s; } });
  }
  let uid = 0;
  const val = (k, n) => k === 'v' ? ctx.str(n, 2, [[97, 122]]) : k === 's' ? ctx.str(n, 1, [[97, 122]]) : k === 'e' ? '' : k === 'n' ? ctx.any(n, ['null', 'undefined']) : k === '?' ? (ctx.flag(n + '.on') ? ctx.str(n, 1, [[97, 122]]) : undefined) : k;
  const make = (n, spec) => { // -> { v, props: [[css name, value]] }
    if (c.drop && spec.length > 1) { const at = ctx.choose(n + '.drop', spec.length + 1); spec = spec.filter((_, i) => i !== at); }
    if (spec === 'x') return { v: ctx.any(n, ['null', 'undefined']), props: [] };
    if (typeof spec === 'string') { // css text: name=kind;name=kind
      let text = '';
      const props = [];
      spec.split(';').filter(Boolean).forEach((d, i) => { const [name, k] = d.split('='); const v = val(k, n + '.t' + i); text += name + ': ' + v + ';'; props.push([name, v]); });
      return { v: text, props };
    }
    const v = {}, props = [];
    const keys = [];
    if (c.turn) { const from = ctx.choose(n + '.from', spec.length); spec = [...spec.slice(from), ...spec.slice(0, from)]; }
    spec.forEach(([pattern, k], i) => {
      let key = '';
      [...pattern].forEach((ch, j) => { key += ch === '?' ? ctx.str(`${n}.k${i}.${j}`, 1, NAME) : ch; });
      for (const k2 of keys) ctx.assume(k2 !== key);
      keys.push(key);
      const value = val(k, `${n}.v${i}`);
      v[key] = value;
      if (value != null) for (const n of longhands(kebab(key))) props.push([n, value]);
    });
    return { v, props };
  };
  const template = (v) => html`<p style=${v}></p>`;
  let el = null;
  const verify = (vals, label) => {
    const want = vals.flatMap((x) => x.props).filter((p) => p[1] !== '');
    const read = (n) => { if (c.real) return el.style.getPropertyValue(n); const p = el.style.props.find((q) => q[0] === n); return p === undefined ? '' : p[1]; };
    for (const [n, v] of want) ctx.check(ctx.same(read(n), v), label + ': a requested property has its value', { n, v, got: read(n) });
    ctx.check(c.real ? el.style.length === want.length : el.style.props.every((p) => want.some((w) => w[0] === p[0])), label + ': no other property is set', { want, got: c.real ? el.style.cssText : el.style.props });
    ctx.obs('style', c.real ? el.style.length : el.style.props);
  };
  for (let s = 0; s < c.steps.length; s++) {
    const vals = c.list ? c.steps[s].map((k, i) => make(`s${s}.${i}`, k)) : [make('s' + s, c.steps[s])];
    const all = vals.flatMap((x) => x.props);
    all.forEach((p, i) => all.slice(0, i).forEach((o) => ctx.assume(o[0] !== p[0])));
    const h = await show(app, template(c.list ? createFragment(vals.map((x) => pass(x.v, s))) : pass(vals[0].v, s)));
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const e = app.container.querySelector('p');
    ctx.check(el === null || e === el, 'the element stays');
    el = e;
    verify(vals, 'after a render');
  }
  if (c.list) { await show(app, template(createFragment([]))); verify([], 'after unmounting the binding'); }
  ctx.reach('styles');
}

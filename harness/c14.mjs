// Class bindings show exactly the requested classes.
import { createComponent, createFragment, html } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';
const LETTERS = [[97, 122], [32, 32], [10, 10]], LETTER = [[97, 122]];
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const through = { A: createComponent(function A(props) { return props.v; }, { arePropsEqual: () => false }), B: createComponent(function B(props) { return through.A(props); }, { arePropsEqual: () => false }) };
  const pass = (v, s) => through[c.through?.[s]]?.({ v }) ?? v; // values that components return
  const make = (name, k) => { // -> { v, parts: [[string, enabled]] }
    if (k === 'x') { const v = ctx.any(name, ['undefined', 'null']); return { v, parts: [] }; }
    if (k === 'E') return { v: '', parts: [] };
    if (k[0] === 's') { const s = ctx.str(name, Number(k[1]), LETTERS); return { v: s, parts: [[s, true]] }; }
    if (k[0] === 'n') { const n = ctx.int(name, 0, 9); return { v: n, parts: [[String(n), true]] }; }
    if (k[0] === 'o' || k[0] === 'w') { // given names, each there or not: an object, starting at any of them, or a string
      const v = {}, parts = [], n = Number(k.slice(1)), from = c.turn ? ctx.choose(name + '.from', n) : 0;
      for (let i = 0; i < n; i++) { const key = 'w' + (i + from) % n + (c.list ? 'l' + name.split('.')[1] : ''), on = k[0] === 'o' ? ctx.bool(`${name}.b${(i + from) % n}`) : ctx.flag(`${name}.b${(i + from) % n}`); if (k[0] === 'o' || on) { parts.push([key, on]); v[key] = on; } }
      return { v: k[0] === 'o' ? v : Object.keys(v).join(c.turn ? '\n ' : ' '), parts };
    }
    // m<len><len>…: an object with a key of each length, & two letters with a blank between them
    const v = {}, parts = [];
    [...k.slice(1)].forEach((len, i) => {
      const key = len === '&' ? ctx.str(name + '.p' + i, 1, LETTER) + ' ' + ctx.str(name + '.q' + i, 1, LETTER) : ctx.str(name + '.k' + i, Number(len), LETTERS), on = ctx.bool(name + '.b' + i);
      for (const [k2] of parts) ctx.assume(k2 !== key);
      v[key] = on;
      parts.push([key, on]);
    });
    return { v, parts };
  };
  const fixed = c.fixed ? ['X', 'Y-1'] : [];
  const add = (e) => { for (const x of fixed) e.classList.add(x); };
  const template = (v) => c.fixed ? html`<p ${add} class=${v}></p>` : html`<p class=${v}></p>`;
  const list = c.list;
  let el = null, foreign = [], prev = null;
  const verify = (vals, label) => {
    const want = [];
    for (const val of vals) for (const [s, on] of val.parts) for (const tok of s.split(/\s+/)) {
      if (tok === '') continue;
      const i = want.indexOf(tok);
      if (on && i < 0) want.push(tok); else if (!on && i >= 0) want.splice(i, 1);
    }
    const got = [...el.classList];
    for (const w of want) ctx.check(got.includes(w), label + ': a requested class is there', { w, got });
    for (const f of [...fixed, ...foreign]) ctx.check(got.includes(f), label + ': other classes stay', { f, got });
    ctx.check(got.length === want.length + fixed.length + foreign.length, label + ': no other class is there', { got, want });
    ctx.obs('classes', got);
  };
  for (let s = 0; s < c.steps.length; s++) {
    const vals = list ? c.steps[s].map((k, i) => make(`v${s}.${i}`, k)) : [make('v' + s, c.steps[s])];
    const toks = vals.map((x) => x.parts.flatMap(([p]) => p.split(/\s+/)).filter((t) => t !== ''));
    toks.forEach((a, i) => toks.slice(0, i).forEach((b) => a.forEach((x) => b.forEach((y) => ctx.assume(x !== y)))));
    const v = list ? createFragment(vals.map((x, i) => pass(x.v, s))) : pass(vals[0].v, s);
    const tree = template(v);
    const h = await show(app, tree);
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const e = app.container.querySelector('p');
    ctx.check(el === null || e === el, 'the element stays');
    el = e;
    verify(vals, 'after a render');
    if (c.foreign && s === 0) { foreign = ['Q']; el.classList.add('Q'); }
    prev = vals;
  }
  if (c.same) { // rendering the same values again changes nothing
    const before = [...el.classList];
    const v = list ? createFragment(prev.map((x) => x.v)) : prev[0].v;
    await show(app, template(v));
    ctx.check(ctx.eq([...el.classList], before), 'the same value changes nothing');
  }
  if (list) { // the binding disappears while the element stays
    const h = await show(app, template(createFragment([])));
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    verify([], 'after unmounting the binding');
  }
  ctx.reach('classes');
}

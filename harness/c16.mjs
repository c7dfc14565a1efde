// Composed templates equal the template written out by hand.
import { Partial, html, svg, math } from '@src/index.js';
import { content, mount, show } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  let n = 0;
  const alphabet = [[97, 99]];
  const S = (len) => len === 0 ? '' : ctx.str('s' + n++, len, alphabet);
  const strs = (k, lens) => Array.from({ length: k }, (_, i) => S(lens?.[i % lens.length] ?? 1));
  // A description of a composition: 'v' a value, or a list (a partial holding those), or 'l' a literal partial.
  const mk = (d, path) => {
    if (d === 'v') return { v: ctx.atom('v' + path) };
    if (d === 'l') { const s = S(1); return { partial: Partial.literal(s), strings: [s], values: [] }; }
    const strings = c.share?.[path] ? shared(path, d.length + 1) : strs(d.length + 1, c.lens);
    const kids = d.map((x, i) => mk(x, path + i));
    const flat = flatten(strings, kids);
    return { partial: Partial.parse(strings, ...kids.map((k) => k.partial ?? k.v)), raw: strings, args: kids.map((k) => k.partial ?? k.v), ...flat };
  };
  const flatten = (strings, kids) => { // what writing the text in place gives
    const out = [strings[0]], values = [];
    kids.forEach((k, i) => {
      if (k.partial) {
        out[out.length - 1] = out.at(-1) + k.strings[0];
        k.values.forEach((v, j) => { values.push(v); out.push(k.strings[j + 1]); });
        out[out.length - 1] = out.at(-1) + strings[i + 1];
      } else { values.push(k.v); out.push(strings[i + 1]); }
    });
    return { strings: out, values };
  };
  const pool = {};
  const shared = (key, k) => (pool[key] ??= strs(k, c.lens));
  const outer = {};
  const compose = (d, i) => {
    // The same template text is composed again and again: one strings array per number of holes.
    const strings = (outer[d.length] ??= strs(d.length + 1, c.lens));
    const kids = d.map((x, j) => mk(x, `${i}.${j}`));
    const want = flatten(strings, kids);
    const args = kids.map((k) => k.partial ?? k.v);
    const got = Partial.parse(strings, ...args);
    const check = (p, label) => {
      ctx.check(p.strings.length === want.strings.length && p.values.length === want.values.length && p.strings.length === p.values.length + 1, label + ': as many strings and values', { got: p.strings.length, want: want.strings.length });
      for (let j = 0; j < Math.min(p.strings.length, want.strings.length); j++) ctx.check(ctx.same(p.strings[j], want.strings[j]), label + ': the strings are those written in place', { i, j, got: p.strings[j], want: want.strings[j] });
      for (let j = 0; j < Math.min(p.values.length, want.values.length); j++) ctx.check(ctx.same(p.values[j], want.values[j]), label + ': the values are in order', { i, j });
    };
    check(got, 'composed');
    const mode = ctx.pick('mode' + i, c.modes ?? ['html']);
    const el = { html: Partial.html, svg: Partial.svg, math: Partial.math }[mode](strings, ...args);
    ctx.check(el.props.mode === mode, 'the element has the mode of its tag');
    check({ strings: el.type, values: el.children.map((x) => x.props.value) }, 'as an element');
    ctx.check(el.type === got.strings, 'composing again with the same partials gives the identical strings', { i });
    // Equal partials that are not the same objects.
    const clone = kids.map((k) => (k.partial ? (k.raw ? Partial.parse([...k.raw], ...k.args) : Partial.literal(k.strings[0])) : ctx.atom('w' + i)));
    const again = Partial.parse(strings, ...clone);
    ctx.check(again.strings === got.strings, 'composing again with equal partials gives the identical strings', { i });
    if (c.text) ctx.check(ctx.same(got.toString(), want.strings.reduce((a, s, j) => a + s + (j < want.values.length ? want.values[j] : ''), '')), 'as text, strings and values are joined in order');
    return { got, want, strings };
  };
  const done = c.seq.map(compose);
  for (let i = 0; i < done.length; i++) for (let j = 0; j < i; j++) {
    if (done[i].strings !== done[j].strings) { ctx.check(done[i].got.strings !== done[j].got.strings || done[i].got.values.length === done[i].want.values.length, 'other templates do not share'); continue; }
    const same = done[i].want.strings.length === done[j].want.strings.length ? ctx.eq(done[i].want.strings, done[j].want.strings) : false;
    if (done[i].got.strings === done[j].got.strings) ctx.check(same, 'different compositions do not share their strings', { i, j });
  }
  ctx.reach('composed');
}

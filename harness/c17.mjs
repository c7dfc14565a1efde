// Templates: the i-th value is bound at the i-th hole, everything else stays as written.
import { html, math, Ref, svg, text } from '@src/index.js';
import { mount, settle, show } from './lib/app.mjs';

const MODE = { html, svg, math, text };
const TAGS = { html: ['div', 'b', 'ul', 'x-y'], svg: ['g', 'circle', 'foreignObject', 'rect'], math: ['mrow', 'mstyle', 'mrow', 'mstyle'] };
const blank = (ch) => ch === ' ' || ch === '\n';
/** Blanks at either end that contain a line break are dropped. */
function strip(s) {
  let i = 0, nl = false; while (i < s.length && blank(s[i])) { if (s[i] === '\n') nl = true; i++; }
  if (nl) s = s.slice(i);
  let j = s.length; nl = false; while (j > 0 && blank(s[j - 1])) { j--; if (s[j] === '\n') nl = true; }
  return nl ? s.slice(0, j) : s;
}
const ATTR = [(n) => [`${n}=`, ''], (n) => [`${n}="`, '"'], (n) => [`${n} = '`, "'"], (n) => [`${n}\n=\n"`, '"'], (n) => [`${n} \n= \n"`, '"']];
const CHILD = [['<', '>'], ['<', '/>'], ['<!--', '-->'], ['<!-- ', ' -->'], ['<', ' />']];
const NAMES = { t: (i) => 'tItle' + i, p: (i) => '.fooBar' + i, e: (i) => '@evT' + i, l: (i) => '$liVe' + i, v: () => 'viewBox', c: () => 'class', y: () => 'style', C: () => 'claSS', Y: () => 'Style' };

// what no hole can be matched to: [text before the hole, text after it] or with two holes
const BAD = {
  tag: ['<', 'a>'], tag2: ['<p', '></p>'], tag3: ['<x-', ' a="b">'], name: ['<p ', '="x"></p>'], name2: ['<p a', '></p>'], name3: ['<p ', 'b="x"></p>'], prefix: ['<p a="b', '"></p>'], suffix: ['<p a="', 'b"></p>'], bare: ['<p a=', 'b></p>'], blank: ['<p a=" ', '"></p>'],
  comment: ['<!--a', '-->'], comment2: ['<!--', ' b-->'], twice: ['<p ', ' ', '></p>'], dup: ['<p a=', ' a=', '></p>'], dup2: ['<p a="x" a=', '></p>'], dup3: ['<p .a=', ' .A=', '></p>'], dup4: ['<p a="x" a=', ' b=', '></p>'], both: ['<p a="', '', '"></p>'], inner: ['<template>', '</template>'], inner2: ['<template><p a=', '></p></template>'], style2: ['<p style="a:', '"></p>'], event: ['<p @x="f(', ')"></p>'], closing: ['<p></p', '>'],
};
async function malformed(ctx, c, host) {
  const app = mount(ctx, host);
  const GOOD = { n: [''], h: ['<b>', '</b>'], a: ['<b t=', '></b>'], c: ['<', '>'], r: ['<b ', '></b>'], e: ['<b @x=', '></b>'] };
  const join = (...xs) => { const out = ['']; for (const x of xs) { out[out.length - 1] += x[0]; out.push(...x.slice(1)); } return out; };
  const bad = ctx.pick('bad', Object.keys(BAD)), before = ctx.pick('before', c.around), after = ctx.pick('after', c.around), t = c.chars ? [ctx.str('t', c.chars, [[97, 98], [32, 32], [10, 10]])] : [''];
  const strings = join(GOOD[before], t, BAD[bad], t, GOOD[after]);
  const ok = html`<u>${'x'}</u>`;
  if (c.first) await show(app, ok);
  const value = (i) => { const all = [...GOOD[before].slice(1).map(() => before), ...BAD[bad].slice(1).map(() => 'b'), ...GOOD[after].slice(1).map(() => after)]; return { h: 'x', a: 'x', c: ok, r: () => {}, e: () => {}, b: c.values === 'f' ? () => {} : 'x' }[all[i]]; };
  const h = await show(app, html(strings, ...strings.slice(1).map((_, i) => value(i))));
  ctx.check(h.ok === false && h.error instanceof Error, 'a template with a hole that cannot be matched is rejected', { strings, bad });
  const n = found(app.container, (x) => x);
  ctx.check(c.first ? n.length === 1 && n[0].localName === 'u' : n.length === 0, 'and nothing of it is rendered', { strings, n: n.length });
  const g = await show(app, html`<i>${'y'}</i>`);
  ctx.check(g.ok === true && found(app.container, (x) => x)[0].localName === 'i', 'later renders work', { strings });
  ctx.reach('rejected');
}
const found = (node, merge) => { const out = []; for (let n = node.firstChild; n !== null; n = n.nextSibling) if (n.nodeType === 3) { if (n.data !== '') out.push(n.data); } else if (n.nodeType === 8) { if (n.data !== '') out.push({ comment: n.data }); } else out.push(n); return merge(out); };
export default async function main(ctx, c, host) {
  if (c.bad) return malformed(ctx, c, host);
  const app = mount(ctx, host);
  const mode = c.mode ?? 'html';
  // the template as written
  const strings = ['']; // static text around the holes
  const holes = []; // kinds
  let ids = 0;
  const put = (s) => { strings[strings.length - 1] = strings.at(-1) + s; };
  const hole = (h) => { h.i = holes.length; holes.push(h); strings.push(''); return h; };
  let styled; const style = () => (styled ??= ctx.choose('style', c.styles ?? 3));
  const events = [], props = [];
  const attr = (k, used) => {
    const id = ids++;
    put(c.breaks ? '\n  ' : ' ');
    switch (k) {
      case 's': { const v = ctx.str('s' + id, 1, [[97, 98], [32, 32], [10, 10]]), name = 'sTat' + id; put(`${name}="`); put(v); put('"'); return { k, name, v }; }
      case 'b': put('bare' + id); return { k: 's', name: 'bare' + id, v: '' };
      case 'r': { const h = hole({ k }); return h; }
      default: {
        const name = NAMES[k](id), st = ATTR[(style() + holes.length) % ATTR.length](name);
        put(st[0]); const h = hole({ k, name: /^[@.$]/.test(name) ? name.slice(1) : name }); put(st[1]);
        if (k === 'e') events.push(h.name); else if (k === 'p' || k === 'l') props.push(h.name);
        return h;
      }
    }
  };
  const node = (s, depth, out) => {
    if (typeof s === 'string') {
      const k = s.length === 1 ? s : s[ctx.choose('k' + ids++, s.length)];
      const id = ids++;
      switch (k) {
        case 't': { const v = ctx.str('t' + id, c.chars ?? 2, [[97, 98], [32, 32], [10, 10]]); put(v); out.push({ k, v }); break; }
        case '1': { const v = ctx.str('t' + id, 1, [[97, 98], [32, 32], [10, 10]]); put(v); out.push({ k: 't', v }); break; }
        case 'w': put('\n  '); out.push({ k: 't', v: '\n  ' }); break;
        case ' ': put(' '); out.push({ k: 't', v: ' ' }); break;
        case 'x': put('x y'); out.push({ k: 't', v: 'x y' }); break;
        case 'h': out.push(hole({ k })); break;
        case 'c': { const st = CHILD[(style() + holes.length) % CHILD.length]; put(st[0]); out.push(hole({ k })); put(st[1]); break; }
        case 'm': { const v = ctx.str('m' + id, 1, [[97, 98], [32, 32], [10, 10]]); put('<!--x'); put(v); put('-->'); out.push({ k, v: 'x' + v }); break; }
        case 'n': break;
      }
      return;
    }
    const [slots, ...kids] = s;
    const [names, special] = slots.split(':');
    const tag = special ?? TAGS[mode][depth % 4];
    put('<' + tag);
    const e = { k: 'E', tag, attrs: [], kids: [] };
    for (const x of names.split(',')) if (x !== '') { const k = x.length === 1 ? x : x[ctx.choose('k' + ids++, x.length)]; if (k !== 'n') e.attrs.push(attr(k)); }
    put(mode !== 'html' && kids.length === 0 ? ' />' : '>');
    for (const x of kids) node(x, depth + 1, e.kids);
    if (mode === 'html' ? !['input', 'br'].includes(tag) : kids.length > 0) put(`</${tag}>`);
    out.push(e);
  };
  const tree = [];
  for (const s of c.sk) node(s, 0, tree);

  // values
  const log = [];
  let refs = 0;
  const value = (h, inst, round) => {
    const n = `v${inst}.${round}.${h.i}`;
    const range = round % 2 ? [[65, 77]] : [[78, 90]];
    switch (h.k) {
      case 'h': { const v = ctx.str(n, 1, range); return { v, give: v }; }
      case 'c': { const v = ctx.str(n, 1, range); return { v, give: html`<i>${v}</i>` }; }
      case 't': case 'v': { const v = ctx.str(n, 1, range); return { v, give: v }; }
      case 'p': case 'l': { const v = ctx.str(n, 1, range); return { v, give: v }; }
      case 'e': return { v: n, give: () => { log.push(n); } };
      case 'r': { const r = h.i % 2 ? new Ref(null) : { current: null, fn: null }; refs++; if (h.i % 2) return { v: r, give: r }; r.fn = (el) => { r.current = el; return () => { r.current = null; }; }; return { v: r, give: r.fn }; }
      case 'C': { const name = 'k' + inst + round; return { v: name, give: { [name]: true } }; }
      case 'Y': { const v = String(inst * 10 + round); return { v, give: { '--y': v } }; }
    }
  };
  for (const h of holes) { if (h.name?.toLowerCase() === 'class') h.k = 'C'; if (h.name?.toLowerCase() === 'style') h.k = 'Y'; }
  const make = (vs) => MODE[mode](strings, ...vs.map((x) => x.give));

  // what should be there
  const expected = (kids, vs) => {
    const out = [];
    let seg = null;
    const flush = () => { if (seg !== null) { const s = strip(seg); if (s !== '') out.push(s); seg = null; } };
    for (const n of kids) {
      if (n.k === 't') { seg = (seg ?? '') + n.v; continue; }
      flush();
      if (n.k === 'h') out.push(vs[n.i].v);
      else if (n.k === 'c') out.push({ tag: 'i', attrs: {}, kids: [vs[n.i].v], bound: [], ns: 'html' });
      else if (n.k === 'm') out.push({ comment: n.v });
      else {
        const e = { tag: n.tag, attrs: {}, kids: expected(['textarea', 'pre'].includes(n.tag) && n.kids[0]?.k === 't' && n.kids[0].v[0] === '\n' ? [{ k: 't', v: n.kids[0].v.slice(1) }, ...n.kids.slice(1)] : n.kids, vs), bound: [] };
        for (const a of n.attrs) {
          if (a.k === 's') e.attrs[a.name.toLowerCase()] = a.v;
          else if (a.k === 't' || a.k === 'v') e.attrs[mode === 'html' && n.tag !== 'svg' ? a.name.toLowerCase() : a.name] = vs[a.i].v;
          else e.bound.push({ k: a.k, name: a.name, v: vs[a.i].v });
        }
        out.push(e);
      }
    }
    flush();
    return out;
  };
  const merge = (list) => { const out = []; for (const x of list) if (typeof x !== 'object' || ctx.isSym(x)) { const p = out.at(-1); if (p !== undefined && (typeof p !== 'object' || ctx.isSym(p))) out[out.length - 1] = p + x; else out.push(x); } else out.push(x); return out; };
  const compare = (want, parent, at) => {
    want = merge(want);
    const got = found(parent, merge);
    if (got.length !== want.length) { ctx.fail('the static markup is preserved', { at, strings, got: got.length, want: want.length }); return; }
    for (let i = 0; i < want.length; i++) {
      const w = want[i], g = got[i], here = at + '/' + i;
      if (w.comment !== undefined) { ctx.check(ctx.strict(g.comment, w.comment), 'static comments are preserved', { here, strings, got: g.comment }); continue; }
      if (w.tag === undefined) { ctx.check(!g.nodeType && ctx.strict(g, w), 'text is at its place', { here, strings, want: w, got: g.nodeType ? 'node' : g }); continue; }
      if (!g.nodeType || g.localName !== w.tag) { ctx.fail('elements are at their place', { here, strings, want: w.tag }); continue; }
      const attrs = {}; for (const a of g.attributes) attrs[a.name] = a.value;
      for (const b of w.bound) {
        if (b.k === 'C') { ctx.check(g.classList.contains(b.v) && g.classList.length === 1, 'the class list is bound', { here, strings, got: attrs.class }); delete attrs.class; }
        else if (b.k === 'Y') { ctx.check(g.style.getPropertyValue('--y') === b.v, 'the style is bound', { here, strings }); delete attrs.style; }
        else if (b.k === 'r') ctx.check(b.v.current === g, 'the reference is to its element', { here, strings });
      }
      const names = Object.keys(attrs).sort(), wanted = Object.keys(w.attrs).sort();
      ctx.check(names.join() === wanted.join(), 'the attributes are those written', { here, strings, names, wanted });
      for (const n of wanted) if (n in attrs) ctx.check(ctx.strict(attrs[n], w.attrs[n]), 'attribute values are bound where they are written', { here, strings, n, got: attrs[n], want: w.attrs[n] });
      for (const p of props) { const b = w.bound.find((x) => (x.k === 'p' || x.k === 'l') && x.name === p); ctx.check(b === undefined ? g[p] === undefined : ctx.same(g[p], b.v), 'properties are bound where they are written', { here, strings, p, got: g[p] }); }
      for (const n of events) { const b = w.bound.find((x) => x.k === 'e' && x.name === n); log.length = 0; g.dispatchEvent(new Event(n)); ctx.check(b === undefined ? log.length === 0 : log.length === 1 && log[0] === b.v, 'listeners are bound where they are written', { here, strings, n, log }); }
      compare(w.kids, g, here);
    }
  };
  for (let round = 0; round < (c.rounds ?? 2); round++) {
    const insts = Array.from({ length: c.insts ?? 2 }, (_, k) => holes.map((h) => value(h, k, round)));
    const h = await show(app, insts.map(make));
    ctx.check(h.ok === true, 'a well-formed template is rendered', { strings, error: h.error?.message, cause: h.error?.cause?.message });
    if (h.ok !== true) return;
    compare(insts.flatMap((vs) => expected(tree, vs)), app.container, '');
    ctx.reach('rendered');
  }
  if (holes.length > 1) ctx.reach('holes');
}

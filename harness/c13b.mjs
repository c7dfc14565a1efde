// Bindings of values that components return: plain values and components take turns in one hole.
import { createComponent, html } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
const TAGS = ['undefined', 'null', 'boolean', 'number', 'string', 'empty'];
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const tmpl = {
    attr: (v) => html`<p title=${v}></p>`, prop: (v) => html`<p .fooBar=${v}></p>`, live: (v) => html`<p $fooBar=${v}></p>`,
    text: (v) => html`<p>${v}</p>`, mixed: (v) => html`<p>a${v}b</p>`, two: (v) => html`<p id=${1} title=${v} .other=${2}>${3}</p>`,
  }[c.kind];
  let set = null, asked = 0; // the state of the component
  const One = createComponent(function One(props) { const [s, up] = this.useState(undefined); this.useEffect(() => { set = up; }, []); return s === undefined ? props.v : s.v; }, { arePropsEqual: () => !!c.bail });
  const Two = createComponent(function Two(props) { const [s, up] = this.useState(undefined); this.useEffect(() => { set = up; }, []); return s === undefined ? props.v : s.v; }, { arePropsEqual: () => !!c.bail });
  const Outer = createComponent(function Outer(props) { return One({ v: props.v }); }, { arePropsEqual: () => false });
  const Whole = createComponent(function Whole(props) { return tmpl(props.of); }, { arePropsEqual: () => false });
  let el = null, mode = null, latest, own = false;
  for (let i = 0; i < c.ops.length; i++) {
    const op = c.ops[i], v = ctx.any('v' + i, TAGS);
    if (c.user?.[i] && el !== null) el.fooBar = ctx.any('u' + i, TAGS);
    const hs = [], o = OPT[c.opt ?? 'n'](host);
    const target = mode === null || mode === 'p' ? null : set; // of what is mounted before the step
    let survives = true, wrote = false, rendered = false, next = mode;
    for (const a of op) {
      if (a === '~') { if (target !== null) { wrote = true; hs.push(track(target({ v }, o))); } continue; }
      const of = a === 'p' ? v : a === '1' ? One({ v }) : a === '2' ? Two({ v }) : a === 'k' ? One({ v }).withKey(i) : Outer({ v });
      rendered = true;
      survives &&= a === mode && a !== 'k' && a !== 'p';
      next = a;
      hs.push(track(app.root.render(c.whole ? Whole({ of }) : tmpl(of), o)));
    }
    const kept = survives && mode !== null;
    own = kept && (own || wrote);
    if (wrote || rendered && !own && !(kept && c.bail)) latest = v; // a skipped component shows what it showed
    mode = next;
    await settle(app);
    ctx.check(hs.every((h) => h.ok === true), 'the render completes', { e: hs.map((h) => h.error) });
    const e = app.container.querySelector('p');
    ctx.check(el === null || e === el, 'the element stays'); el = e;
    const str = latest === undefined || latest === null ? '' : typeof latest === 'boolean' ? (latest ? 'true' : 'false') : String(latest);
    switch (c.kind) {
      case 'attr': case 'two': {
        const absent = latest === undefined || latest === null || latest === false, has = el.hasAttribute('title'), got = el.getAttribute('title');
        ctx.check(has === !absent, 'an attribute is absent exactly for null, undefined and false', { latest, has });
        if (has && !absent) ctx.check(ctx.same(got, latest === true ? '' : str), 'an attribute has the string form of the latest value, empty for true', { latest, got });
        if (c.kind === 'two') ctx.check(el.id === '1' && el.other === 2 && el.textContent === '3', 'other bindings stay');
        ctx.obs('attr', got);
        break;
      }
      case 'prop': ctx.check(ctx.same(el.fooBar, latest), 'a property holds the latest value', { latest, got: el.fooBar }); ctx.obs('prop', el.fooBar); break;
      case 'live': ctx.check(ctx.or(ctx.same(el.fooBar, latest), ctx.strict(el.fooBar, latest)), 'a live property equals the latest value', { latest, got: el.fooBar }); break;
      case 'text': ctx.check(ctx.same(el.textContent, str), 'text holds the string form of the latest value', { latest, got: el.textContent }); ctx.obs('text', el.textContent); break;
      case 'mixed': { const t = [...el.childNodes].map((n) => n.data); ctx.check(ctx.and(t.length === 3, ctx.same(t[0], 'a'), ctx.same(t[1], str), ctx.same(t[2], 'b')), 'text between static text holds the latest value', { latest, t }); break; }
    }
  }
  ctx.reach('bound');
}

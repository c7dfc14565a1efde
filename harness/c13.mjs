// Attribute, property, live and text bindings show the latest value.
import { createComponent, html, text } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const TAGS = c.tags ?? ['undefined', 'null', 'boolean', 'number', 'string', 'empty'];
  const tmpl = {
    attr: (v) => html`<p title=${v}></p>`, 'attr-static': (v) => html`<p class="k" title=${v} id="x"></p>`, 'attr-case': (v) => html`<p dataFoo=${v}></p>`,
    prop: (v) => html`<p .fooBar=${v}></p>`, live: (v) => html`<p $fooBar=${v}></p>`,
    text: (v) => html`<p>${v}</p>`, mixed: (v) => html`<p>a${v}b</p>`, textmode: (v) => text`a${v}b`, child: (v) => html`<p><${v}></p>`,
  }[c.kind];
  let force = null, cur;
  const Box = createComponent(function Box(props) { force = () => this.forceUpdate(); return tmpl(cur); }, { arePropsEqual: () => false });
  let el = null;
  const fnValue = Object.assign(() => 1, { toString: () => 'fn' }), objValue = { toString: () => 'obj' }, bare = Object.create(null);
  for (let s = 0; s < c.steps; s++) {
    const special = c.special?.[s];
    const v = special === 'fn' ? fnValue : special === 'obj' ? objValue : special === 'bare' ? bare : special === 'big' ? 12n : ctx.any('v' + s, TAGS);
    cur = v;
    if (c.user?.[s] && el !== null) el.fooBar = ctx.any('u' + s, TAGS);
    let h;
    if (c.own && s > 0) { h = track(force()); await settle(app); } else h = await show(app, c.own ? Box({}) : tmpl(v));
    ctx.check(h.ok === true, 'the render completes', { error: h.error });

    if (c.kind !== 'textmode') { const e = app.container.querySelector('p'); ctx.check(el === null || e === el, 'the element stays'); el = e; }
    const str = () => special === 'fn' ? 'fn' : special === 'obj' ? 'obj' : special === 'bare' ? '' : special === 'big' ? '12' : v === undefined || v === null ? '' : typeof v === 'boolean' ? (v ? 'true' : 'false') : String(v);
    switch (c.kind) {
      case 'attr': case 'attr-static': case 'attr-case': {
        const name = c.kind === 'attr-case' ? 'datafoo' : 'title';
        const absent = v === undefined || v === null || v === false;
        const has = el.hasAttribute(name), got = el.getAttribute(name);
        ctx.check(has === !absent, 'an attribute is absent exactly for null, undefined and false', { v, has });
        if (has && !absent) ctx.check(ctx.same(got, v === true ? '' : str()), 'an attribute has the string form of the latest value, empty for true', { v, got });
        if (c.kind === 'attr-static') ctx.check(el.getAttribute('class') === 'k' && el.id === 'x', 'static attributes stay');
        ctx.obs('attr', got);
        break;
      }
      case 'prop': ctx.check(ctx.same(el.fooBar, v), 'a property holds the latest value', { v, got: el.fooBar }); ctx.obs('prop', el.fooBar); break;
      case 'live': ctx.check(ctx.or(ctx.same(el.fooBar, v), ctx.strict(el.fooBar, v)), 'a live property equals the latest value', { v, got: el.fooBar }); break;
      case 'text': ctx.check(ctx.same(el.textContent, str()), 'text holds the string form of the latest value', { v, got: el.textContent }); ctx.obs('text', el.textContent); break;
      case 'mixed': { const t = [...el.childNodes].map((n) => n.data); ctx.check(ctx.and(t.length === 3, ctx.same(t[0], 'a'), ctx.same(t[1], str()), ctx.same(t[2], 'b')), 'text between static text holds the latest value', { v, t }); break; }
      case 'textmode': { const t = [...app.container.childNodes].filter((n) => n.nodeType === 3).map((n) => n.data); ctx.check(ctx.and(t.length === 3, ctx.same(t[0], 'a'), ctx.same(t[1], str()), ctx.same(t[2], 'b')), 'text between static text holds the latest value', { v, t }); break; }
      case 'child': ctx.check(el.textContent === '', 'a plain value at a child position shows no text'); ctx.check(ctx.same(el.firstChild.nodeType === 8 ? el.lastChild.data : '?', str()), 'a plain value at a child position is kept in its placeholder', { v }); break;
    }

  }
  ctx.reach('bound');
}

// Templates of one call site under different tags: the document is what a fresh render of the latest tree gives.
import { createComponent, createFragment, html, math, Partial, svg, text } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';
const TAGS = { h: html, s: svg, m: math, t: text, H: Partial.html, S: Partial.svg, M: Partial.math };
const look = (ctx, node) => { const out = []; for (let n = node.firstChild; n !== null; n = n.nextSibling) if (n.nodeType === 3) out.push(n.data); else if (n.nodeType === 1) { const e = { tag: n.localName, ns: n.namespaceURI, c: look(ctx, n) }; for (const a of n.attributes) e['@' + a.name] = a.value; out.push(e); } return out; };
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const link = (k, v) => c.plain ? TAGS[k]`${v}` : k === 't' ? text`${v}` : TAGS[k]`<a title=${v}>${v}</a>`;
  const same = (k, v) => TAGS[k]`-${v}-`; // the same text under any of the tags
  const of = (k, v) => c.body === 'text' ? same(k, v) : link(k, v);
  const Box = createComponent(function Box(props) { return of(props.k, props.v); }, { arePropsEqual: () => false });
  const tree = (kinds, v) => {
    const kids = [...kinds].map((k, i) => c.box ? Box({ k, v }) : of(k, v));
    return c.shape === 'list' ? createFragment(kids) : c.shape === 'keyed' ? createFragment(kids.map((e, i) => e.withKey(kinds[i]))) : c.shape === 'one' ? html`<div><${kids[0]}></div>` : kids[0];
  };
  for (let i = 0; i < c.steps.length; i++) {
    const v = ctx.atom('v' + i);
    const h = await show(app, tree(c.steps[i], v));
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const fresh = mount(ctx, host), f = await show(fresh, tree(c.steps[i], v));
    ctx.check(f.ok === true, 'the fresh render completes', { error: f.error });
    ctx.check(ctx.eq(look(ctx, app.container), look(ctx, fresh.container)), 'the document is what a fresh render gives', { i, got: look(ctx, app.container), want: look(ctx, fresh.container) });
    for (const e of app.container.querySelectorAll('a')) { const kinds = [...c.steps[i]].filter((k) => k !== 't').map((k) => k.toLowerCase()); ctx.check(kinds.some((k) => e.namespaceURI.endsWith({ h: 'xhtml', s: 'svg', m: 'MathML' }[k])), 'elements are of the kind of their tag', { ns: e.namespaceURI }); }
    ctx.obs('content', look(ctx, app.container));
  }
  ctx.reach('compared');
}

// A portal's child is in its container and nowhere else; everything around it is left alone.
import { createComponent, createFragment, createPortal, html, text } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
const TAG = { 0: 'p', 1: 'u' };
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const boxes = { A: document.createElement('div'), B: document.createElement('section') };
  let foreign = { A: [], B: [] }, fn = 0;
  const intrude = (k) => { const q = document.createElement('q'); q.setAttribute('n', String(++fn)); boxes[k].appendChild(q); foreign[k].push(q); };
  intrude('A'); if (c.foreign) intrude('B');
  const set = {}, cleaned = [];
  const item = (p, i, v) => p === 0 ? html`<p>${v}</p>` : html`<u>${v}</u>`;
  const Comp = createComponent(function Comp(props) {
    const [s, up] = this.useState(0);
    set[props.p] = up;
    this.useEffect(() => () => { cleaned.push(props.p); }, []);
    return s === 1 ? [item(props.p, 0, props.v), item(props.p, 1, props.v)] : s === 2 ? null_() : item(props.p, 0, props.v);
  }, { arePropsEqual: () => false });
  const null_ = () => createFragment([]);
  const child = (p, k, v) => { switch (k) { case 'E': return item(p, 0, v); case 'F': return createFragment([item(p, 0, v), item(p, 1, v)]); case 'N': return null_(); case 'C': return Comp({ p, v }); case 'D': return html`<${item(p, 0, v)}>`; case 'P': return [item(p, 0, v), createPortal(html`<s>${v}</s>`, boxes.B), item(p, 1, v)]; case 'T': return v; case 'X': return text`${v}`; } };
  const elems = (p, k, v, s) => { const e = { tag: TAG[p], c: [v] }; switch (k) { case 'E': case 'D': return [e]; case 'F': case 'P': return [e, e]; case 'N': return []; case 'C': return s === 1 ? [e, e] : s === 2 ? [] : [e]; case 'X': return [v]; } };
  const stateOf = {};
  const idOf = {};
  let prev = null;
  const own = (k, p) => content(boxes[k]).filter((n) => (p === null ? n.tag !== 'q' && n.tag !== 's' : n.tag === TAG[p]));
  for (let s = 0; s < c.steps; s++) {
    // Which portals there are, where they lead, what they show, and the siblings around them.
    const order = Array.from({ length: c.portals }, (_, i) => i).filter((i) => !c.optional || ctx.flag(`on${s}.${i}`));
    if (c.moves && order.length > 1 && ctx.flag('swap' + s)) order.reverse();
    const head = ctx.flag('head' + s), mid = c.mid && ctx.flag('mid' + s);
    const st = order.map((i) => ({ i, box: c.boxes ? ctx.pick(`box${s}.${i}`, ['A', 'B']) : 'A', kind: ctx.pick(`kind${s}.${i}`, c.kinds), v: ctx.atom(`v${s}.${i}`) }));
    if (c.intrude && s > 0 && ctx.flag('intrude' + s)) intrude('A');
    const list = [];
    if (head) list.push(html`<i>h</i>`.withKey('h'));
    st.forEach((x, k) => { if (k === 1 && mid) list.push(html`<i>m</i>`.withKey('m')); list.push(createPortal(child(x.i, x.kind, x.v), boxes[x.box]).withKey(x.i)); });
    list.push(html`<i>t</i>`.withKey('t'));
    const body = c.where === 'hole' ? html`<div><${list}></div>` : c.where === 'only' ? (st.length ? html`<b></b><${list.find((e) => e.key === st[0].i)}><i>t</i>` : html`<hr>`) : list;
    const h = await show(app, body);
    ctx.check(h.ok === true, 'the render completes', { e: h.error });
    for (const i of [0, 1]) { const x = st.find((y) => y.i === i), y = prev?.find((z) => z.i === i); if (!x || !y || x.box !== y.box || x.kind !== y.kind) stateOf[i] = 0; }
    const verify = (label) => {
      for (const k of ['A', 'B']) {
        const here = st.filter((x) => x.box === k);
        const nested = k === 'B' ? st.filter((x) => x.kind === 'P').map((x) => x.v) : [];
        if (here.length <= 1 || !here.some((x) => x.kind === 'X')) {
          for (const i of [0, 1]) {
            const x = here.find((y) => y.i === i);
            const got = x?.kind === 'X' ? own(k, null) : own(k, i);
            ctx.check(ctx.eq(got, x ? elems(i, x.kind, x.v, stateOf[i]) : []), label, { s, k, i, got, want: x?.kind });
          }
        }
        ctx.check(content(boxes[k]).filter((n) => n.tag === undefined).length === here.filter((x) => x.kind === 'X').length, 'no text is left in a container', { s, k });
        const deep = content(boxes[k]).filter((n) => n.tag === 's');
        ctx.check(deep.length === nested.length && (nested.length !== 1 || ctx.eq(deep[0].c, nested)), 'a portal within a portal shows its child', { s, deep });
        const q = [...boxes[k].childNodes].filter((n) => n.nodeType === 1 && n.localName === 'q');
        ctx.check(q.length === foreign[k].length && q.every((n, i) => n === foreign[k][i]), 'other content of a container stays', { s, k });
      }
      const I = (t) => ({ tag: 'i', c: [t] });
      const main = c.where === 'only' ? (st.length ? [{ tag: 'b', c: [] }, I('t')] : [{ tag: 'hr', c: [] }]) : [...(head ? [I('h')] : []), ...(mid && st.length > 1 ? [I('m')] : []), I('t')];
      ctx.check(ctx.eq(content(app.container), c.where === 'hole' ? [{ tag: 'div', c: main }] : main), 'the siblings around a portal keep their place', { s, got: content(app.container) });
    };
    verify('a portal shows its child in its container');
    for (const x of st) { // in place: same nodes while container and kind stay
      const now = [...boxes[x.box].childNodes].filter((n) => n.nodeType === 1 && n.localName === TAG[x.i]);
      const y = prev?.find((z) => z.i === x.i);
      if (y && y.box === x.box && y.kind === x.kind && idOf[x.i] && (stateOf[x.i] ?? 0) === 0) ctx.check(now.length === idOf[x.i].length && now.every((n, i) => n === idOf[x.i][i]), 'the child is updated in place', { s });
    }
    for (const x of st) if (x.kind === 'C') { // the child changes by itself
      const n = c.own ? ctx.choose(`own${s}.${x.i}`, 3) : 0;
      if (n === (stateOf[x.i] ?? 0)) continue;
      stateOf[x.i] = n;
      const u = track(set[x.i](n)); await settle(app);
      ctx.check(u.ok === true, 'an update inside a portal completes', { e: u.error });
      verify('an update inside a portal appears in its container');
    }
    for (const x of st) idOf[x.i] = [...boxes[x.box].childNodes].filter((n) => n.nodeType === 1 && n.localName === TAG[x.i]);
    prev = st;
    ctx.reach('shown');
  }
  app.root.unmount(); await settle(app);
  for (const k of ['A', 'B']) ctx.check(boxes[k].childNodes.length === foreign[k].length, 'nothing is left in a container after unmounting', { n: boxes[k].childNodes.length });
  ctx.check(app.container.childNodes.length === 0, 'nothing is left after unmounting');
}

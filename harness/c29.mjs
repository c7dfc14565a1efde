// Components re-render exactly when their inputs changed; skipped ones keep nodes, position and pending updates.
import { createComponent, createFragment, html, text } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
const BODY = ['p', 'none', 'text', 'two'];
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const kids = c.kids ?? 2;
  const set = [], force = [], renders = Array(kids).fill(0), got = [];
  let log = [];
  const body = (kind, name, v) => kind === 'none' ? createFragment([]) : kind === 'text' ? text`${v}` : kind === 'two' ? [html`<b>${name}</b>`, text`${v}`] : html`<p><u>${name}</u>${v}</p>`;
  const bodyMeans = (kind, name, v) => kind === 'none' ? [] : kind === 'text' ? [v] : kind === 'two' ? [{ tag: 'b', c: [name] }, v] : [{ tag: 'p', c: [{ tag: 'u', c: [name] }, v] }];
  const Kid = createComponent(function Kid(props) {
    const [kind, setKind] = this.useState(() => BODY[0]);
    set[props.i] = setKind; force[props.i] = (o) => this.forceUpdate(o);
    renders[props.i]++; got[props.i] = { v: props.v, kind, w: props.w };
    log.push(props.i);
    const inner = body(kind, String(props.i), props.v);
    return c.nested ? Inner({ inner, i: props.i }) : inner;
  }, c.compare === 'custom' ? { arePropsEqual: (a, b) => ctx.same(a.v, b.v) } : c.compare === 'order' ? { arePropsEqual: (old, next) => next.v <= old.v } : c.compare === 'never' ? { arePropsEqual: () => false } : {});
  const Inner = createComponent(function Inner(props) { return props.inner; });
  let parentSet = null;
  const Parent = createComponent(function Parent(props) {
    const [n, setN] = this.useState(0);
    parentSet = setN; log.push('P');
    return props.make(n);
  }, { arePropsEqual: () => false });
  // The layout of a step: which fixed siblings are there, and the kids in their order.
  const last = Array(kids).fill(null), have = Array(kids).fill(null);
  let serial = 0;
  const layout = (s) => {
    const order = Array.from({ length: kids }, (_, i) => i);
    if (c.moves && s > 0 && ctx.flag('swap' + s)) order.reverse();
    const [head, mid, tail] = ['h', 'm', 't'].map((x) => c.siblings?.includes(x) && ctx.flag(x + s));
    const props = order.map((i) => {
      if (last[i] !== null && ctx.flag(`keep${s}.${i}`)) return last[i];
      return { i, v: c.compare === 'custom' ? ctx.atom(`v${s}.${i}`) : c.compare === 'order' ? ctx.int(`v${s}.${i}`, 0, 9) : 'v' + s, w: ++serial };
    });
    return { order, head, tail, mid, props };
  };
  const build = (l) => {
    const list = [];
    if (l.head) list.push(html`<i>h</i>`.withKey('h'));
    l.props.forEach((p, k) => { if (k === 1 && l.mid) list.push(html`<i>m</i>`.withKey('m')); list.push(c.compare === 'element' ? (p.element ??= Kid(p).withKey(p.i)) : Kid(p).withKey(p.i)); });
    if (l.tail) list.push(html`<i>t</i>`.withKey('t'));
    return c.where === 'hole' ? html`<div><${list}></div>` : c.where === 'frag' ? [createFragment([]), list, html`<hr>`] : list;
  };
  let current = null, kinds = Array(kids).fill(BODY[0]), parents = 0;
  const view = () => content(c.where === 'hole' ? app.container.firstChild : app.container);
  const means = () => {
    const out = [];
    if (current.head) out.push({ tag: 'i', c: ['h'] });
    current.order.forEach((i, k) => { if (k === 1 && current.mid) out.push({ tag: 'i', c: ['m'] }); out.push(...bodyMeans(kinds[i], String(i), c.compare === 'order' ? String(got[i].v) : got[i].v)); });
    if (current.tail) out.push({ tag: 'i', c: ['t'] });
    if (c.where === 'frag') out.push({ tag: 'hr', c: [] });
    return out;
  };
  const top = (l) => c.via === 'root' ? build(l) : Parent({ make: () => build(current) });
  for (let s = 0; s < c.acts.length; s++) {
    const acts = c.acts[s].split('+');
    const changed = Array(kids).fill(false);
    log = [];
    const counts = [...renders];
    const handles = [];
    let byParent = Array(kids).fill(false);
    const prios = new Set(acts.map((a) => a.split(':')[1] ?? 'n')).size;
    for (const act of acts) {
      const [a, o] = act.split(':');
      const opts = OPT[o ?? 'n'](host);
      if (a === 'r') {
        const l = layout(s);
        for (let k = 0; k < kids; k++) {
          const i = l.order[k], p = l.props[k], q = last[i];
          byParent[i] = q === null ? true : p === q ? false : c.compare === 'custom' ? ctx.not(ctx.same(q.v, p.v)) : c.compare === 'order' ? p.v > q.v : true;
          have[i] = c.compare === 'order' && !acts.some((x) => /^[sf]/.test(x) && x[1] === String(i)) && !byParent[i] ? q : p; // a skipped component keeps the properties it has
        }
        current = l;
        handles.push(track(app.root.render(top(l), opts)));
      } else if (a === 'P') { // the parent re-renders on its own with what it had
        handles.push(track(parentSet(++parents, opts)));
      } else {
        const i = Number(a[1]);
        if (a[0] === 'f') handles.push(track(force[i](opts)));
        else { const k = ctx.pick(`k${s}.${i}`, BODY.filter((b) => b !== kinds[i])); kinds[i] = k; handles.push(track(set[i](k, opts))); }
        changed[i] = true;
      }
    }
    const nodesBefore = s === 0 ? null : snapshot(app.container);
    if (c.early) { // synchronous updates are through before the host does anything
      await ctx.drain();
      const sync = acts.filter((a) => a.endsWith(':s'));
      for (let i = 0; i < kids; i++) if (sync.length > 0) {
        const n = renders[i] - counts[i], want = ctx.or(sync.some((a) => a[1] === String(i)), sync.some((a) => a[0] === 'r') ? byParent[i] : false);
        ctx.check(ctx.iff(want, n > 0), 'a component with an update of another priority renders only if it has to', { s, i, n });
        ctx.check(n <= 1, 'and once', { s, i, n });
      }
    }
    await settle(app);
    ctx.check(handles.every((h) => h.ok === true), 'every update completes', { s, e: handles.map((h) => h.error) });
    for (let i = 0; i < kids; i++) {
      const n = renders[i] - counts[i];
      const want = ctx.or(changed[i], byParent[i]);
      ctx.check(ctx.iff(want, n > 0), 'a component renders exactly when its properties changed or it has an update of its own', { s, i, n });
      ctx.check(n <= prios, 'it renders at most once for updates processed together', { s, i, n });
      if (n > 0 && have[i] !== null) {
        ctx.check(ctx.same(got[i].v, have[i].v) , 'it is given its latest properties', { s, i });
        ctx.check(got[i].kind === kinds[i], 'it is given its latest state', { s, i, kind: got[i].kind, want: kinds[i] });
      }
      if (n > 0) last[i] = got[i].w === have[i].w ? have[i] : last[i];
    }
    ctx.check(ctx.eq(view(), means()), 'the document shows every component where it belongs', { s, got: view(), want: means() });
    if (nodesBefore !== null) for (const [key, node] of nodesBefore) {
      const now = snapshot(app.container).get(key);
      if (now !== undefined) ctx.check(now === node, 'a component keeps its document nodes', { s, key });
    }
    ctx.obs('renders', [...renders]);
    ctx.reach('step');
  }
  // Element nodes of the kids and the fixed siblings, by what they are.
  function snapshot(root) {
    const out = new Map();
    const go = (n) => { for (const k of [...n.childNodes]) { if (k.nodeType === 1) { if (k.localName === 'b' || k.localName === 'u' || k.localName === 'i' || k.localName === 'hr') out.set(k.localName + k.textContent, k); go(k); } } };
    go(root);
    return out;
  }
}

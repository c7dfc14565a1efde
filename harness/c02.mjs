// Keyed identity: DOM nodes and component state follow the key (same-value) and the type.
import { createComponent, createFragment, html } from '@src/index.js';
import { mount, nodes, show } from './lib/app.mjs';
import { change } from './lib/shapes.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  let instances = 0;
  const live = new Map(); // instance -> times set up minus times cleaned up
  const log = [];
  const make = (tag) => createComponent(function Item(props) {
    const ref = this.useRef(0);
    if (ref.current === 0) ref.current = ++instances;
    const me = ref.current;
    props.seen.id = me;
    this.useEffect(() => { log.push('+' + me); live.set(me, (live.get(me) ?? 0) + 1); return () => { log.push('-' + me); live.set(me, live.get(me) - 1); }; }, []);
    return tag === 'p' ? html`<p>${props.v}</p>` : html`<b>${props.v}</b>`;
  });
  const A = make('p'), B = make('b');
  const wrap = { plain: (x) => x, hole: (x) => html`<${x}><hr>`, inner: (x) => createFragment([html`<i></i>`, x, html`<hr>`]) }[c.where];
  let prev = [], prevNodes = [], ids = 0, list = null;
  const fresh = (k) => Array.from({ length: k }, () => ids++);
  for (let s = 0; s < (c.ops ? c.ops.length + 1 : c.n.length); s++) {
    const items = [];
    if (c.ops) { // long lists with given keys
      list = s === 0 ? fresh(c.len) : change(ctx, 's' + s, list, c.ops[s - 1], fresh);
      if (list.length === 0) break;
      for (const id of list) {
        const kind = c.kinds[id % c.kinds.length], seen = {}, v = `t${s}.${id}`, e = kind === 'A' ? A({ v, seen }) : kind === 'B' ? B({ v, seen }) : kind === 'P' ? html`<p>${v}</p>` : html`<b>${v}</b>`;
        items.push({ key: id, kind, v, seen, el: e.withKey(id) });
      }
    } else for (let i = 0; i < c.n[s]; i++) {
      const n = s + '.' + i;
      const key = c.keys === 'any' ? ctx.any('k' + n, c.tags) : ctx.atom('k' + n);
      for (const o of items) ctx.assume(ctx.not(ctx.same(o.key, key)));
      for (const o of items) ctx.assume(ctx.not(ctx.strict(o.key, key)));
      const kind = c.kinds.length > 1 ? ctx.pick('kind' + n, c.kinds) : c.kinds[0];
      const seen = {};
      const v = 't' + n;
      const e = kind === 'A' ? A({ v, seen }) : kind === 'B' ? B({ v, seen }) : kind === 'P' ? html`<p>${v}</p>` : html`<b>${v}</b>`;
      items.push({ key, kind, v, seen, el: e.withKey(key) });
    }
    const h = await show(app, wrap(createFragment(items.map((x) => x.el))), {});
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const all = nodes(app.container);
    const own = c.where === 'plain' ? all : c.where === 'hole' ? all.slice(0, -1) : all.slice(1, -1);
    ctx.check(own.length === items.length, 'one node per child', { n: own.length });
    if (own.length !== items.length) return;
    for (let i = 0; i < items.length; i++) {
      const x = items[i];
      ctx.check(ctx.same(own[i].firstChild.data, x.v), 'children show their own content in list order', { i });
      for (let j = 0; j < prev.length; j++) {
        if (prev[j].kind !== x.kind) { ctx.check(own[i] !== prevNodes[j], 'a child of another type gets fresh nodes'); continue; }
        const same = ctx.same(x.key, prev[j].key);
        ctx.check(ctx.iff(same, own[i] === prevNodes[j]), 'a child keeps its nodes exactly when key and type are the same', { i, j, keys: [x.key, prev[j].key], kept: own[i] === prevNodes[j] });
        if (x.kind === 'A' || x.kind === 'B') ctx.check(ctx.iff(same, x.seen.id === prev[j].seen.id), 'a child keeps its component state exactly when key and type are the same', { i, j, ids: [x.seen.id, prev[j].seen.id] });
      }
    }
    const kept = new Set(items.map((x) => x.seen.id));
    for (const o of [...prev, ...items]) {
      if (o.kind !== 'A' && o.kind !== 'B') continue;
      ctx.check(live.get(o.seen.id) === (kept.has(o.seen.id) ? 1 : 0), 'a component is connected exactly while its child is in the list', { id: o.seen.id, live: live.get(o.seen.id) });
    }
    for (const id of live.keys()) if (!kept.has(id)) ctx.check(log.filter((l) => l === '-' + id).length === 1, 'a removed component is disconnected once');
    ctx.obs('log', log.join(' '));
    prev = items; prevNodes = own;
  }
  ctx.reach('compared');
}

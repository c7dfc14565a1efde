// Memoised values, references and identifiers are stable; wrong hook sequences are rejected.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  if (c.hooks) return order(ctx, c, app);
  if (c.many) return many(ctx, c, app);
  const TAGS = c.tags ?? ['undefined', 'null', 'boolean', 'number', 'string', 'empty'];
  let cur = null, force = null;
  const Memo = createComponent(function Memo(props) {
    force = () => this.forceUpdate();
    const me = cur;
    me.id = this.useId();
    me.memo = this.useMemo(() => { me.computed++; return { by: me.step }; }, me.deps);
    me.val = this.useMemo(() => me.raw, me.deps);
    me.cb = this.useCallback(me.fn, me.deps2);
    me.ref = this.useRef(me.step);
    me.id2 = this.useId();
    return html`<p>${me.step}</p>`;
  }, { arePropsEqual: () => false });
  const changed = (a, b) => a.length !== b.length ? true : ctx.or(false, ...a.map((x, i) => ctx.not(ctx.same(x, b[i]))));
  const other = { step: 'other', computed: 0, deps: [], deps2: [], fn: () => {}, raw: 0 };
  const steps = [];
  for (let s = 0; s < c.len.length; s++) {
    const deps = Array.from({ length: c.len[s] }, (_, i) => ctx.any(`d${s}.${i}`, TAGS));
    const deps2 = [ctx.atom('e' + s)];
    cur = { step: s, deps, deps2, fn: () => s, computed: 0, raw: ctx.any('r' + s, TAGS) };
    if (s > 0 && c.own?.[s]) { track(force()); await settle(app); } else { const h = await show(app, Memo({ s })); ctx.check(h.ok === true, 'the render completes', { error: h.error }); }
    const prev = steps[s - 1];
    if (prev === undefined) {
      ctx.check(cur.computed === 1, 'a value is computed on the first render');
      ctx.check(cur.id !== cur.id2, 'identifiers of different calls differ');
      ctx.check(cur.ref.current === 0, 'a reference starts with its initial value');
    } else {
      const ch = changed(prev.deps, deps);
      ctx.check(ctx.iff(ch, cur.computed === 1), 'a memoised value is recomputed exactly when its dependencies change', { s, deps: [prev.deps, deps], computed: cur.computed });
      ctx.check(ctx.iff(ch, cur.memo !== prev.memo), 'a memoised value is replaced exactly when its dependencies change', { s });
      ctx.check(cur.computed <= 1, 'a value is computed at most once');
      cur.expVal = ctx.symbolic ? null : null;
      ctx.check(ctx.or(ctx.and(ch, ctx.same(cur.val, cur.raw)), ctx.and(ctx.not(ch), ctx.same(cur.val, prev.val))), 'a memoised value is the result of the computation that is current', { s });
      const ch2 = ctx.not(ctx.same(prev.deps2[0], deps2[0]));
      ctx.check(ctx.iff(ch2, cur.cb === cur.fn), 'a memoised callback is replaced exactly when its dependencies change', { s });
      ctx.check(ctx.iff(ctx.not(ch2), cur.cb === prev.cb), 'a memoised callback stays when its dependencies stay', { s });
      ctx.check(cur.ref === prev.ref, 'a reference stays the same object');
      ctx.check(cur.id === prev.id && cur.id2 === prev.id2, 'identifiers stay the same');
    }
    steps.push(cur);
  }
  const last = steps.at(-1);
  // a second instance, kept next to the first, has identifiers of its own
  cur = other;
  const app2 = { ...app };
  const h = await show(app2, [html`<hr>`, Memo({})]);
  ctx.check(h.ok === true && new Set([last.id, last.id2, other.id, other.id2]).size === 4, 'identifiers never coincide');
  ctx.obs('ids', [last.id, last.id2, other.id, other.id2]);
  ctx.reach('memo');
}
// Many identifiers, in instances that come and go.
async function many(ctx, c, app) {
  const all = [];
  const Comp = createComponent(function Comp() { for (let i = 0; i < c.many; i++) all.push(this.useId()); return html`<p>${all.length}</p>`; });
  const n = 1 + ctx.choose('instances', 3);
  for (let k = 0; k < n; k++) await show(app, Comp({}).withKey(k));
  ctx.check(all.length === n * c.many && new Set(all).size === all.length, 'identifiers never coincide', { calls: all.length, different: new Set(all).size });
  ctx.reach('memo');
}
// The same component calls one sequence of hooks and then another.
async function order(ctx, c, app) {
  const use = {
    e: (x) => { x.useEffect(() => {}, []); }, i: (x) => x.useId(), m: (x) => x.useMemo(() => 1, []), r: (x) => x.useReducer((s) => s, 0), f: (x) => x.useRef(0), s: (x) => x.useState(0), k: (x) => x.useCallback(() => {}, []),
  };
  const KIND = { e: 'e', i: 'i', m: 'm', f: 'm', k: 'm', r: 'r', s: 'r' };
  const seqs = [];
  if (c.base) { // a long sequence, and one that differs from it at any one place or not at all
    const base = [...c.base], other = [...base], i = ctx.choose('at', base.length + 1), kinds = ['e', 'i', 'm', 'r', 'f', 's', 'k'];
    const how = ctx.pick('how', ['same', 'replace', 'add', 'drop', 'move']);
    if (how === 'replace') other.splice(i, 1, ctx.pick('kind', kinds)); else if (how === 'add') other.splice(i, 0, ctx.pick('kind', kinds)); else if (how === 'drop') other.splice(i, 1); else if (how === 'move') other.push(...other.splice(i, 1));
    seqs.push(base, other);
  } else for (let s = 0; s < 2; s++) { const q = []; for (let i = 0; i < c.hooks[s]; i++) q.push(ctx.pick(`h${s}.${i}`, ['e', 'i', 'm', 'r', ...(c.more ? ['f', 's', 'k'] : [])])); seqs.push(q); }
  let cur = 0;
  const Comp = createComponent(function Comp() { for (const k of seqs[cur]) use[k](this); return html`<p>${cur}</p>`; }, { arePropsEqual: () => false });
  const h0 = await show(app, Comp({}));
  ctx.check(h0.ok === true, 'the first render completes', { error: h0.error });
  cur = 1;
  const h1 = await show(app, Comp({}));
  const legal = seqs[0].length === seqs[1].length && seqs[0].every((k, i) => KIND[k] === KIND[seqs[1][i]]);
  ctx.check(h1.ok === legal, 'a different sequence of hooks is rejected, the same is accepted', { seqs, ok: h1.ok });
  ctx.check(content(app.container)[0].c[0] === (legal ? '1' : '0'), 'a rejected render changes nothing', { seqs });
  if (!legal) { cur = 0; const h2 = await show(app, Comp({})); ctx.check(h2.ok === true, 'the right sequence is accepted again', { seqs, error: h2.error }); ctx.reach('rejected'); } else ctx.reach('accepted');
}

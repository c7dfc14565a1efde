// Components that use a signal show its latest value in the end.
import { createComponent, html } from '@src/index.js';
import { Atom, Computed } from '@src/addons/signal/signal.js';
import { Derivable } from '@src/addons/signal/derivable.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  c = { ...c, map: { ...c.map } };
  const f = ctx.fn('f'), g = ctx.fn('g');
  let subs = 0;
  const spy = (s) => { const o = s.subscribe; s.subscribe = function (fn) { const off = o.call(s, fn); let open = true; subs++; return () => { if (open) { open = false; subs--; } off(); }; }; return s; };
  const a = spy(new Atom(ctx.atom('a0'))), b = spy(new Atom(ctx.atom('b0')));
  const d = c.derivable ? Derivable.from({ x: ctx.atom('x0'), y: ctx.atom('y0') }) : null;
  const sum = new Computed((x, y) => f(x, y), [a, b]), top2 = sum.map((x) => g(x));
  const now = { a: ctx.atom('a0'), b: ctx.atom('b0'), x: c.derivable ? ctx.atom('x0') : null, y: c.derivable ? ctx.atom('y0') : null };
  const val = { a: () => now.a, b: () => now.b, sum: () => f(now.a, now.b), top: () => g(f(now.a, now.b)), x: () => now.x, dx: () => now.x };
  const sig = { a, b, sum, top: top2, x: d?.get('x'), dx: d?.map((v) => v.x) };
  let count = 0;
  const write = (k, v) => { now[k] = v; if (k === 'a') a.value = v; else if (k === 'b') b.value = v; else if (c.draft) d.scope((draft) => { draft[k] = v; }); else d.get(k).value = v; };
  const User = createComponent(function User(props) {
    const v = this.use(sig[props.s]);
    const again = props.twice ? this.use(sig[props.twice]) : null;
    if (props.inRender && !this.done) { this.done = true; write('a', ctx.atom('r')); }
    this.useEffect(() => { if (props.inEffect) write('a', ctx.atom('e')); return () => { if (props.inCleanup) write('a', ctx.atom('u')); }; }, []);
    return props.twice ? html`<p>${v}</p><p>${again}</p>` : html`<p>${v}</p>`;
  });
  const Holder = createComponent(function Holder(props) { const s = this.useMemo(() => sig[props.s], [props.s]); return html`<b>${props.n}</b><i>${s}</i>`; }, { arePropsEqual: (p, q) => p.s === q.s });
  const page = (name) => { // what is on the page: a word of users
    const list = [];
    [...(c.pages[name])].forEach((k, i) => {
      const s = c.map[k];
      if (k === 'T') list.push(html`<b>${sig[s]}</b>`.withKey(k)); // bound in a template
      else if (k === 'V') list.push(html`<b title="x">${[sig[s]]}</b>`.withKey(k));
      else if (k === 'H') list.push(Holder({ s, n: i }).withKey(k));
      else list.push(User({ s, twice: c.twice?.[k], inRender: c.inRender === k, inEffect: c.inEffect === k, inCleanup: c.inCleanup === k, n: c.fresh ? ++count : 0 }).withKey(k));
    });
    return list;
  };
  let at = c.start;
  const handles = [];
  if (at !== undefined) await show(app, page(at));
  let w = 0;
  await play(app, c.acts.map((act, i) => () => {
    if (act[0] === 'R') { const [r, m] = act.split('|'); if (m) c.map[m[0]] = m.slice(1); at = r[1]; handles.push(track(app.root.render(page(at), OPT[r.slice(2) || 'n'](host)))); }
    else if (act === 'U') { at = null; handles.push(track(app.root.unmount())); }
    else for (const k of act) write(k, ctx.atom(k + 'w' + ++w));
  }), { sync: true, hidden: !!c.hidden });
  await settle(app);
  ctx.check(handles.every((h) => h.ok === true), 'renders complete', { e: handles.map((h) => h.error) });
  const verify = (label) => {
    const got = content(app.container);
    const want = at == null ? [] : [...c.pages[at]].flatMap((k) => { const s = c.map[k]; const p = { tag: 'p', c: [val[s]()] }; return k === 'T' ? [{ tag: 'b', c: [val[s]()] }] : k === 'V' ? [{ tag: 'b', '@title': 'x', c: [val[s]()] }] : k === 'H' ? [{ tag: 'b', c: [null] }, { tag: 'i', c: [val[s]()] }] : c.twice?.[k] ? [p, { tag: 'p', c: [val[c.twice[k]]()] }] : [p]; });
    const flat = (l) => l.map((e, i) => e !== null && typeof e === 'object' && e.tag === 'b' && e.c?.length === 1 && (e.c[0] === null || /^\d$/.test(String(ctx.conc(e.c[0])))) ? { tag: 'b', c: [null] } : e);
    ctx.check(ctx.eq(flat(got), flat(want)), label, { got, want, at });
  };
  verify('every mounted component shows the current value');
  // Later writes are still followed.
  if (at != null) { for (const k of c.final ?? ['a']) write(k, ctx.atom(k + 'last')); await settle(app); verify('later writes are shown'); }
  const users = at == null ? 0 : [...c.pages[at]].reduce((n, k) => n + [c.map[k], ...(c.twice?.[k] ? [c.twice[k]] : [])].reduce((m, s) => m + ({ a: 1, b: 1, sum: 2, top: 2 }[s] ?? 0), 0), 0);
  ctx.check(subs === users, 'exactly the mounted components are subscribed', { subs, users });
  app.root.unmount(); await settle(app);
  at = null;
  ctx.check(subs === 0, 'an unmounted component is not subscribed', { subs });
  const pend = host.pending.length;
  write('a', ctx.atom('z')); await ctx.drain();
  ctx.check(host.pending.length === pend, 'a write after unmounting causes no work', {});
  ctx.obs('subs', subs);
  ctx.reach('shown');
}

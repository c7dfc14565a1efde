// A component that throws while rendering: the update reports it, the document keeps what it showed, later updates work.
import { createComponent, createFragment, createPortal, DOMRoot, html, Ref } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const side = document.createElement('div');
  host.observe(app.container); host.observe(side);
  const log = [];
  let thrown = null, wired = false, setBomb = null, force = null;
  const set = {};
  const Bomb = createComponent(function Bomb(props) {
    const [armed, arm] = this.useState(false);
    setBomb = arm; force = (o) => this.forceUpdate(o);
    if (c.late) this.useEffect(() => { log.push('+bomb'); return () => { log.push('-bomb'); }; }, [props.v]);
    if (props.on || armed || wired) throw thrown;
    return html`<u>${props.v}</u>`;
  }, { arePropsEqual: () => false });
  const Part = createComponent(function Part(props) { // something with everything a committed component owns
    const [s, up] = this.useState(0);
    set[props.id] = up;
    this.useEffect(() => { log.push(`+${props.id}`); return () => { log.push(`-${props.id}`); }; }, [props.v, s]);
    return html`<p @x=${() => { log.push('!' + props.id); }} title=${props.v} id=${props.id}>${props.v}:${s}</p>`;
  }, { arePropsEqual: () => !!c.bail });
  const Deeper = createComponent(function Deep(props) { return props.d > 0 ? html`<s><${Deeper({ ...props, d: props.d - 1 })}></s>` : Bomb(props); }, { arePropsEqual: () => false });
  const bomb = (p) => {
    switch (c.at) {
      case 'deep': return Deeper({ ...p, d: 2 });
      case 'portal': return createPortal(Bomb(p), side);
      case 'frag': return createFragment([html`<b></b>`, Bomb(p), html`<b></b>`]);
      default: return Bomb(p);
    }
  };
  const bombMeans = (v) => { const u = { tag: 'u', c: [v] }; switch (c.at) { case 'deep': return [{ tag: 's', c: [{ tag: 's', c: [u] }] }]; case 'portal': return []; case 'frag': return [{ tag: 'b', c: [] }, u, { tag: 'b', c: [] }]; default: return [u]; } };
  const top = (st) => {
    const kids = st.kids.map((k) => (k === 'B' ? bomb({ v: st.v, on: st.on }) : Part({ id: k, v: st.v })));
    return c.shape === 'keyed' ? html`<div><${kids.map((e, i) => e.withKey(st.kids[i]))}></div>` : c.shape === 'hole' ? html`<div><${kids[0]}><hr><${kids[1] ?? null}></div>` : kids;
  };
  const states = {}, asked = {}, maybe = {}; // maybe: states whose update was reported as failed
  const first = {}; // with bail, parts keep the properties they were mounted with
  const vOf = (k, st) => c.bail ? first[k] : st.v;
  const means = (st) => {
    const kids = st.kids.map((k) => k === 'B' ? bombMeans(st.v) : [{ tag: 'p', '@title': vOf(k, st), '@id': k, c: [vOf(k, st), ':', String(states[k] ?? 0)] }]);
    return c.shape === 'keyed' ? [{ tag: 'div', c: kids.flat() }] : c.shape === 'hole' ? [{ tag: 'div', c: [...kids[0], { tag: 'hr', c: [] }, ...(kids[1] ?? [])] }] : kids.flat();
  };
  const showing = (k) => { let r = null; const go = (node) => { for (const m of node.childNodes) { if (m.nodeType !== 1) continue; if (m.localName === 'p' && m.getAttribute('id') === k) r = [...m.childNodes].at(-1).data; else go(m); } }; go(app.container); return r; };
  let former = null; // what the completion of another failing update rejected with
  if (c.error === 'former') {
    const h = track(new DOMRoot(document.createElement('div'), app.runtime).render(createComponent(function Other() { throw 'other'; })({})));
    await settle(app);
    ctx.check(h.ok === false && h.error.cause === 'other', 'the update reports the failure');
    former = h.error;
  }
  let shown = null, n = 0;
  const verify = (label) => {
    ctx.check(ctx.eq(content(app.container), shown === null ? [] : means(shown)), label, { got: content(app.container), n });
    if (c.at === 'portal') ctx.check(ctx.eq(content(side), shown?.kids.includes('B') ? [{ tag: 'u', c: [shown.v] }] : []), label + ' (portal)', { got: content(side) });
  };
  const listen = () => { // listeners of what is shown work
    if (shown === null) return;
    log.length = 0;
    const find = (node) => { for (const k of node.childNodes) { if (k.nodeType !== 1) continue; if (k.localName === 'p') k.dispatchEvent(new Event('x')); else find(k); } };
    find(app.container);
    ctx.check(ctx.eq(log, shown.kids.filter((k) => k !== 'B').map((k) => '!' + k)), 'listeners work', { log });
    log.length = 0;
  };
  const opts = () => OPT[c.opt ?? 'n'](host);
  for (const step of c.steps) { // e.g. '1B2' render, '*1B2' render failing, '^' own failing update of the bomb, '~1' own update of part 1
    n++;
    log.length = 0; host.takeWrites();
    thrown = c.error === 'former' ? former : c.error === 'any' ? ctx.any('e' + n) : c.error === 'error' ? new Error('boom') : c.error === 'promise' ? Promise.resolve(1) : { some: 'object' };
    const hs = [];
    let fails = false, next = null;
    const own = {};
    for (const a of step.split('+')) {
      if (a[0] === '*') { fails = true; hs.push(track(app.root.render(top({ kids: [...a.slice(1)], v: ctx.atom('v' + n), on: true }), opts()))); }
      else if (a === '^') { fails = true; hs.push(track(setBomb(true, opts()))); }
      else if (a === '%') { fails = true; wired = true; hs.push(track(force(opts()))); }
      else if (a[0] === '~' || a[0] === '=') { const id = a[1], v = a[0] === '=' ? asked[id] : n; asked[id] = v; own[id] = v; hs.push(track(set[id](v, opts()))); }
      else if (a === 'U') { hs.push(track(app.root.unmount(opts()))); next = 'U'; }
      else { next = { kids: [...a], v: ctx.atom('v' + n), on: false }; hs.push(track(app.root.render(top(next), opts()))); }
    }
    await settle(app);
    wired = false;
    if (fails) {
      for (const h of hs) {
        ctx.check(h.done && h.ok === false, 'the update reports the failure', { n, done: h.done, ok: h.ok });
        if (!h.done || h.ok) continue;
        ctx.check(h.error instanceof Error, 'the reason is an error', { n });
        ctx.check((h.error.message.match(/\b(Deep|Bomb|Part)\b/g) ?? []).join() === (c.at === 'deep' ? 'Deep,Deep,Deep,Bomb' : 'Bomb'), 'the error names the components from the root to the failing one', { n, message: [h.error.message] });
        ctx.check(Object.hasOwn(h.error, 'cause') && ctx.same(h.error.cause, thrown), 'its cause is what was thrown', { n, cause: h.error.cause, thrown });
      }
      ctx.check(host.takeWrites().length === 0, 'the document is not touched', { n });
      ctx.check(log.length === 0, 'no effect runs and none is cleaned up', { log });
      for (const k in own) maybe[k] = own[k];
      ctx.reach('failed');
    } else {
      ctx.check(hs.every((h) => h.ok === true), 'later updates complete', { n, e: hs.map((h) => [h.done, h.error]) });
      const drop = (k) => { delete first[k]; delete states[k]; delete maybe[k]; };
      if (next === 'U') { shown = null; for (const k of ['1', '2']) drop(k); }
      else if (next?.kids !== undefined) { for (const k of ['1', '2']) if (!next.kids.includes(k) || (c.shape !== 'keyed' && next.kids.indexOf(k) !== shown?.kids.indexOf(k))) drop(k); else if (k in maybe && String(maybe[k]) === showing(k)) { states[k] = maybe[k]; delete maybe[k]; } shown = next; for (const k of next.kids) first[k] ??= next.v; }
      for (const k in own) { states[k] = own[k]; delete maybe[k]; }
      ctx.reach('works');
    }
    verify(fails ? 'the document still shows the last committed content' : 'the document shows the right content');
    if (!fails && next !== 'U') {
      const net = log.filter((l) => l[0] === '+').map((l) => l.slice(1));
      ctx.obs('effects', net);
    }
    listen();
  }
  log.length = 0;
  const h = track(app.root.unmount()); await settle(app);
  ctx.check(h.ok === true && app.container.childNodes.length === 0, 'unmounting works', { e: h.error });
  const due = shown === null ? [] : shown.kids.map((k) => '-' + (k === 'B' ? 'bomb' : k)).filter((k) => c.late || k !== '-bomb');
  ctx.check(ctx.eq([...log].sort(), due.sort()), 'every effect is cleaned up exactly once', { log, due });
}

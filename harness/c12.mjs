// Exactly the latest event listener is invoked, with its options.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const calls = [];
  let order = [];
  const mk = (id) => (ev) => { calls.push({ id, ev }); order.push('L'); if (c.prevent) ev.preventDefault(); };
  const Through = createComponent(function Through(props) { return props.f; });
  const fns = { A: mk('A'), B: mk('B') };
  const O = { handleEvent: mk('O') };
  const acs = [new AbortController(), new AbortController()];
  let prev = null, cur = null, consumed = false, div = null;
  for (let s = 0; s < c.steps.length; s++) {
    const k = c.steps[s];
    let v = null, o = null, id = k;
    if (k === 'n') v = ctx.flag('undef' + s) ? undefined : null;
    else if (k === 'A' || k === 'B') { v = fns[k]; o = {}; }
    else if (k === 'f') { id = 'f' + s; v = mk(id); o = {}; }
    else if (k === 'O') { v = O; o = {}; }
    else if (k === 'l') { id = 'l' + s; v = [mk(id)]; o = {}; } // one of a list
    else if (k === 'e') { v = []; }
    else if (k === 'c') { id = 'c' + s; v = Through({ f: mk(id) }); o = {}; } // from a component
    else { // object with arbitrary options
      id = 'o' + s;
      o = {};
      for (const name of c.opts) if (ctx.flag('has' + name + s)) o[name] = ctx.bool(name + s);
      if (k === 'y') { const i = ctx.choose('signal' + s, 3); if (i < 2) o.signal = acs[i].signal; }
      v = { handleEvent: mk(id), ...o };
    }
    const h = await show(app, c.nested ? html`<section><div @click=${v}><span></span></div></section>` : html`<div @click=${v}><span></span></div>`);
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const d = app.container.querySelector('div');
    ctx.check(div === null || d === div, 'the element stays');
    if (div === null) { d.querySelector('span').addEventListener('click', () => { order.push('S'); }); }
    div = d;
    const sameObject = prev !== null && prev.v === v;
    const sameOpts = prev !== null && prev.o !== null && o !== null && ['capture', 'once', 'passive', 'signal'].every((n) => prev.o[n] === o[n]);
    if (o === null || !sameOpts) consumed = false;
    const unclear = consumed && !sameObject; // a once listener replaced by another with equal options after it fired
    for (let f = 0; f < c.fire; f++) {
      if (c.abort && f > 0) for (const i of [0, 1]) if (ctx.flag(`abort${s}.${f}.${i}`)) acs[i].abort();
      const aborted = o?.signal?.aborted === true;
      calls.length = 0; order = [];
      const ev = new Event('click', { bubbles: true, cancelable: true });
      div.querySelector('span').dispatchEvent(ev);
      ctx.check(calls.every((x) => x.id === id), 'only the latest listener is invoked', { calls: calls.map((x) => x.id), id, s });
      if (o === null) { ctx.check(calls.length === 0, 'no listener is invoked after it was removed', { calls: calls.map((x) => x.id) }); continue; }
      if (!unclear || calls.length > 0) {
        ctx.check(calls.length === (consumed || aborted ? 0 : 1), 'the latest listener is invoked once per event', { calls: calls.length, consumed, s, o });
        if (calls.length === 1) {
          ctx.check(calls[0].ev === ev, 'a listener receives the event');
          ctx.check((order[0] === 'L') === !!o.capture, 'the capture option of the latest listener is honoured', { order, o });
          if (c.prevent) ctx.check(ev.defaultPrevented === !o.passive, 'the passive option of the latest listener is honoured', { o });
          ctx.reach('fired');
        }
        if (aborted) ctx.reach('aborted');
        else if (o.once) consumed = true;
      }
    }
    ctx.obs('calls' + s, calls.map((x) => x.id));
    prev = { v, o };
  }
  const gone = div;
  if (c.end === 'unmount') { track(app.root.unmount()); await settle(app); } else await show(app, html`<hr>`);
  calls.length = 0;
  gone.querySelector('span').dispatchEvent(new Event('click', { bubbles: true, cancelable: true }));
  ctx.check(calls.length === 0, 'no listener is invoked after its element was unmounted', { calls: calls.map((x) => x.id) });
  ctx.check(host.domErrors.length === 0, 'no listener fails');
  ctx.reach('unmounted');
}

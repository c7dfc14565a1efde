// Mounting, draining and observing an application in either world.
import { DOMAdapter, DOMRoot, Runtime } from '@src/index.js';

export function mount(ctx, host, opts = {}) {
  const container = document.createElement('div');
  document.body.appendChild(container);
  const runtime = new Runtime(new DOMAdapter());
  const root = new DOMRoot(container, runtime);
  return { ctx, host, container, runtime, root, handles: [], ...opts };
}
/** Runs everything the host was asked to do, oldest first, until nothing is left. */
export async function settle(app, limit = 60) {
  const { ctx, host } = app;
  for (let i = 0; i < limit; i++) {
    await ctx.drain();
    if (host.pending.length === 0) return;
    host.run(host.pending[0]);
  }
  ctx.fail('the host never becomes idle');
}
/** Follows a completion promise. */
export function track(handle) {
  const s = { done: false, ok: null, error: null };
  handle.finished.then(() => { s.done = true; s.ok = true; }, (e) => { s.done = true; s.ok = false; s.error = e; });
  return s;
}
/** Renders a value at the root and waits until everything has settled. */
export async function show(app, value, options) {
  const h = track(app.root.render(value, options));
  await settle(app);
  return h;
}
/** Content of a node, comments left out: strings for text, {tag, attrs?, c} for elements. */
export function content(node) {
  const out = [];
  for (let n = node.firstChild; n !== null; n = n.nextSibling) {
    if (n.nodeType === 3) out.push(n.data);
    else if (n.nodeType === 1) {
      const e = { tag: n.localName, c: content(n) };
      for (const a of n.attributes) e['@' + a.name] = a.value;
      out.push(e);
    }
  }
  return out;
}
/** DOM nodes of a node's content in order, comments left out. */
export function nodes(node) {
  const out = [];
  for (let n = node.firstChild; n !== null; n = n.nextSibling) if (n.nodeType !== 8) out.push(n);
  return out;
}

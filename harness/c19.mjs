// Navigation adapters: events, navigations and listeners, against a model of the platform's navigation.
import { BrowserAdapter, HashAdapter, InMemoryAdapter, SyncNavigation, NavigationContext } from '@src/addons/router.js';
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';

const KIND = { events, navigate, memory, component };
export default async function main(ctx, c, host) { await KIND[c.kind](ctx, c, host); }

const ORIGIN = 'https://h.example';
const TYPES = ['push', 'replace', 'reload', 'traverse'];
const text = (ctx, name, shape) => [...shape].map((k, i) => k === 'x' ? ctx.str(name + i, 1, [[97, 98]]) : k === '*' ? ctx.str(name + 'any' + i, 1, [[97, 97], [47, 47], [35, 35], [63, 63], [37, 37]]) : k).join('');
/** The platform: current location, entry and navigate events. */
function platform(ctx, start, state) {
  const split = (u) => { const x = new URL(ORIGIN + u); return { pathname: x.pathname, search: x.search, hash: x.hash, href: ORIGIN + u, origin: ORIGIN, host: 'h.example', hostname: 'h.example', protocol: 'https:', toString() { return this.href; } }; };
  const p = { listeners: [], calls: [], current: start, gate: null, fails: false };
  p.location = split(start);
  p.entry = { state, getState() { return this.state; }, url: ORIGIN + start };
  p.navigation = {
    get currentEntry() { return p.entry; },
    addEventListener(type, f, o) { if (type === 'navigate') { p.listeners.push(typeof f === 'function' ? f : (e) => f.handleEvent(e)); p.raw.push(f); } if (o?.signal) o.signal.addEventListener('abort', () => this.removeEventListener(type, f)); },
    removeEventListener(type, f) { const i = p.raw.indexOf(f); if (type === 'navigate' && i >= 0) { p.raw.splice(i, 1); p.listeners.splice(i, 1); } },
    navigate(url, options) {
      p.calls.push([url, options]);
      const hash = url.startsWith('#');
      const target = hash ? p.location.pathname + p.location.search + url : url;
      const done = (async () => {
        const e = p.event({ url: ORIGIN + target, state: options?.state, hashChange: hash, navigationType: options?.history === 'replace' ? 'replace' : 'push' });
        p.fire(e);
        for (const h of e.handlers) await h();
        if (p.gate !== null) await p.gate;
        Object.assign(p.location, split(target)); p.entry = { state: options?.state, getState() { return this.state; }, url: ORIGIN + target };
      })();
      done.catch(() => {});
      return { committed: Promise.resolve(p.entry), finished: done.then(() => p.entry) };
    },
  };
  p.raw = [];
  p.event = (o) => { const e = { type: 'navigate', canIntercept: true, downloadRequest: null, hashChange: false, navigationType: 'push', userInitiated: false, ...o, handlers: [], intercepted: 0, destination: { id: '', index: -1, key: '', sameDocument: o.sameDocument ?? true, url: o.url, getState: () => o.state } }; e.intercept = (x) => { e.intercepted++; if (x?.handler) e.handlers.push(x.handler); }; e.scroll = () => {}; return e; };
  p.fire = (e) => { for (const f of [...p.listeners]) f(e); };
  return p;
}
const make = (c, p) => { if (c.dflt) { window.navigation = p.navigation; window.location = p.location; } return new (c.hash ? HashAdapter : BrowserAdapter)(c.dflt ? undefined : c.part ? (window.navigation = p.navigation, { location: p.location }) : { navigation: p.navigation, location: p.location }); };

async function events(ctx, c) {
  const p = platform(ctx, '/', undefined);
  const adapter = make(c, p);
  const log = [], offs = [];
  for (let i = 0; i < c.listeners; i++) offs.push(adapter.listen((scene, interceptor) => { log.push({ i, scene, interceptor }); if (c.intercept === i) interceptor.intercept({ handler: async () => { log.push('handled'); } }); }));
  const active = offs.map(() => true);
  for (let s = 0; s < c.events; s++) {
    if (s > 0) { const k = ctx.choose('off' + s, c.listeners + 1); if (k < c.listeners) { offs[k](); active[k] = false; } }
    log.length = 0;
    const path = '/' + text(ctx, `path${s}`, c.path), hash = text(ctx, `hash${s}`, c.frag);
    const can = ctx.bool('can' + s), same = ctx.bool('same' + s), hashChange = ctx.bool('hash' + s), dl = c.hash ? null : ctx.pick('dl' + s, [null, '', 'file.zip']);
    const state = ctx.any('state' + s), navigationType = ctx.pick('type' + s, TYPES);
    const e = p.event({ url: ORIGIN + path + hash, state, canIntercept: can, sameDocument: same, hashChange, downloadRequest: dl, navigationType });
    p.fire(e);
    const told = ctx.and(can, same, c.hash ? hashChange : ctx.not(hashChange), dl === null);
    const n = active.filter(Boolean).length, got = log.filter((l) => l !== 'handled');
    ctx.check(ctx.iff(n > 0 ? told : false, got.length > 0), 'exactly the interceptable same-document events of its kind are handled', { can, same, hashChange, dl, n: got.length });
    if (got.length > 0) {
      ctx.check(got.length === n && active.every((a, i) => got.filter((l) => l.i === i).length === (a ? 1 : 0)), 'every listener is told once', { got: got.map((l) => l.i), active });
      const bare = hash === '#' ? '' : hash;
      const want = c.hash ? bare.slice(1) : relative(path, bare);
      for (const l of got) {
        ctx.check(ctx.strict(l.scene.url, want), 'it is told the target URL', { got: l.scene.url, path, hash });
        ctx.check(ctx.and(ctx.same(l.scene.state, state), ctx.strict(l.scene.navigationType, navigationType)), 'it is told the state and the type', { got: l.scene, state });
      }
      if (c.intercept !== undefined && active[c.intercept]) { ctx.check(e.intercepted === 1 && e.handlers.length === 1, 'the event is the one intercepted', { n: e.intercepted }); await e.handlers[0](); ctx.check(log.includes('handled'), 'with the handler'); }
      ctx.reach('told');
    } else { ctx.check(e.intercepted === 0, 'other events are left alone'); ctx.reach('ignored'); }
  }
  for (const off of offs) off();
  ctx.check(p.listeners.length === 0, 'nothing is left behind');
}
/** Path and query without an empty query, then the fragment. */
function relative(path, hash) {
  let i = 0; while (i < path.length && path[i] !== '?') i++;
  return (path.length - i <= 1 ? path.slice(0, i) : path) + hash;
}

async function navigate(ctx, c, host) {
  const p = platform(ctx, c.start, ctx.any('state'));
  const adapter = make(c, p);
  const cut = (u) => c.hash ? u.slice(1) : u;
  const now = () => new URL(ORIGIN + c.start);
  const s0 = now();
  ctx.check(ctx.strict(adapter.getCurrentURL(), c.hash ? s0.hash.slice(1) : s0.pathname + s0.search + s0.hash), 'the current URL is that of the location', { got: adapter.getCurrentURL() });
  ctx.check(ctx.same(adapter.getCurrentState(), ctx.any('state')), 'the current state is that of the entry');
  const log = [];
  adapter.listen((scene, interceptor) => { log.push(scene); if (c.fails === 'handler') interceptor.intercept({ handler: () => Promise.reject(new Error('handler')) }); });
  for (let s = 0; s < c.steps; s++) {
    log.length = 0; p.calls.length = 0;
    const url = (c.hash ? '' : '/') + text(ctx, 'to' + s, c.shape);
    const state = ctx.any('st' + s), history = ctx.pick('history' + s, [undefined, 'auto', 'push', 'replace']), info = { s };
    const options = c.noOptions ? undefined : { state, history, info };
    let open; p.gate = new Promise((r) => { open = r; });
    const before = adapter.getCurrentURL();
    const h = track({ finished: adapter.navigate(url, options) });
    await ctx.drain();
    ctx.check(p.calls.length === 1, 'one navigation is started', { n: p.calls.length });
    const o = p.calls[0][1];
    ctx.check(c.noOptions ? o === undefined || Object.keys(o).length === 0 : ctx.and(ctx.same(o.state, state), o.history === history, o.info === info), 'with the options');
    ctx.check(log.length === 1 && ctx.strict(log[0].url, url) && ctx.same(log[0].state, c.noOptions ? undefined : state), 'the listener is told of the URL once, as it was given', { url, log });
    if (c.fails === 'handler') {
      ctx.check(h.done && h.ok === false, 'a failing handler fails the navigation');
      ctx.check(ctx.strict(adapter.getCurrentURL(), before), 'and the location stays', { before });
      ctx.reach('failed'); continue;
    }
    ctx.check(!h.done, 'navigating completes only after the platform has');
    open(); await ctx.drain();
    ctx.check(h.done && h.ok === true, 'then it does');
    ctx.check(ctx.strict(adapter.getCurrentURL(), url), 'the URL navigated to is the current one', { url, got: adapter.getCurrentURL() });
    ctx.check(ctx.same(adapter.getCurrentState(), c.noOptions ? undefined : state), 'and so is the state');
    ctx.reach('navigated');
  }
}

async function memory(ctx, c) {
  const str = (n) => c.lens ? ctx.str(n + 'L', ctx.choose(n + 'len', 3), [[97, 98]]) : ctx.str(n, 1, [[97, 99]]);
  let url = str('url'), state = ctx.any('state');
  const adapter = new InMemoryAdapter(url, state);
  const verify = (label) => { ctx.check(ctx.strict(adapter.getCurrentURL(), url), label + ': URL', { got: adapter.getCurrentURL(), url }); ctx.check(ctx.same(adapter.getCurrentState(), state), label + ': state'); };
  verify('initially');
  const listeners = []; // {fn, off, on, told, acts}
  const navs = [];
  let current = null;
  const add = (does) => {
    const l = { told: [], on: true, id: listeners.length };
    l.off = adapter.listen((scene, interceptor) => {
      const nav = current;
      l.told.push(nav);
      if (nav === null) { ctx.fail('a listener is told without a navigation'); return; }
      ctx.check(ctx.and(ctx.strict(scene.url, nav.url), ctx.same(scene.state, nav.state)), 'a listener is told the target URL and state', { got: scene, url: nav.url });
      ctx.check(nav.history === 'push' || nav.history === 'replace' ? scene.navigationType === nav.history : ctx.iff(scene.navigationType === 'replace', ctx.strict(nav.url, nav.from)), 'and the type of the navigation', { type: scene.navigationType, history: nav.history });
      for (const d of does) {
        if (d === 'i' || d === 't') { let done; nav.open.push(new Promise((r) => { done = r; })); const p = nav.open.at(-1); nav.left++; nav.release.push(() => { nav.left--; done(); }); interceptor.intercept({ handler: () => d === 't' ? { then: (ok, no) => p.then(ok, no) } : p }); }
        else if (d === 'n') interceptor.intercept({ handler: async () => {} });
        else if (d === 'e') interceptor.intercept();
        else if (d === 'u') interceptor.intercept({ handler: () => undefined });
        else if (d === 'r') { nav.fails = true; interceptor.intercept({ handler: () => Promise.reject(new Error('handler')) }); }
        else if (d === 's') interceptor.scroll();
        else if (d === 'o') off(l);
        else if (d === 'p') { const t = listeners[l.id - 1]; if (t) off(t); }
        else if (d === 'q') { const t = listeners[l.id + 1]; if (t) { if (t.on && !t.told.includes(nav)) nav.skip.add(t); off(t); } }
        else if (d === '+') { if (listeners.length < 5) add('i'); }
      }
    });
    l.at = navs.length;
    listeners.push(l);
    return l;
  };
  const off = (l) => { l.on = false; l.gone ??= navs.length; l.off(); };
  const go = () => {
    const s = navs.length;
    const nav = { url: str('url' + s), state: c.noOptions ? undefined : ctx.any('state' + s), history: c.noOptions ? undefined : ctx.pick('history' + s, [undefined, 'auto', 'push', 'replace']), from: url, open: [], release: [], left: 0, skip: new Set(), fails: false };
    const due = listeners.filter((l) => l.on);
    navs.push(nav);
    current = nav;
    nav.h = track({ finished: adapter.navigate(nav.url, c.noOptions ? undefined : { state: nav.state, ...(nav.history === undefined ? {} : { history: nav.history }) }) });
    current = null;
    for (const l of listeners) {
      const n = l.told.filter((x) => x === nav).length;
      if (due.includes(l)) ctx.check(n === (nav.skip.has(l) ? 0 : 1), 'every listener registered is told once, one unsubscribed is not', { l: l.id, n });
      else ctx.check(l.gone !== undefined && l.gone < navs.length && !l.on ? n <= (l.at === s + 1 ? 1 : 0) : n <= 1, 'a listener that is not registered is not told', { l: l.id, n });
    }
    return nav;
  };
  const finish = async (nav) => { for (let i = 0; nav.release.length > 0; i++) { ctx.check(!nav.h.done || nav.fails, 'navigating completes only after every intercepting handler has', { left: nav.left }); verify('before it completes'); nav.release.splice(ctx.choose('release' + i, nav.release.length), 1)[0](); await ctx.drain(); } };
  for (const op of c.ops) {
    if (op[0] === 'l') add(ctx.pick('does' + listeners.length, c.does));
    else if (op[0] === 'u') off(listeners[op[1]]);
    else if (op === 'go') {
      const nav = go();
      await ctx.drain();
      if (nav.release.length > 0) ctx.reach('waiting');
      await finish(nav);
      await ctx.drain();
      ctx.check(nav.h.done && nav.h.ok === !nav.fails, 'it completes, unless a handler failed', { fails: nav.fails });
      if (!nav.fails) { url = nav.url; state = nav.state; ctx.reach('navigated'); } else ctx.reach('failed');
      verify('afterwards');
    } else if (op === 'two') { // two navigations at once: what is reported is that of the last one completed
      const a = go(), b = go();
      await ctx.drain();
      const order = ctx.flag('order') ? [a, b] : [b, a];
      const waits = order.filter((n) => n.release.length > 0);
      for (const n of waits) {
        const others = waits.filter((x) => x !== n && x.release.length > 0);
        while (n.release.length > 0) n.release.shift()();
        await ctx.drain();
        ctx.check(n.h.done && n.h.ok === true, 'it completes');
        for (const x of others) ctx.check(!x.h.done, 'the other one does not yet');
        url = n.url; state = n.state;
        verify('the last one completed');
      }
      if (waits.length === 0) { url = b.url; state = b.state; verify('the second one'); }
      else if (waits.length === 2) ctx.reach('overlapping');
      if (waits.length === 1) ctx.fail('harness: one of them waits');
    }
  }
  ctx.reach('memory');
}

async function component(ctx, c, host) {
  const app = mount(ctx, host);
  const str = (n) => ctx.atom(n);
  let adapter = new InMemoryAdapter(str('url'), ctx.any('state')), since = 0;
  let contexts = [], asked = [];
  const intercept = c.intercept === undefined ? undefined : (scene, setScene) => {
    asked.push(scene);
    if (c.intercept === 'none') return undefined;
    if (c.intercept === 'options') return { handler: () => setScene(scene, { flushSync: true }).finished };
    if (c.intercept === 'after') return { handler: async () => { await setScene(scene, {}).finished; asked.push('shown'); } };
    if (c.intercept === 'ignore') return { handler: async () => {} };
  };
  const Inner = createComponent(function Inner() { const n = this.inject(NavigationContext); return html`<i>${n?.scene.url}</i>`; });
  const App = createComponent(function App(props) {
    const n = this.use(SyncNavigation(adapter, intercept));
    contexts.push(n);
    return html`<b>${n.scene.url}</b><${props.inner ? Inner({}) : null}>`;
  }, { arePropsEqual: () => false });
  { const h = await show(app, App({ inner: c.inner })); ctx.check(h.ok === true, 'the first render completes', { e: h.error?.message }); }
  const first = contexts[0];
  ctx.check(contexts.length === 1 && first.adapter === adapter && first.scene.navigationType === null, 'the initial scene has no type');
  let url = str('url'), state = ctx.any('state');
  const verify = (label) => {
    const n = contexts.at(-1);
    ctx.check(ctx.and(ctx.strict(n.scene.url, url), ctx.same(n.scene.state, state)), label + ': scene', { got: n.scene });
    ctx.check(ctx.eq(content(app.container), [{ tag: 'b', c: [url] }, ...(c.inner ? [{ tag: 'i', c: [url] }] : [])]), label + ': content', { got: content(app.container) });
  };
  verify('initially');
  for (let s = 0; s < c.steps; s++) {
    if (c.swap === s) { // the component is given another adapter
      const old = adapter;
      adapter = new InMemoryAdapter(str('other'), ctx.any('otherState')); since = contexts.length;
      await show(app, App({ inner: c.inner }));
      asked.length = 0;
      const h = track({ finished: old.navigate(str('gone'), {}) });
      await settle(app);
      ctx.check(h.ok === true && contexts.length === since + 1 && asked.length === 0, 'the adapter used before is not listened to', { asked: asked.length });
    } else if (ctx.flag('again' + s)) await show(app, App({ inner: c.inner }));
    asked.length = 0;
    const at = adapter.getCurrentURL(), to = str('url' + s), st = ctx.any('state' + s);
    let shownAtEnd = null;
    const done = adapter.navigate(to, { state: st });
    const h = track({ finished: done.then(() => { shownAtEnd = content(app.container); }) });
    await ctx.drain();
    const ignore = c.intercept === 'ignore';
    ctx.check(h.done === (ignore || c.intercept === 'options') || h.done === false && ignore === false, 'navigating waits for the component');
    if (!ignore && c.intercept !== 'options') ctx.check(!h.done && ctx.strict(adapter.getCurrentURL(), at), 'the current URL stays until then');
    await settle(app);
    ctx.check(h.done && h.ok === true, 'navigating completes');
    if (c.intercept !== undefined) ctx.check(asked.filter((x) => x !== 'shown').length === 1 && ctx.strict(asked[0].url, to) && ctx.same(asked[0].state, st), 'the interceptor is asked once', { n: asked.length });
    if (!ignore) { url = to; state = st; }
    if (shownAtEnd !== null && !ignore) ctx.check(ctx.eq(shownAtEnd[0], { tag: 'b', c: [url] }), 'the new scene is shown when navigating completes', { shownAtEnd });
    if (c.intercept === 'after') ctx.check(asked.includes('shown'), 'its handler is run to its end');
    verify('after navigating');
    ctx.check(ctx.and(ctx.strict(adapter.getCurrentURL(), to), ctx.same(adapter.getCurrentState(), st)), 'the adapter reports it');
    ctx.check(contexts.slice(since).every((n) => n.adapter === adapter), 'the context has the adapter');
    ctx.reach('shown');
  }
  const n = contexts.length;
  app.root.unmount(); await settle(app);
  asked.length = 0;
  const h = track({ finished: adapter.navigate(str('last'), {}) });
  await settle(app);
  ctx.check(h.ok === true && contexts.length === n && asked.length === 0, 'an unmounted component is not told');
  ctx.check(ctx.strict(adapter.getCurrentURL(), str('last')), 'navigating goes on without it');
}

// Signals: computed values are always current; writes notify exactly the subscribers.
import { Accessor, Atom, Computed } from '@src/addons/signal.js';

export default async function main(ctx, c, host) {
  const value = (n) => c.values === 'any' ? ctx.any('y' + n, ['undefined', 'null', 'boolean', 'number', 'string', 'empty']) : c.values === 'num' ? ctx.num('n' + n) : ctx.atom(n);
  let fresh = 0;
  // sources and computed signals; means[j]() is what signal j stands for
  const sig = [], means = [], cells = [], paths = []; // paths[j][i]: how many ways lead from signal j to source i
  for (const [j, spec] of c.graph.entries()) {
    const v = value('v' + j);
    if (spec === 'a' || spec === 'x') {
      const cell = { v, j }; cells.push(cell);
      sig.push(spec === 'a' ? new Atom(v) : (() => { cell.inner = v; return new Accessor(() => cell.inner, (x) => { cell.inner = x; }); })());
      means.push(() => cell.v);
      paths.push(Object.fromEntries([[j, 1]]));
    } else if (typeof spec === 'number') { // map
      sig.push(sig[spec].map((x) => ({ j, xs: [x] })));
      means.push(() => ({ j, xs: [means[spec]()] }));
      paths.push({ ...paths[spec] });
    } else {
      sig.push(new Computed((...xs) => ({ j, xs }), spec.map((d) => sig[d])));
      means.push(() => ({ j, xs: spec.map((d) => means[d]()) }));
      const p = {}; for (const d of spec) for (const [i, n] of Object.entries(paths[d])) p[i] = (p[i] ?? 0) + n;
      paths.push(p);
    }
  }
  const subs = []; // {id, at, off, live, behaves}
  let writes = []; // writes under way
  let depth = 0, calls = 0;
  const current = (why) => {
    const js = c.reads ?? sig.map((_, j) => j);
    for (const j of js) ctx.check(ctx.eq(sig[j].value, means[j]()), 'a signal has the value its dependencies have now', { j, why, got: sig[j].value, want: means[j]() });
  };
  const write = (i) => {
    const cell = cells[i], v = value('w' + fresh++);
    const changes = !Object.is(cell.v, v);
    const w = { i: cell.j, old: cell.v, v, changes, before: subs.filter((s) => s.live), counts: new Map(), gone: new Set(), event: null };
    const versions = sig.map((s) => s.version);
    cell.v = v;
    writes.push(w); depth++;
    sig[cell.j].value = v;
    depth--; writes.pop();
    if (!changes) { ctx.check(w.counts.size === 0, 'a write of the same value notifies nobody', { v }); ctx.reach('same'); return; }
    ctx.reach('changed');
    for (const s of subs) {
      const n = w.counts.get(s) ?? 0, want = paths[s.at][w.i] ?? 0;
      if (w.before.includes(s)) ctx.check(w.gone.has(s) ? n <= want : n === want, 'a write notifies each subscriber once per path', { at: s.at, n, want });
      else ctx.check(n <= want, 'a subscriber is notified at most once per path', { at: s.at, n, want });
    }
    for (const [j, s] of sig.entries()) if (paths[j][w.i] > 0) ctx.check(s.version > versions[j], 'a change raises the version', { j, v: s.version, old: versions[j] });
  };
  const subscribe = (at, behaves) => {
    const s = { id: subs.length, at, live: true, behaves };
    const off = sig[at].subscribe((event) => {
      calls++;
      ctx.check(s.live, 'a subscriber that was taken off is not called', { id: s.id, at });
      // the write this event is about: the innermost one not finished that produced it
      let w = writes.find((x) => x.event === event);
      if (w === undefined) { w = writes.at(-1); ctx.check(w !== undefined && w.event === null, 'subscribers are called for writes only'); w.event = event; }
      w.counts.set(s, (w.counts.get(s) ?? 0) + 1);
      ctx.check(w.changes, 'a write of the same value notifies nobody', {});
      ctx.check(event.type === 'set' && event.source === sig[w.i] && event.path.length === 0 && ctx.and(ctx.same(event.oldValue, w.old), ctx.same(event.newValue, w.v)), 'the event tells what was written', { event });
      current('in a subscriber');
      act(s, calls);
    });
    s.off = () => { s.live = false; for (const w of writes) w.gone.add(s); off(); };
    subs.push(s);
    return s;
  };
  const act = (me, n) => {
    if (n > 6) return;
    switch (me.behaves) {
      case 'off': me.off(); break; // takes itself off
      case 'next': subs.find((s) => s.live && s.id > me.id)?.off(); break;
      case 'prev': subs.findLast((s) => s.live && s.id < me.id)?.off(); break;
      case 'both': me.off(); subs.find((s) => s.live && s.id > me.id)?.off(); break;
      case 'all': for (const s of [...subs]) s.off(); break;
      case 'llb': for (const s of [...subs].reverse()) s.off(); break;
      case 'on': me.behaves = null; subscribe(me.at, null); break;
      case 'swap': me.behaves = null; { me.off(); subscribe(me.at, null); } break;
      case 'write': if (depth < 2) write(cells.length - 1); break;
      case 'set': if (depth < 2) write(0); break;
    }
  };
  if (c.first !== 0) current('first');
  for (const [i, op] of c.ops.entries()) {
    const [k, n] = [op[0], op.slice(1)];
    if (k === 'w') write(Number(n));
    else if (k === 's') subscribe(Number(n), ctx.pick('b' + i, c.behaves));
    else if (k === 'q') subscribe(Number(n), null);
    else if (k === 'u') { subs[Number(n)].off(); ctx.reach('off'); }
    else if (k === 'U') { subs[Number(n)].off(); subs[Number(n)].off(); } // twice
    else if (k === 'r') current('read');
    else if (k === '?') { const x = ctx.choose('o' + i, cells.length); write(x); }
  }
  current('end');
}

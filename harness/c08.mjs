// Priority queue: a sequence of operations; element keys are symbolic integers, ties allowed.
import { PriorityQueue } from '@src/queue.js';
export default function main(ctx, c) {
  const q = new PriorityQueue((x, y) => x.key - y.key);
  const inside = [];
  const out = [];
  let id = 0;
  const keys = c.keys ?? []; // the first keys are fixed, the rest symbolic
  const take = () => {
    const p = q.peek();
    const x = q.dequeue();
    ctx.check(p === x, 'peek returns what removal returns');
    if (inside.length === 0) { ctx.check(x === undefined, 'empty queue yields undefined'); return; }
    const i = inside.indexOf(x);
    ctx.check(i >= 0, 'removal returns an element that is queued', { x: x === undefined ? null : x.id });
    if (i < 0) return;
    inside.splice(i, 1);
    for (const y of inside) ctx.check(x.key <= y.key, 'removal returns a minimal element', { x: x.key, y: y.key });
    out.push(x.id);
    ctx.reach('dequeued');
  };
  for (const op of c.ops) {
    if (op === '+') { const e = { id: id, key: keys[id] ?? ctx.int('k' + (id - keys.length), -3, 1000) }; id++; inside.push(e); q.enqueue(e); } else take();
    ctx.check(inside.length === 0 ? q.peek() === undefined : inside.includes(q.peek()), 'peek is undefined exactly when empty');
  }
  while (inside.length > 0) { const n = inside.length; take(); if (inside.length === n) return; }
  take();
  ctx.check(out.length === id, 'everything inserted comes out exactly once');
  ctx.obs('order', out);
}

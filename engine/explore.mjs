// Master: distributes path tasks over worker threads and collects the results.
import { Worker } from 'node:worker_threads';
import os from 'node:os';

export async function explore({ prep, cases, opt }) {
  const n = opt.workers ?? Math.max(1, Math.min(8, os.cpus().length));
  const total = { paths: 0, branches: 0, feasible: 0, infeasible: 0, checks: 0, checkQueries: 0, assumeEnded: 0, validated: 0, trivialChecks: 0, maxBranches: 0 };
  const lists = { mismatches: [], inconclusive: [], candidates: [], samples: [] };
  const reached = {};
  const solverStats = new Map();
  const hits = new Map();
  const queue = cases.map((_, i) => ({ case: i, inputs: { vars: {}, apps: {} }, bound: 0, hash: 0 }));
  queue.reverse();
  const t0 = Date.now();
  let timedOut = false;
  const workers = [];
  await new Promise((resolve) => {
    let busy = 0, stopped = false;
    const idle = [];
    let alive = 0;
    const finish = () => { if (!stopped) { stopped = true; clearTimeout(timer); resolve(); } };
    const timer = setTimeout(() => { timedOut = true; finish(); }, opt.deadline * 1000);
    const pump = () => {
      if (stopped) return;
      if (lists.candidates.length >= opt.maxCandidates || lists.inconclusive.length >= 20 || lists.mismatches.length >= 20) return busy === 0 ? finish() : undefined;
      while (idle.length > 0 && queue.length > 0) {
        const w = idle.pop();
        const share = Math.max(1, Math.min(40, Math.ceil(queue.length / (n * 2))));
        const tasks = queue.splice(queue.length - share, share);
        busy++;
        w.postMessage({ type: 'run', tasks, slice: queue.length > n * 4 ? 400 : 100 });
      }
      if (busy === 0 && queue.length === 0) finish();
    };
    for (let i = 0; i < n; i++) {
      const w = new Worker(new URL('./worker.mjs', import.meta.url), { workerData: { role: 'explore', prep, cases, opt }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
      workers.push(w);
      alive++;
      w.on('message', (m) => {
        if (m.type === 'ready') { idle.push(w); pump(); return; }
        busy--;
        const s = m.stats;
        for (const k in total) if (k === 'maxBranches') total[k] = Math.max(total[k], s[k]); else total[k] += s[k];
        for (const k in lists) { const room = k === 'samples' ? 12 : 200; for (const x of s[k]) if (lists[k].length < room) lists[k].push(x); }
        for (const k in s.reached) reached[k] = (reached[k] ?? 0) + s.reached[k];
        solverStats.set(i, m.solver);
        hits.set(i, m.hits);
        for (const t of m.tasks) queue.push(t);
        idle.push(w);
        pump();
      });
      w.on('error', (e) => { lists.inconclusive.push({ kind: 'worker', why: String(e?.stack ?? e) }); finish(); });
      w.on('exit', () => { alive--; if (!stopped) { lists.inconclusive.push({ kind: 'worker', why: 'worker ended' }); finish(); } });
    }
  });
  for (const w of workers) { w.removeAllListeners(); w.on('error', () => {}); w.postMessage({ type: 'stop' }); }
  await Promise.all(workers.map((w) => Promise.race([new Promise((r) => w.once('exit', r)), new Promise((r) => setTimeout(r, 1500))])));
  await Promise.all(workers.map((w) => w.terminate()));
  const solver = { queries: 0, cached: 0, sat: 0, unsat: 0, unknown: 0, ms: 0 };
  for (const s of solverStats.values()) for (const k in solver) solver[k] += s[k];
  const fnHits = [];
  for (const h of hits.values()) h.forEach((v, i) => { fnHits[i] = (fnHits[i] ?? 0) + (v ?? 0); });
  return { ...total, ...lists, reached, solver, fnHits, timedOut, left: queue.length, seconds: (Date.now() - t0) / 1000, workers: n };
}

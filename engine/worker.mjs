// Explores paths of one harness.  Runs in a worker thread with its own solver process.
import { parentPort, workerData } from 'node:worker_threads';
import * as T from './terms.mjs';
import * as R from './rt.mjs';
import { SymCtx, RealCtx } from './ctx.mjs';
import { Solver } from './solver.mjs';
import { Program } from './loader.mjs';
import { symEnv, realEnv } from './env.mjs';
const { P } = R;

let strayError = null;
process.on('unhandledRejection', (e) => { if (e instanceof R.Unsupported || e instanceof R.PathEnd) return; });
process.on('uncaughtException', (e) => { strayError ??= e; });

export const turn = () => new Promise((r) => setImmediate(r));
const STUCK = Symbol('stuck');
async function settled(promise) {
  let done = false;
  const p = promise.then((v) => { done = true; return v; }, (e) => { done = true; throw e; });
  p.catch(() => {});
  for (let i = 0; i < 400 && !done; i++) await turn();
  if (!done) return STUCK;
  return p;
}
export async function runSym(prog, c, inputs, maxTicks) {
  R.beginPath(inputs, { maxTicks });
  strayError = null;
  const env = symEnv(c.env);
  const ctx = new SymCtx();
  env.ctx = ctx;
  const out = { outcome: 'ok', error: null };
  try {
    const inst = prog.instantiate(R.$, env);
    const r = await settled((async () => inst.entry.default(ctx, c, env.host))());
    if (r === STUCK) out.outcome = 'stuck';
  } catch (e) {
    if (e instanceof R.PathEnd) out.outcome = 'assume';
    else if (!(e instanceof R.Unsupported)) { out.outcome = 'uncaught'; out.error = e; }
  }
  if (strayError !== null && out.outcome === 'ok' && !(strayError instanceof R.Unsupported)) { out.outcome = 'uncaught'; out.error = strayError; }
  if (P.abort !== null) { out.outcome = P.abort.kind; out.why = P.abort.why; out.stack = P.abort.stack; }
  else if (P.ended !== null) out.outcome = 'assume';
  return out;
}
export async function runReal(prog, c, inputs) {
  const { env, close } = realEnv(c.env);
  const ctx = new RealCtx(inputs);
  env.ctx = ctx;
  strayError = null;
  const out = { outcome: 'ok', failed: ctx.failed, log: ctx.log, reached: ctx.reached, error: null };
  try {
    const inst = prog.instantiate(R.$, env);
    const r = await settled((async () => inst.entry.default(ctx, c, env.host))());
    if (r === STUCK) out.outcome = 'stuck';
  } catch (e) {
    if (e instanceof R.PathEnd) out.outcome = 'assume';
    else { out.outcome = 'uncaught'; out.error = e; }
  }
  if (strayError !== null && out.outcome === 'ok') { out.outcome = 'uncaught'; out.error = strayError; }
  try { close(); } catch { /* ignored */ }
  return out;
}
export const errText = (e) => e === null || e === undefined ? String(e) : `${e?.name ?? 'Error'}: ${String(R.isSym(e) ? '<symbolic>' : R.isSym(e?.message) ? '<symbolic>' : e?.message ?? e).split('\n')[0]}`;
const errName = (e) => (e && typeof e === 'object' && !R.isSym(e) && typeof e.name === 'string') ? e.name : 'value';
export const uncaughtLabel = (e) => 'uncaught ' + errName(e);

function slice(lits, seed) { // literals connected to the seed through shared variables or functions
  const vars = new Set(T.varsOf(seed));
  const rest = lits.filter((l) => l !== T.TRUE).map((l) => [l, T.varsOf(l)]);
  const out = [];
  let changed = true;
  while (changed) {
    changed = false;
    for (let i = 0; i < rest.length; i++) {
      const r = rest[i];
      if (r === null) continue;
      let hit = false;
      for (const v of r[1]) if (vars.has(v)) { hit = true; break; }
      if (!hit) continue;
      rest[i] = null; changed = true; out.push(r[0]);
      for (const v of r[1]) vars.add(v);
    }
  }
  return out;
}
function completeInputs() {
  const vars = Object.fromEntries(P.names);
  const apps = {};
  for (const [k, v] of P.fnTables) apps[k] = { ...v };
  return { vars, apps };
}
function merge(base, model) {
  const apps = { ...base.apps };
  for (const f in model.apps) apps[f] = { ...apps[f], ...model.apps[f] };
  return { vars: { ...base.vars, ...model.vars }, apps };
}
let prefixHash = (lits, n) => { let h = 17; for (let i = 0; i < n; i++) h = Math.imul(h ^ lits[i].hash, 0x01000193) >>> 0; return h; };

if (parentPort !== null && workerData?.role === 'explore') {
  const { prep, prepReal, cases, opt } = workerData;
  const prog = new Program(prep, true);
  const real = new Program(prepReal ?? prep, false);
  const solver = new Solver(opt.solver, opt.queryTimeout);
  let totalPaths = 0;
  const st = () => ({ paths: 0, branches: 0, feasible: 0, infeasible: 0, checks: 0, checkQueries: 0, assumeEnded: 0, validated: 0, mismatches: [], inconclusive: [], candidates: [], samples: [], reached: {}, maxBranches: 0, trivialChecks: 0 });
  const hash = (s) => { let h = 7; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) >>> 0; return h; };

  async function runTask(task, stats, push) {
    const c = cases[task.case];
    totalPaths++;
    const o = await runSym(prog, c, task.inputs, opt.maxTicks);
    const branches = P.branches, checks = P.checks, log = P.log, reached = [...P.reached];
    const lits = branches.map((b) => b.lit);
    const full = completeInputs();
    const tried = P.tried;
    stats.paths++;
    stats.branches += lits.length;
    stats.maxBranches = Math.max(stats.maxBranches, lits.length);
    // the run has to follow the path it was created for
    if (task.bound > 0 && (lits.length < task.bound || prefixHash(lits, task.bound) !== task.hash)) {
      let d = '';
      if (opt.debug && task.debug) { const i = task.debug.findIndex((x, j) => lits[j] === undefined || T.toDebug(lits[j]) !== x); d = ` at ${i}: expected ${task.debug[i]} got ${lits[i] && T.toDebug(lits[i])}`; }
      stats.inconclusive.push({ kind: 'divergence', case: c, inputs: full, why: `path diverged (${lits.length}/${task.bound})${d}` });
      return;
    }
    // other sides of the branches taken after the prefix
    for (let i = branches.length - 1; i >= task.bound; i--) {
      const b = branches[i];
      if (!b.flip) continue;
      const neg = T.not(b.lit);
      const q = [...slice(lits.slice(0, i), neg), neg];
      const r = await solver.check(q);
      if (r.r === 'unsat') { stats.infeasible++; continue; }
      if (r.r === 'unknown') { stats.inconclusive.push({ kind: 'unknown', case: c, why: 'solver gave no answer on ' + T.toDebug(neg) }); continue; }
      stats.feasible++;
      const nl = lits.slice(0, i).concat(neg);
      push({ case: task.case, inputs: { ...merge(full, r.model), conc: tried.filter((x) => x.at <= i) }, bound: i + 1, hash: prefixHash(nl, i + 1), debug: opt.debug ? nl.map((x) => T.toDebug(x)) : undefined });
    }
    if (o.outcome === 'assume') { stats.assumeEnded++; return; }
    for (const l of reached) stats.reached[l] = (stats.reached[l] ?? 0) + 1;
    if (o.outcome === 'unsupported') { stats.inconclusive.push({ kind: 'unsupported', case: c, why: o.why, stack: opt.debug ? o.stack : undefined, inputs: full }); return; }
    if (o.outcome === 'hang' || o.outcome === 'stuck' || o.outcome === 'uncaught') {
      stats.candidates.push({ case: c, inputs: full, label: o.outcome === 'uncaught' ? uncaughtLabel(o.error) : o.outcome, info: o.error ? errText(o.error) : o.why, stack: opt.debug ? o.error?.stack : undefined });
      if (o.outcome === 'uncaught' && opt.debug) console.error(o.error?.cause?.cause ?? o.error?.cause ?? o.error);
    }
    // assertions
    stats.checks += checks.length;
    let open = checks.filter((k) => k.term !== T.TRUE);
    stats.trivialChecks += checks.length - open.length;
    const seen = new Set();
    for (const k of open) if (!k.c) { if (!seen.has(k.label)) { seen.add(k.label); stats.candidates.push({ case: c, inputs: full, label: k.label, info: k.info }); } }
    open = open.filter((k) => !seen.has(k.label));
    while (open.length > 0) {
      const bad = T.or(...open.map((k) => T.not(k.term)));
      if (bad === T.FALSE) break;
      stats.checkQueries++;
      const r = await solver.check([...slice(lits, bad), bad]);
      if (r.r === 'unsat') break;
      if (r.r === 'unknown') { stats.inconclusive.push({ kind: 'unknown', case: c, why: 'solver gave no answer on an assertion (' + open.map((k) => k.label).join('; ') + ')' }); break; }
      const inputs = merge(full, r.model);
      const o2 = await runSym(prog, c, inputs, opt.maxTicks);
      void o2;
      const failing = P.checks.filter((k) => !k.c);
      if (failing.length === 0) { stats.inconclusive.push({ kind: 'divergence', case: c, why: 'assertion counterexample does not fail when run: ' + open.map((k) => k.label).join('; '), inputs }); break; }
      const in2 = completeInputs();
      const labels = new Set(failing.map((k) => k.label));
      for (const k of failing) if (!seen.has(k.label)) { seen.add(k.label); stats.candidates.push({ case: c, inputs: in2, label: k.label, info: k.info }); }
      const before = open.length;
      open = open.filter((k) => !labels.has(k.label));
      if (open.length === before) break;
    }
    // sampled comparison with the real code
    const pick = totalPaths <= 3 || (hash(task.case + JSON.stringify(full, (_k, v) => typeof v === 'bigint' ? String(v) : v)) + opt.seed) % opt.validateEvery === 0;
    if (pick && (o.outcome === 'ok')) {
      const rr = await runReal(real, c, full);
      const a = JSON.stringify(log), b = JSON.stringify(rr.log);
      const symFailed = checks.filter((k) => !k.c).map((k) => k.label).sort().join('|');
      const realFailed = rr.failed.map((k) => k.label).sort().join('|');
      if (rr.outcome !== 'ok' || a !== b || symFailed !== realFailed) {
        stats.mismatches.push({ case: c, inputs: full, sym: { log: a.slice(0, 2000), failed: symFailed }, real: { outcome: rr.outcome, error: rr.error ? errText(rr.error) : undefined, log: b.slice(0, 2000), failed: realFailed } });
      } else stats.validated++;
      if (stats.samples.length < 2) stats.samples.push({ case: c, inputs: full, observed: JSON.parse(a.length > 1500 ? '"…"' : a) });
    }
  }
  parentPort.on('message', async (msg) => {
    if (msg.type === 'stop') { solver.close(); process.exit(0); }
    const stats = st();
    const stack = msg.tasks;
    const t0 = Date.now();
    try {
      while (stack.length > 0 && Date.now() - t0 < msg.slice && stats.candidates.length === 0) {
        const task = stack.pop();
        await runTask(task, stats, (t) => stack.push(t));
        if (T.termCount() > 1500000) { solver.restart(); solver.cache.clear(); T.reset(); }
      }
    } catch (e) {
      stats.inconclusive.push({ kind: 'internal', why: String(e?.stack ?? e) });
    }
    parentPort.postMessage({ type: 'done', stats, tasks: stack, solver: { ...solver.stats }, hits: R.hits.slice() });
  });
  parentPort.postMessage({ type: 'ready' });
}

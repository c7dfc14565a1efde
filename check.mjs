// node check.mjs ID [quick|thorough]
import fs from 'node:fs';
import path from 'node:path';
import { spawnSync } from 'node:child_process';
import { prepare, VERIF } from './engine/loader.mjs';
import { explore } from './engine/explore.mjs';
import { encode } from './engine/codec.mjs';

const id = process.argv[2];
const tier = process.argv[3] ?? process.env.VERIF_TIER ?? 'quick';
const seed = Number(process.env.VERIF_SEED ?? 1) || 0;
const { specs } = await import('./harness/specs.mjs');
const spec = specs[id];
if (!spec) { console.error('unknown property ' + id); process.exit(2); }
const t0 = Date.now();
const evDir = path.join(VERIF, 'evidence');
const rpDir = path.join(evDir, 'replays');
fs.mkdirSync(rpDir, { recursive: true });
const knownAll = JSON.parse(fs.readFileSync(path.join(VERIF, 'known-findings.json'), 'utf8'));
const known = knownAll.findings.filter((k) => k.property === id);
const isKnown = (k, c) => k.label === c.label && (k.case === undefined || JSON.stringify(k.case) === JSON.stringify(c.case)) && (k.inputs === undefined || Object.entries(k.inputs).every(([n, v]) => Object.is(c.inputs.vars[n], v)));

const parts = [];
let violation = null;
const problems = [];
const knownSeen = new Set();
let rid = 0;
function replay(entry, stubs, cand) {
  const file = path.join(rpDir, `${id}-${++rid}.json`);
  fs.writeFileSync(file, JSON.stringify(encode({ property: id, entry, stubs, case: cand.case, inputs: cand.inputs, label: cand.label, info: cand.info, run: `node engine/replay.mjs ${file}` }), null, 1));
  const r = spawnSync(process.execPath, [path.join(VERIF, 'engine/replay.mjs'), file], { timeout: 20000, encoding: 'utf8', maxBuffer: 1 << 26 });
  const hung = r.error?.code === 'ETIMEDOUT' || r.signal === 'SIGTERM';
  const confirmed = cand.label === 'hang' ? hung : r.status === 1;
  return { file, confirmed, detail: hung ? 'no answer within 20 s' : (r.stdout + r.stderr).slice(0, 3000) };
}
for (const part of spec.parts) {
  if (process.env.VERIF_PART && part.name !== process.env.VERIF_PART) continue;
  const entry = '@h/' + part.harness;
  const prep = prepare(entry, part.stubs);
  const cases = part.cases(tier).filter((_, i) => !process.env.VERIF_CASE || process.env.VERIF_CASE.split(",").includes(String(i)));
  const opt = {
    seed, deadline: part.deadline?.(tier) ?? (tier === 'quick' ? 600 : 3000), maxTicks: part.maxTicks ?? 3e5,
    queryTimeout: 60000, maxCandidates: 6, validateEvery: part.validateEvery?.(tier) ?? (tier === 'quick' ? 50 : 400), debug: !!process.env.VERIF_DEBUG,
    workers: process.env.VERIF_WORKERS ? Number(process.env.VERIF_WORKERS) : undefined,
  };
  const r = await explore({ prep, cases, opt });
  const fns = prep.fnNames.map((n, i) => [n, r.fnHits[i] ?? 0]).filter(([n, h]) => h > 0 && !n.startsWith('verif:'));
  parts.push({ part, cases: cases.length, r, fns });
  if (process.env.VERIF_DEBUG) console.error(part.name, JSON.stringify({ paths: r.paths, branches: r.branches, feas: r.feasible, inf: r.infeasible, checks: r.checks, assume: r.assumeEnded, val: r.validated, mism: r.mismatches.length, inc: r.inconclusive.length, cand: r.candidates.length, s: r.seconds, left: r.left, solver: r.solver, reached: r.reached }));
  const seenLabels = new Map();
  for (const c of r.candidates) {
    const k = known.find((x) => isKnown(x, c));
    if (k) { knownSeen.add(k); continue; }
    const n = seenLabels.get(c.label) ?? 0;
    if (n >= 2) continue;
    seenLabels.set(c.label, n + 1);
    const rp = replay(entry, part.stubs, c);
    if (rp.confirmed) { violation ??= { ...c, part: part.name, ...rp }; break; }
    problems.push(`${part.name}: counterexample for "${c.label}" (${JSON.stringify(c.info)}) does not reproduce on the real code: ${rp.file} ${rp.detail}`);
  }
  if (violation) break;
  for (const x of r.mismatches.slice(0, 3)) problems.push(`${part.name}: symbolic and real run differ: ${JSON.stringify(encode(x)).slice(0, 6000)}`);
  const kinds = new Map();
  for (const x of r.inconclusive) { const s = `${x.kind}: ${x.why}`; if (!kinds.has(s)) kinds.set(s, x); }
  for (const [s, x] of [...kinds].slice(0, 5)) problems.push(`${part.name}: inconclusive ${s} ${JSON.stringify(encode({ case: x.case, inputs: x.inputs })).slice(0, 1500)} ${x.stack ?? ''}`);
  if (r.timedOut || r.left > 0) if (r.candidates.length === 0 || r.timedOut) problems.push(`${part.name}: exploration did not finish (${r.left} open paths after ${r.seconds.toFixed(0)} s)`);
  for (const w of part.witnesses ?? []) if (!r.reached[w]) problems.push(`${part.name}: witness "${w}" was never reached`);
  if (r.paths - r.assumeEnded < 1) problems.push(`${part.name}: no complete path`);
  if (problems.length === 0 && r.validated === 0) problems.push(`${part.name}: no path was compared with the real code`);
}
const sum = (f) => parts.reduce((a, p) => a + f(p), 0);
const fnSet = new Map();
for (const p of parts) for (const [n, h] of p.fns) fnSet.set(n, (fnSet.get(n) ?? 0) + h);
const ev = {
  property: id, tier: tier === 'thorough' ? 'thorough' : 'quick', seed, level: 'model_checking',
  coverage: {
    states: sum((p) => p.r.paths), transitions: sum((p) => p.r.branches), traces_validated_against_impl: sum((p) => p.r.validated),
    exhaustive: problems.length === 0 && violation === null,
    explanation: 'states = symbolic paths executed (each stands for all inputs satisfying its path condition); transitions = symbolic branches taken on them; every branch not taken was decided by the solver (sat: explored, unsat: closed); every assertion was discharged by the solver on every path.',
    samples: parts.flatMap((p) => p.r.samples.slice(0, 3).map((s) => encode({ part: p.part.name, ...s }))).slice(0, 12),
    parts: parts.map((p) => ({ name: p.part.name, harness: p.part.harness, bounds: typeof p.part.bounds === 'function' ? p.part.bounds(tier) : p.part.bounds, cases: p.cases, paths: p.r.paths, paths_outside_assumptions: p.r.assumeEnded, branches: p.r.branches, branch_queries_sat: p.r.feasible, branch_queries_unsat: p.r.infeasible, assertions: p.r.checks, assertions_decided_concretely: p.r.trivialChecks, assertion_queries: p.r.checkQueries, longest_path: p.r.maxBranches, witnesses: p.r.reached, validated: p.r.validated, seconds: p.r.seconds })),
    solver: { name: process.env.VERIF_Z3 || 'z3-new', queries: sum((p) => p.r.solver.queries), cached: sum((p) => p.r.solver.cached), sat: sum((p) => p.r.solver.sat), unsat: sum((p) => p.r.solver.unsat), unknown: sum((p) => p.r.solver.unknown), seconds: sum((p) => p.r.solver.ms) / 1000 },
    functions_encoded: [...fnSet].sort().map(([n, h]) => `${n} (${h})`),
    problems,
  },
  assumptions: spec.assumptions ?? [],
  wall_s: (Date.now() - t0) / 1000,
  violations: violation ? 1 : 0,
};
fs.writeFileSync(path.join(evDir, id + '.json'), JSON.stringify(ev, null, 1) + '\n');
for (const k of knownSeen) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
console.log(`${id} ${tier}: ${ev.coverage.states} paths, ${ev.coverage.transitions} branches, ${sum((p) => p.r.checks)} assertions, ${ev.coverage.solver.queries} solver queries (${ev.coverage.solver.seconds.toFixed(1)} s), ${ev.coverage.traces_validated_against_impl} paths compared with the real code, ${ev.wall_s.toFixed(1)} s`);
if (violation) {
  console.log(`violated: ${violation.label}\n  part: ${violation.part}\n  case: ${JSON.stringify(encode(violation.case))}\n  info: ${JSON.stringify(encode(violation.info ?? null))}`);
  console.log(`VIOLATION property=${id} replay=${violation.file}`);
  process.exit(1);
}
if (problems.length) { for (const p of problems) console.log('INCONCLUSIVE ' + p); process.exit(2); }
process.exit(0);

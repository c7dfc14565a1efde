// node replay.mjs FILE: runs the real code (types stripped, jsdom) on the inputs of a replay file
// and exits 1 if it fails as recorded, 0 if it does not fail, 3 if it fails differently.
import fs from 'node:fs';
import { prepare, Program } from './loader.mjs';
import { runReal, uncaughtLabel, errText } from './worker.mjs';
import { decode } from './codec.mjs';
const r = decode(JSON.parse(fs.readFileSync(process.argv[2], 'utf8')));
const prog = new Program(prepare(r.entry, r.stubs ?? {}), false);
const o = await runReal(prog, r.case, r.inputs);
const failed = o.failed.map((f) => f.label);
if (o.outcome !== 'ok' && o.outcome !== 'assume') failed.push(o.outcome === 'uncaught' ? uncaughtLabel(o.error) : o.outcome);
console.log(JSON.stringify({ outcome: o.outcome, error: o.error ? errText(o.error) : undefined, failed: o.failed, observed: o.log }, null, 1));
if (o.error && process.env.VERIF_DEBUG) console.log(o.error);
process.exit(failed.includes(r.label) ? 1 : failed.length ? 3 : 0);

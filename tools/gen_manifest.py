#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the registered specs and tools/notes.json."""
import json, subprocess
NODE = '/opt/node/node_modules/.bin/node'
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = json.loads(subprocess.check_output([NODE, '-e', "import('/verif/harness/specs.mjs').then(m=>console.log(JSON.stringify(Object.fromEntries(Object.entries(m.specs).map(([k,v])=>[k,{a:v.assumptions,p:v.parts.map(p=>p.name)}])))))"]))
notes = json.load(open('/verif/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        a = have[i]['a']
        checks.append({'property': i, 'quick_cmd': f'{NODE} check.mjs {i} quick', 'thorough_cmd': f'{NODE} check.mjs {i} thorough', 'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the instrumented TypeScript sources with SMT (z3) deciding every branch and assertion; counterexamples replayed on the unmodified code',
            'level': 'model_checking',
            'level_note': 'Every path within the bounds given in the evidence (parts: ' + ', '.join(have[i]['p']) + ') is executed symbolically from /repo\'s current source and every assertion is decided by the solver. ' + ('Assumes: ' + '; '.join(a) + '. ' if a else '') + 'Trusted: the instrumenter and symbolic runtime (a sample of the paths is compared with the real code on each run), the small DOM and host model, z3.' + (' ' + notes['level'][i] if i in notes['level'] else '')})
    else:
        na.append({'property': i, 'reason': notes['na'].get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. No hooks in /repo are needed.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')

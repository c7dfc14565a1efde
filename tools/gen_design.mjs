// Puts DESIGN.md together.
import fs from 'node:fs';
const dir = new URL('.', import.meta.url).pathname;
const { specs } = await import('../harness/specs.mjs');
const props = fs.readFileSync(dir + '../properties.jsonl', 'utf8').trim().split('\n').map((l) => JSON.parse(l));
let out = fs.readFileSync(dir + 'design.head.md', 'utf8');
for (const p of props) {
  const s = specs[p.id];
  if (s === undefined) continue;
  out += `\n**${p.id} ${p.title}**\n`;
  for (const part of s.parts) out += `* ${part.name} (${part.cases('quick').length}/${part.cases('thorough').length}): ${typeof part.bounds === 'function' ? part.bounds('quick') : part.bounds}\n`;
  if (s.assumptions?.length) out += `* assumed or left open: ${s.assumptions.join('; ')}\n`;
}
const more = JSON.parse(fs.readFileSync(dir + 'strengthened.json', 'utf8'));
const table = ['| id | property | what breaks | what it needs | first missed, then |', '|---|---|---|---|---|'];
for (const id of fs.readdirSync(dir + '../seeded').sort()) { const m = JSON.parse(fs.readFileSync(`${dir}../seeded/${id}/meta.json`, 'utf8')); table.push(`| ${id} | ${m.property} | ${m.what_it_breaks} | ${m.needs} | ${more[id] ?? ''} |`); }
out += '\n' + fs.readFileSync(dir + 'design.tail.md', 'utf8').replace('PLANTED', () => table.join('\n'));
fs.writeFileSync(dir + '../DESIGN.md', out);

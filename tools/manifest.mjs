// Writes MANIFEST.json from the registry. Run: node tools/manifest.mjs
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { CHECKS } from '../checks/registry.mjs';
const root = path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const props = fs.readFileSync(path.join(root, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const NA = {
  C30: 'Quantifies over live browser editing state (caret, IME composition) that exists only at run time in a browser; no static argument over this source bounds it.',
  C31: 'Measured quantities (time, bytes); static analysis cannot decide them.',
};
const checks = [], na = [];
for (const p of props) {
  const c = CHECKS[p.id];
  if (!c) { na.push({ property: p.id, reason: NA[p.id] ?? 'No static check built yet.' }); continue; }
  checks.push({ property: p.id, quick_cmd: `node run.mjs ${p.id}`, thorough_cmd: `node run.mjs ${p.id} --thorough`, evidence_file: `evidence/${p.id}.json`, technique: c.technique, level: 'other', level_note: c.note });
}
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'node tools/setup.mjs', checks, not_applicable: na, notes: 'Static analysis only; /repo code is parsed and type-checked, never executed. No hooks in /repo.' }, null, 1) + '\n');

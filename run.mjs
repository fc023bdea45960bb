#!/usr/bin/env node
// Usage: node run.mjs <property> [--thorough]
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { fileURLToPath } from 'node:url';
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import { explore } from './engine/machine.mjs';
import { Coverage } from './engine/world.mjs';
import { AnchorMissing, REPO, parse } from './engine/interp.mjs';
import { CHECKS } from './checks/registry.mjs';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const ARGV = isMainThread ? process.argv : workerData.argv;
const id = ARGV[2];
const tier = ARGV.includes('--thorough') || process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = parseInt(process.env.VERIF_SEED ?? '1', 10) || 0;
const check = CHECKS[id];
if (!check) { console.error('unknown property ' + id); process.exit(2); }
const t0 = Date.now();
const EVD = path.join(HERE, 'evidence');
if (isMainThread) fs.mkdirSync(path.join(EVD, 'replay'), { recursive: true });
if (isMainThread) for (const f of fs.readdirSync(path.join(EVD, 'replay'))) if (f.startsWith(id + '-')) fs.unlinkSync(path.join(EVD, 'replay', f));

function known() {
  const f = path.join(HERE, 'known-findings.txt');
  if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, 'utf8').split('\n').filter((l) => l.startsWith('finding:')).map((l) => {
    const m = l.match(/^finding: property=(\S+) rule=(\S+) unit="([^"]*)" (.*)$/);
    return m && { property: m[1], rule: m[2], unit: m[3], what: m[4] };
  }).filter(Boolean);
}

const cov = new Coverage();
const budget = tier === 'thorough' ? 600000 : 240000;
let jobs = [];
// the units of a check are independent: workers claim them one by one
const claims = isMainThread ? null : new Int32Array(workerData.claims);
let unitNo = 0;
const mine = () => { const u = unitNo++; return claims === null || Atomics.compareExchange(claims, u, 0, 1) === 0 ? u : -1; };
/** one abstract-interpretation unit */
function ai(name, body, opts = {}) {
  const unit = mine(); if (unit < 0) return;
  const left = Math.max(5000, budget - (Date.now() - t0));
  const r = explore(body, { cov, maxPaths: tier === 'thorough' ? 2000000 : 400000, ...opts, maxMs: Math.min(opts.maxMs ?? left, left) });
  jobs.push({ unit, name, kind: 'abstract interpretation', paths: r.paths, states: r.states, transitions: r.transitions, obl: r.obl, violations: r.violations, undecided: r.inconclusive, why: r.inconclusiveWhy, truncated: r.truncated, ms: r.ms });
  if (process.env.VERIF_VERBOSE) console.error(`${name}: paths ${r.paths} states ${r.states} obl ${sum(r.obl, 'n')} unk ${sum(r.obl, 'unk')} undecided ${r.inconclusive} ${JSON.stringify(r.inconclusiveWhy)}${r.truncated ? ' TRUNCATED' : ''} ${r.ms}ms${r.violations.length ? ' VIOLATIONS ' + r.violations.map((v) => v.rule).join() : ''}`);
}
/** one syntactic / type-level unit: fn(report) */
function rule(name, fn) {
  const unit = mine(); if (unit < 0) return;
  const t = Date.now(); const obl = {}; const violations = []; const info = {};
  const report = {
    check(rl, ok, msg, site) { (obl[rl] ??= { n: 0, unk: 0 }).n++; if (ok === 'unk' || ok === null) obl[rl].unk++; else if (ok !== true && ok !== 'eq') violations.push({ rule: rl, msg: typeof msg === 'function' ? msg() : msg, site: site ?? '?', decisions: [], log: [] }); },
    info,
  };
  fn(report);
  jobs.push({ unit, name, kind: 'syntax/type analysis', obl, violations, undecided: 0, why: {}, ms: Date.now() - t, info });
  if (process.env.VERIF_VERBOSE) console.error(`${name}: obl ${sum(obl, 'n')} unk ${sum(obl, 'unk')} ${Date.now() - t}ms${violations.length ? ' VIOLATIONS ' + violations.map((v) => v.rule).join() : ''}`);
}
const sum = (o, k) => Object.values(o).reduce((a, b) => a + b[k], 0);

let fatal = null;
const run = async () => { try { await check.run({ id, tier, ai, rule, thorough: tier === 'thorough' }); } catch (e) { if (e instanceof AnchorMissing) fatal = e.message; else if (process.env.VERIF_DEBUG) throw e; else fatal = 'internal error: ' + (e.stack ?? e); } };
if (!isMainThread) {
  await run();
  parentPort.postMessage({ jobs, fatal, cov: { fns: cov.fns, branches: cov.branches, files: cov.files, calls: new Set([...cov.calls].map(cov.callKey)) } });
} else await main();

async function main() {
const n = process.env.VERIF_SERIAL || check.serial ? 1 : Math.min(8, os.availableParallelism());
if (n === 1) await run();
else {
  const shared = new SharedArrayBuffer(4 * 1024);
  const parts = await Promise.all(Array.from({ length: n }, () => new Promise((ok, no) => { const w = new Worker(fileURLToPath(import.meta.url), { workerData: { claims: shared, argv: process.argv }, resourceLimits: { maxOldGenerationSizeMb: 3000, stackSizeMb: 16 } }); let m; w.on('message', (x) => { m = x; }); w.on('error', no); w.on('exit', () => (m ? ok(m) : no(new Error('a worker ended without an answer')))); }))).catch((e) => { fatal = 'internal error: ' + (e.stack ?? e); return []; });
  jobs = parts.flatMap((p) => p.jobs).sort((a, b) => a.unit - b.unit);
  for (const p of parts) { fatal ??= p.fatal; for (const [k, v] of p.cov.fns) cov.fns.set(k, v); for (const k of ['branches', 'files', 'calls']) for (const x of p.cov[k]) cov[k].add(x); }
}
const total = jobs.reduce((a, j) => a + sum(j.obl, 'n'), 0), unk = jobs.reduce((a, j) => a + sum(j.obl, 'unk'), 0);
const ks = known();
const vio = [], kf = [];
for (const j of jobs) for (const v of j.violations) {
  const k = ks.find((x) => x.property === id && x.rule === v.rule && x.unit === j.name);
  (k ? kf : vio).push({ unit: j.name, ...v, what: k?.what });
}
const rules = {};
for (const j of jobs) for (const [r, o] of Object.entries(j.obl)) { const x = (rules[r] ??= { obligations: 0, undecided: 0 }); x.obligations += o.n; x.undecided += o.unk; }
const replays = vio.map((v, i) => { const f = path.join(EVD, 'replay', `${id}-${i + 1}.json`); fs.writeFileSync(f, JSON.stringify({ property: id, rule: v.rule, unit: v.unit, construct: v.site, violation: v.msg, path: v.decisions, events: v.log, reproduce: `node run.mjs ${id}${tier === 'thorough' ? ' --thorough' : ''}` }, null, 1)); return f; });
const evidence = {
  property: id, tier, seed, level: 'other',
  coverage: {
    explanation: check.explanation ?? '',
    rule: check.rule ?? '',
    units: jobs.map((j) => ({ name: j.name, kind: j.kind, abstract_paths: j.paths, abstract_states: j.states || undefined, obligations: sum(j.obl, 'n'), undecided_obligations: sum(j.obl, 'unk'), undecided_paths: j.undecided, undecided_reasons: j.why, truncated: j.truncated, analysed: j.info, ms: j.ms })),
    obligations_by_rule: rules,
    total_obligations: total, undecided_obligations: unk,
    analysed: cov.summary(),
    functions_analysed: [...cov.fns.keys()].sort(),
    exhaustive: jobs.every((j) => !j.truncated && j.undecided === 0),
    samples: jobs.slice(0, 5).map((j) => j.name),
    known_findings: kf.map((v) => v.what),
  },
  assumptions: check.assumptions ?? [],
  wall_s: (Date.now() - t0) / 1000,
  violations: vio.length,
};
fs.writeFileSync(path.join(EVD, id + '.json'), JSON.stringify(evidence, null, 1));
for (const v of kf) console.log(`KNOWN-FINDING: property=${id} ${v.what}`);
for (let i = 0; i < vio.length; i++) {
  console.log(`${id}: rule ${vio[i].rule} broken at ${vio[i].site} [${vio[i].unit}]: ${vio[i].msg}`);
  for (const d of vio[i].decisions.slice(-6)) console.log('    path: ' + d);
  console.log(`VIOLATION property=${id} replay=${replays[i]}`);
}
if (vio.length) process.exit(1);
if (fatal) { console.error(`${id}: cannot decide: ${fatal}`); process.exit(2); }
if (total - unk <= 0) { console.error(`${id}: cannot decide: no obligation was generated (anchors gone?)`); process.exit(2); }
const lost = jobs.reduce((a, j) => a + (j.undecided || 0), 0), cutOff = jobs.filter((j) => j.truncated).length;
console.log(`${id}: ok — ${jobs.length} unit(s), ${total} obligations (${unk} undecided${lost ? `, ${lost} paths left undecided` : ''}${cutOff ? `, ${cutOff} units truncated` : ''}), ${cov.fns.size} functions, ${evidence.wall_s.toFixed(1)}s`);
}

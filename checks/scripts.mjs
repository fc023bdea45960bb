// C27-C28: the release scripts, analysed against a model of child processes, the terminal and the network.
import fs from 'node:fs';
import path from 'node:path';
import { AObj, Sym, K, KS, deref, isSym, isObj, isPrim, show } from '../engine/values.mjs';
import { ts, REPO, AnchorMissing } from '../engine/interp.mjs';
import { JsThrow, Inconclusive } from '../engine/machine.mjs';
import { makeWorld, ProcessExit } from '../engine/world.mjs';

const SECRET_ENV = /TOKEN|OTP|SECRET|PASSWORD|PASSWD|AUTH/;
/** environment variables the script can know the name of */
function envNames(file) {
  const abs = path.join(REPO, file);
  if (!fs.existsSync(abs)) throw new AnchorMissing(file);
  const names = new Set();
  const sf = ts.createSourceFile(abs, fs.readFileSync(abs, 'utf8'), ts.ScriptTarget.ESNext, true, ts.ScriptKind.JS);
  const v = (n) => { if ((ts.isIdentifier(n) || ts.isStringLiteralLike(n)) && /^[A-Z][A-Z0-9_]*$/.test(n.text) && !['URL', 'JSON'].includes(n.text)) names.add(n.text); ts.forEachChild(n, v); };
  v(sf);
  return names;
}
const str = (M, v) => { v = M.fold(M.toStr(v)); return isPrim(v) ? v : v; };
const textOf = (M, v) => { v = M.fold(v); if (isPrim(v)) return String(v); if (isSym(v) && v.op === 'cat') return v.args.map((a) => textOf(M, a)).join(''); return '\u0001'; };
/** split a shell command into simple commands and the operators between them */
const shell = (cmd) => { const parts = cmd.split(/\s*(&&|\|\||;|\||&(?!&))\s*/); const r = []; for (let i = 0; i < parts.length; i += 2) r.push({ cmd: parts[i], op: parts[i + 1] ?? '' }); return r.filter((x) => x.cmd !== '' || x.op); };

const GATES = [
  ['auth', /\b(npm|pnpm|yarn)(\s+npm)?\s+whoami\b/],
  ['changeset status', /\bchangeset\s+status\b/],
  ['tests', /\b(pnpm|npm|yarn)(\s+run)?(\s+-\S+)*\s+(t|test)\b(?!:)|\bvitest\s+(run\b|--run)/],
  ['build', /\b(pnpm|npm|yarn)(\s+run)?(\s+-\S+)*\s+build\b(?!:)|\bvite\s+build\b/],
  ['the version bump', /\bchangeset\s+version\b/],
];
const isPublish = (c) => /\bpublish\b/.test(c);
const isVersion = (c) => /\bchangeset\s+version\b/.test(c);

function scriptWorld(M, file, { argv = [], env = {} }) {
  const W = makeWorld(M, { dom: false, env: { ...env }, externals: {} });
  M.put(W.proc, 'argv', M.arr(['/usr/bin/node', path.join('/project', file), ...argv]));
  const S = { W, refused: 0, cmds: [], sinks: [], fetches: [], passed: new Set(), failed: [], tree: null, bumped: false, secrets: new Map(), failedBefore: null };
  const log0 = M.log.length;
  const nsOf = (name, members) => { const n = M.obj('Object', M.builtins.objectProto, name); for (const [k, v] of Object.entries(members)) M.put(n, k, typeof v === 'function' ? M.native(name + '.' + k, v) : v); M.put(n, 'default', n); return n; };
  const write = (how) => (M2, t, a) => { M.log.push({ t: 'console', level: how, args: a, who: how, site: M.site }); return true; };
  M.put(W.proc, 'stdout', M.plain({ write: M.native('stdout.write', write('stdout')), isTTY: true })); M.put(W.proc, 'stderr', M.plain({ write: M.native('stderr.write', write('stderr')), isTTY: true })); M.put(W.proc, 'stdin', M.plain({ isTTY: true }));
  M.put(W.proc, 'emitWarning', M.native('emitWarning', write('warning'))); M.put(W.proc, 'once', M.native('process.once', () => undefined)); M.put(W.proc, 'exitCode', undefined);
  // ---- child processes
  const simple = (c) => {
    // outcome of one simple command: {ok, out}
    if (/^\s*(true|:|echo\b.*|exit\s+0)\s*$/.test(c)) return { ok: true, out: '' };
    if (/^\s*(false|exit\s+[1-9]\d*)\s*$/.test(c)) return { ok: false, out: '' };
    if (/\bgit\b/.test(c) && /\b(status|diff|diff-index|ls-files)\b/.test(c)) {
      S.tree ??= M.choose(3, 'working tree: clean / modified files / only untracked files');
      if (M.choose(2, `${c}: succeeds / fails`)) return { ok: false, out: '' };
      const sees = S.bumped || S.tree === 1 || (S.tree === 2 && /\bstatus\b/.test(c) && !/(-uno\b|--untracked-files=no)/.test(c));
      if (/--quiet|--exit-code/.test(c)) return { ok: !sees, out: '' };
      return { ok: true, out: !sees ? '' : S.tree === 2 ? '?? new-file.ts\n' : ' M package.json\n' };
    }
    const g = GATES.find(([, re]) => re.test(c));
    const ok = M.choose(2, `${c}: succeeds / fails`) === 0;
    if (ok && g) S.passed.add(g[0]);
    if (ok && isVersion(c)) S.bumped = true;
    let out = M.sym('output', K.STR, { plain: true, distinct: true });
    if (/\bnpm\s+token\s+create\b/.test(c)) { const t = M.sym('new npm token', K.STR, { plain: true, distinct: true }); S.secrets.set(t, 'the new npm token'); out = M.term('cat', [t, '\n']); }
    return { ok, out };
  };
  const runShell = (cmdV, opts, viaShell) => {
    const c = textOf(M, cmdV);
    const rec = { cmd: c, value: cmdV, opts, site: M.site, passedBefore: new Set(S.passed), failedBefore: S.failed.length, publish: isPublish(c) };
    S.cmds.push(rec); M.log.push({ t: 'exec', who: c, site: M.site });
    let r = { ok: true, out: '' }; let skip = false;
    for (const { cmd, op } of viaShell ? shell(c) : [{ cmd: c, op: '' }]) {
      if (!skip) { r = simple(cmd); if (!r.ok && !/\bgit\b/.test(cmd)) rec.innerFailure = true; if (op === '&') S.passed.delete(GATES.find(([, re]) => re.test(cmd))?.[0]); }
      skip = (op === '&&' && !r.ok) || (op === '||' && r.ok);
    }
    rec.ok = r.ok;
    if (!r.ok || rec.innerFailure) S.failed.push(rec);
    return { ...r, rec };
  };
  const optsOf = (a) => { for (const x of a) { const v = M.fold(x); if (isObj(v) && v.cls !== 'Array' && v.cls !== 'Function') return v; } return null; };
  const piped = (o, sync) => { // is stdout collected by the caller?
    const s = o ? M.fold(M.get(o, 'stdio')) : undefined;
    if (s === undefined || s === null || s === 'pipe') return true;
    if (isPrim(s)) return false;
    const x = M.fold(M.get(s, 1)); return x === 'pipe' || x === undefined || x === null;
  };
  const shows = (o) => { const s = o ? M.fold(M.get(o, 'stdio')) : undefined; if (s === 'inherit') return true; if (isObj(s)) { const x = M.fold(M.get(s, 1)); return x === 'inherit' || x === 1 || (isObj(x) && x === M.fold(M.get(W.proc, 'stdout'))); } return false; };
  const outValue = (o, out) => { if (!piped(o)) return null; const enc = o ? M.fold(M.get(o, 'encoding')) : undefined; if (enc === undefined || enc === null || enc === 'buffer') { const b = M.obj('Object', M.builtins.objectProto, 'Buffer'); M.put(b, 'toString', M.native('toString', () => out)); b.slots.carries = out; return b; } return out; };
  const cmdError = (c, r, o) => {
    const e = M.mkError('Error', 'x'); M.put(e, 'message', M.term('cat', ['Command failed: ', c, '\n', M.sym('stderr', KS.STRING)]), false);
    const died = M.choose(2, 'the failed command: exits with a failure status / is killed by a signal') === 1;
    M.put(e, 'status', died ? null : M.sym('exit status', K.NUM)); M.put(e, 'signal', died ? 'SIGTERM' : null); M.put(e, 'cmd', c); M.put(e, 'stdout', piped(o) ? M.sym('stdout of a failed command', KS.STRING) : null); M.put(e, 'stderr', M.sym('stderr', KS.STRING));
    return e;
  };
  const exec = (c, o, sh) => { const r = runShell(c, o, sh); if (shows(o)) S.sinks.push({ how: 'inherited stdout of ' + textOf(M, c), args: [r.out], site: M.site }); return r; };
  const argvCmd = (a) => { const args = M.fold(a[1]); const list = isObj(args) && args.cls === 'Array' ? args.slots.items : []; return M.term('cat', [M.toStr(a[0]), ...list.flatMap((x) => [' ', M.toStr(x)])]); };
  const wantsShell = (o) => Boolean(o && M.truthy(M.get(o, 'shell')));
  const spawnLike = (a) => { const o = optsOf(a.slice(1)); const c = argvCmd(a); const r = exec(c, o, wantsShell(o)); return { o, c, r }; };
  const child = {
    execSync: (M2, t, a) => { const o = optsOf(a.slice(1)); const c = M.toStr(a[0]); const r = exec(c, o, true); if (!r.ok) throw new JsThrow(cmdError(c, r, o), M.site); return outValue(o, r.out); },
    execFileSync: (M2, t, a) => { const { o, c, r } = spawnLike(a); if (!r.ok) throw new JsThrow(cmdError(c, r, o), M.site); return outValue(o, r.out); },
    spawnSync: (M2, t, a) => { const { o, c, r } = spawnLike(a); const died = !r.ok && M.choose(2, 'the failed command: exits with a failure status / is killed by a signal') === 1; return M.plain({ status: r.ok ? 0 : died ? null : M.sym('exit status', K.NUM), signal: died ? 'SIGTERM' : null, error: undefined, stdout: outValue(o, r.out), stderr: outValue(o, M.sym('stderr', KS.STRING)) }); },
    exec: () => { throw new Inconclusive('asynchronous child process'); }, spawn: () => { throw new Inconclusive('asynchronous child process'); }, execFile: () => { throw new Inconclusive('asynchronous child process'); },
  };
  const promisified = (f) => M.native('promisified ' + f.slots.nname, (M2, t, a) => {
    const sync = f.slots.nname.endsWith('execFile') ? spawnLike(a) : (() => { const o = optsOf(a.slice(1)); const c = M.toStr(a[0]); return { o, c, r: exec(c, o, true) }; })();
    const { o, c, r } = sync; const g = GATES.find(([, re]) => re.test(textOf(M, c)))?.[0];
    const p = M.obj('Promise'); p.slots.state = r.ok ? 'ok' : 'err'; p.slots.value = r.ok ? M.plain({ stdout: r.out, stderr: M.sym('stderr', KS.STRING) }) : cmdError(c, r, o);
    M.builtins.pendingWork(M, p, 'command ' + textOf(M, c)); if (g) S.asyncGates = [...(S.asyncGates ?? []), { g, tok: M.work[M.work.length - 1] }];
    if (!r.ok) (M.rejections ??= []).push(p);
    return p;
  });
  const question = (M2, t, [q, cb]) => { M.log.push({ t: 'console', level: 'prompt', args: [q], who: 'prompt', site: M.site }); const s = M.sym('prompted one-time password', KS.STRING, { plain: true, distinct: true }); S.prompted = s; S.secrets.set(s, 'the one-time password typed in'); const f = M.fold(cb); if (isObj(f) && f.cls === 'Function') { M.call(f, undefined, [s]); return undefined; } return M.builtins.promiseResolved(M, s); };
  const rl = () => nsOf('readline', { createInterface: () => M.plain({ question: M.native('question', question), close: M.native('close', () => undefined), on: M.native('on', () => undefined) }) });
  const cache = {}; const once = (k, f) => () => (cache[k] ??= f());
  const cp = once('cp', () => nsOf('child_process', child)); const pr = once('process', () => { M.put(W.proc, 'default', W.proc, false); return W.proc; });
  Object.assign(W.ext, { 'node:child_process': cp, child_process: cp, 'node:process': pr, process: pr, 'node:readline/promises': once('rl', rl), 'node:readline': once('rl', rl), readline: once('rl', rl), 'node:util': once('util', () => nsOf('util', { promisify: (M2, t, [f]) => promisified(M.fold(f)), format: (M2, t, a) => M.term('cat', a.map((x) => M.toStr(x))), inspect: (M2, t, [v]) => M.term('inspect', [M.fold(v)], KS.STRING) })) });
  // ---- encodings: another spelling of the same text
  const encoded = (v) => M.term('encode', [M.fold(v)], K.STR);
  M.put(M.globalObj, 'Buffer', M.plain({ from: M.native('Buffer.from', (M2, t, [v]) => { const b = M.obj('Object', M.builtins.objectProto, 'Buffer'); b.slots.carries = M.fold(v); M.put(b, 'length', M.sym('bytes', K.NUM)); M.put(b, 'toString', M.native('toString', (M3, t2, [enc]) => { const e = M.fold(enc); return e === undefined || e === 'utf8' || e === 'utf-8' ? M.toStr(v) : encoded(v); })); return b; }) }), false);
  for (const n of ['btoa', 'atob', 'escape']) M.put(M.globalObj, n, M.native(n, (M2, t, [v]) => encoded(v)), false);
  // ---- network
  M.put(M.globalObj, 'fetch', M.native('fetch', (M2, t, a) => {
    S.fetches.push({ url: a[0], args: a, site: M.site });
    const ok = M.choose(4, 'request: succeeds / is refused / network failure / aborted with a reason that is not an Error'); if (ok) S.refused++;
    if (ok === 3) return M.builtins.promiseRejected(M, 'aborted');
    if (ok === 2) return M.builtins.promiseRejected(M, M.mkError('TypeError', 'fetch failed'));
    const later = (v) => M.native('body', () => M.builtins.promiseResolved(M, v));
    return M.builtins.promiseResolved(M, M.plain({ ok: ok === 0, status: ok === 0 ? 204 : M.sym('status', KS.NUMBER), statusText: M.sym('statusText', KS.STRING, { plain: true, distinct: true }), headers: M.obj('Object'), text: later(M.sym('response body', KS.STRING)), json: later(M.sym('response json', KS.ANY)) }));
  }), false);
  S.end = () => { for (const e of M.log.slice(log0)) if (e.t === 'console') S.sinks.push({ how: 'console.' + e.level, args: e.args, site: e.site }); };
  return S;
}
/** does the text of this value reveal one of the secrets? (presence tests, comparisons and lengths do not) */
export function reveals(M, v, secrets, seen = new Set()) {
  v = M.fold(v);
  if (v === null || v === undefined || isPrim(v) || seen.has(v)) return null;
  seen.add(v);
  if (v instanceof Sym) {
    if (secrets.has(v)) return secrets.get(v);
    if (v.op && (v.kinds & (KS.STRING | K.OBJ)) !== 0) for (const a of v.args) { const r = reveals(M, a, secrets, seen); if (r) return r; }
    return null;
  }
  if (v instanceof AObj) {
    if (v.cls === 'Function') return null;
    if (v.slots.carries) { const r = reveals(M, v.slots.carries, secrets, seen); if (r) return r; }
    for (const x of v.slots.items ?? []) { const r = reveals(M, x, secrets, seen); if (r) return r; }
    for (const e of v.slots.entries ?? []) for (const x of Array.isArray(e) ? e : [e.k, e.v]) { const r = reveals(M, x, secrets, seen); if (r) return r; }
    for (const s of v.spreads ?? []) { const r = reveals(M, s.src, secrets, seen); if (r) return r; }
    if (v.slots.state && v.slots.value !== undefined) { const r = reveals(M, v.slots.value, secrets, seen); if (r) return r; }
    for (const [k, d] of v.props) { for (const x of [k, d.v]) { if (typeof x === 'object' && x !== null) { const r = reveals(M, x, secrets, seen); if (r) return r; } } }
  }
  return null;
}
/** runs a script or one of its functions to its end: exit code, unhandled failure */
function runTo(M, S, f) {
  let code = null, thrown;
  try {
    f();
    for (let i = 0; (M.deferred ?? []).length && i < 5; i++) { const q = M.deferred; M.deferred = []; for (const g of q) M.call(g, undefined, []); }
    const un = (M.rejections ?? []).find((p) => !p.slots.handled);
    if (un) { code = 1; thrown = un.slots.value; } else { const c = M.fold(M.get(S.W.proc, 'exitCode')); code = c === undefined || c === null ? 0 : c; }
  } catch (e) {
    if (e instanceof ProcessExit) { const c = M.fold(e.code); code = c === undefined || c === null ? M.fold(M.get(S.W.proc, 'exitCode')) ?? 0 : c; } else if (e instanceof JsThrow) { code = 1; thrown = e.value; } else throw e;
  }
  S.end();
  return { code, thrown };
}
const envFor = (M, file, S0) => {
  const env = {}; const secrets = new Map();
  for (const n of envNames(file)) { const s = M.sym('process.env.' + n, K.UNDEF | KS.STRING, { plain: true, distinct: true }); env[n] = s; if (SECRET_ENV.test(n)) secrets.set(s, '$' + n); }
  return { env, secrets };
};
function noLeaks(M, S, out) {
  for (const s of S.sinks) for (const a of s.args) { const r = reveals(M, a, S.secrets); M.check('no-secret-printed', !r, () => `${r} is written to the terminal by ${s.how}`, s.site); }
  if (out.thrown !== undefined) { const r = reveals(M, out.thrown, S.secrets); M.check('no-secret-in-errors', !r, () => `${r} is part of the error the script fails with`); }
  for (const f of S.fetches) {
    const r = f.args.map((a) => reveals(M, a, S.secrets)).find(Boolean);
    if (!r) continue;
    let u = M.fold(f.url); if (isObj(u)) u = M.fold(M.get(u, 'href')); u = M.fold(M.toStr(u ?? ''));
    const head = isPrim(u) ? String(u) : isSym(u) && u.op === 'cat' && typeof u.args[0] === 'string' ? u.args[0] : '';
    M.check('secrets-only-to-github', /^https:\/\/api\.github\.com\//.test(head), () => `${r} is sent to ${head ? head + '…' : show(u)} (must be https://api.github.com/)`, f.site);
  }
}
export function tokenClient(M) {
  const file = 'scripts/refresh-npm-token.js';
  const { env, secrets } = envFor(M, file);
  const S = scriptWorld(M, file, { env }); for (const [k, v] of secrets) S.secrets.set(k, v);
  const fn = S.W.interp.exported(S.W.interp.load(file), 'default');
  const out = runTo(M, S, () => { M.builtins.awaitValue(M, M.call(fn, undefined, [])); });
  noLeaks(M, S, out);
  const done = S.failed.length === 0 && S.fetches.length > 0 && S.refused === 0;
  M.check('refresh-failure-reported', done ? out.code === 0 : out.code !== 0, () => (done ? `refreshing the token fails with ${show(out.thrown)} although every step succeeded` : 'refreshing the token reports success although the secret was not updated'));
  if (out.code === 0) {
    for (const n of ['GITHUB_TOKEN', 'REPO_NAME']) if (env[n]) M.check('missing-configuration-reported', M.truthy(env[n]), `refreshing the token reports success although ${n} is not configured`);
    const stored = S.fetches.some((f) => {
      const o = M.fold(f.args[1]); if (!isObj(o)) return false;
      const method = M.fold(M.get(o, 'method')); if (typeof method !== 'string' || method.toUpperCase() === 'GET') return false;
      const only = (label) => new Map([...S.secrets].filter(([, l]) => l === label));
      const repo = env.REPO_NAME ? new Map([[env.REPO_NAME, 'repo']]) : null;
      let u = M.fold(f.url); if (isObj(u)) u = M.fold(M.get(u, 'href'));
      return reveals(M, M.get(o, 'body'), only('the new npm token')) && reveals(M, M.get(o, 'headers'), only('$GITHUB_TOKEN')) && (!repo || reveals(M, u, repo));
    });
    M.check('new-token-stored', stored, 'refreshing the token reports success although no request stores the new token in the secret of the configured repository, authorised with the GitHub token');
  } else if (S.failed.length === 0 && S.refused === 0 && out.thrown !== undefined && isObj(M.fold(out.thrown))) {
    const n = M.fold(M.get(out.thrown, 'name'));
    M.check('refresh-succeeds', n !== 'TypeError' && n !== 'ReferenceError', () => `refreshing the token fails with ${show(M.fold(M.get(out.thrown, 'message')))} although every step succeeded`);
  }
}
const FLAG_SETS = [[], ['--dry-run'], ['--skip-otp'], ['--otp'], ['--otp', '--dry-run'], ['--otp', '--skip-otp'], ['--skip-otp', '--dry-run'], ['--dry-run', '--otp'], ['--dry', '--dry-runs', '--skip-otps', 'dry-run']];
export function releaseClient(M, { leaks, flags }) {
  const file = 'scripts/release-beta.mjs';
  const { env, secrets } = envFor(M, file);
  const F = flags; const otp = F.includes('--otp') ? M.sym('otp given by flag', K.STR, { plain: true, distinct: true }) : null;
  const argv = F.map((f) => (f === '--otp' ? M.term('cat', ['--otp=', otp]) : f));
  if (otp) secrets.set(otp, 'the one-time password given by --otp');
  const S = scriptWorld(M, file, { env, argv }); for (const [k, v] of secrets) S.secrets.set(k, v);
  const I = S.W.interp;
  const out = runTo(M, S, () => I.load(file));
  if (leaks) { noLeaks(M, S, out); return; }
  const P = (r, ok, msg, site) => M.check(r, ok, msg, site);
  const pubs = S.cmds.filter((c) => c.publish);
  for (const p of pubs) {
    P('clean-tree-before-publish', S.tree === 0, () => (S.tree === null ? 'publishes without looking at the working tree' : `publishes although the working tree has ${S.tree === 1 ? 'modified' : 'untracked'} files`), p.site);
    for (const [g] of GATES) { const late = (S.asyncGates ?? []).some((x) => x.g === g && !x.tok.done); P('gates-before-publish', p.passedBefore.has(g) && !late, () => `\`${p.cmd}\` is reached although ${g} did not succeed in this run`, p.site); }
    P('no-publish-after-failure', p.failedBefore === 0, () => `\`${p.cmd}\` is reached after \`${S.failed[0].cmd}\` failed`, p.site);
    P('dry-run-honoured', /--dry-run(\s|=true|$)/.test(p.cmd) === F.includes('--dry-run'), () => `with the flags [${F}] the publish command is \`${p.cmd}\``, p.site);
    P('beta-tag', /--tag[= ]beta(\s|$)/.test(p.cmd), () => `\`${p.cmd}\` does not publish under the beta tag`, p.site);
    // the one-time password reaches the publish command
    if (F.includes('--skip-otp')) {
      P('otp-skipped', !S.prompted, 'the script asks for a one-time password although --skip-otp is given', p.site);
      const e = p.opts ? M.fold(M.get(p.opts, 'env')) : undefined;
      if (otp) P('otp-skipped', !reveals(M, M.get(isObj(e) ? e : S.W.env, 'NPM_CONFIG_OTP'), new Map([[otp, 'otp']])) && !reveals(M, p.value, new Map([[otp, 'otp']])), 'the one-time password is used although --skip-otp is given', p.site);
    } else if (!otp && env.NPM_CONFIG_OTP && !S.prompted) P('otp-asked-for', M.truthy(env.NPM_CONFIG_OTP), 'the script publishes without having asked for a one-time password, although none was given', p.site);
    else if (S.prompted && (otp ? M.truthy(M.term('str.trim', [otp])) : env.NPM_CONFIG_OTP && M.truthy(env.NPM_CONFIG_OTP))) P('otp-asked-for', false, `the script asks for a one-time password although one was given by ${otp ? '--otp' : 'NPM_CONFIG_OTP'}`, p.site);
    const want = F.includes('--skip-otp') ? null : otp ?? undefined;
    if (want !== null) {
      const e = p.opts ? M.fold(M.get(p.opts, 'env')) : undefined;
      const got = M.fold(M.get(isObj(e) ? e : S.W.env, 'NPM_CONFIG_OTP'));
      if (want && M.truthy(M.term('str.trim', [want]))) P('otp-used', M.same(got, want) === 'eq' || M.same(got, M.term('str.trim', [want])), () => `the publish command gets the one-time password ${show(got)} instead of the one given by --otp`, p.site);
      else if (S.prompted && M.truthy(M.term('str.trim', [S.prompted]))) P('otp-used', M.same(got, S.prompted) === 'eq' || M.same(got, M.term('str.trim', [S.prompted])), () => `the publish command gets the one-time password ${show(got)} instead of the one typed in`, p.site);
    }
  }
  P('published-at-most-once', pubs.length <= 1, () => `publishes ${pubs.length} times`);
  if (S.failed.length || (S.tree !== null && S.tree !== 0)) {
    const what = S.failed.length ? `\`${S.failed[0].cmd}\` failed` : 'the working tree is not clean';
    P('failure-ends-with-failure', out.code !== 0, () => `the script ends with exit code ${show(out.code)} although ${what}`);
    const i = S.failed.length ? S.cmds.indexOf(S.failed[0]) : -1;
    if (i >= 0) P('nothing-released-after-failure', !S.cmds.slice(i + 1).some((c) => isVersion(c.cmd) || isPublish(c.cmd) || /\bgit\b.*\b(push|tag|commit)\b/.test(c.cmd)), () => `the release goes on after ${what}`);
  } else {
    P('successful-release-published', pubs.length === 1 && out.code === 0, () => `every step succeeded, but the script published ${pubs.length} times and ended with exit code ${show(out.code)}${out.thrown !== undefined ? ' (' + show(out.thrown) + ')' : ''}`);
  }
}
export function runScripts(id, cx) {
  if (id === 'C27') cx.ai('refresh-npm-token: all outcomes of commands, requests and environment', tokenClient);
  for (const f of FLAG_SETS) cx.ai(`release-beta ${f.join(' ') || '(no flags)'}: all outcomes of every step`, (M) => releaseClient(M, { leaks: id === 'C27', flags: f }));
}

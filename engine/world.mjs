// The environment of the analysed library: globals, state-library contracts
// (XState / Redux Toolkit / MobX / lit-html), canonical state encoding used for
// the fixpoint, coverage accounting.
import path from 'node:path';
import { AObj, Sym, K, KS, kindsOf, deref, isSym, isObj, isPrim, show } from './values.mjs';
import { Machine, Inconclusive, Pruned, JsThrow, NOPE } from './machine.mjs';
import { Interp, ts, REPO, loc, AnchorMissing } from './interp.mjs';
import { builtins as B } from './builtins.mjs';
import { installDom } from './dom.mjs';

export function makeWorld(M, opts = {}) {
  M.builtins = B; M.work = []; M.asyncFrame = null; M.suspend = Boolean(opts.dom !== false && !opts.async);
  M.globalObj = M.obj('Object', B.objectProto, 'globalThis');
  M.put(M.globalObj, 'globalThis', M.globalObj, false);
  for (const [k, v] of Object.entries(B.GLOBALS)) if (!M.globalObj.props.has(k)) M.put(M.globalObj, k, v, false);
  const W = { M, opts, sources: [], src: (x) => x };
  W.ext = { xstate: () => xstateModule(W), '@reduxjs/toolkit': () => reduxModule(W), mobx: () => mobxModule(W), ...(opts.externals ?? {}) };
  M.W = W;
  const interp = new Interp(M, { externals: (spec) => (W.ext[spec] ? W.ext[spec](M, spec) : undefined) });
  W.interp = interp;
  if (opts.dom !== false) installDom(M);
  // process.env
  const env = M.obj('Object', B.objectProto, 'process.env');
  W.env = env;
  const envVals = opts.env ?? { NODE_ENV: opts.nodeEnv === undefined ? M.sym('process.env.NODE_ENV', K.UNDEF | KS.STRING) : opts.nodeEnv, IGNITE_DIFF_ENABLED: undefined };
  for (const [k, v] of Object.entries(envVals)) if (v !== undefined) M.put(env, k, v);
  const proc = M.obj('Object', B.objectProto, 'process');
  M.put(proc, 'env', env); M.put(proc, 'platform', 'linux'); M.put(proc, 'versions', M.plain({ node: '22.0.0' })); M.put(proc, 'argv', opts.argv ?? M.arr(['node', 'script']));
  M.put(proc, 'cwd', M.native('cwd', () => '/project'));
  M.put(proc, 'exit', M.native('process.exit', (M2, t, [c]) => { M2.log.push({ t: 'exit', code: c, site: M2.site }); throw new ProcessExit(c); }));
  M.put(proc, 'on', M.native('process.on', () => undefined));
  if (opts.process !== false) M.put(M.globalObj, 'process', proc, false);
  W.proc = proc;
  return W;
}
export class ProcessExit extends Error { constructor(c) { super('exit'); this.code = c; } }

/** try an analysed call; returns {ok, value} or {ok:false, error} */
export function attempt(M, f) { try { return { ok: true, value: f() }; } catch (e) { if (e instanceof JsThrow) return { ok: false, error: e.value, site: e.site }; throw e; } }

// ---------------------------------------------------------------- XState
export function makeSnapshot(W, src, n) {
  const M = W.M;
  const d = (name, kinds) => M.sym(name + '@' + src.name + '/' + n, kinds, { distinct: true });
  // one field per class: only in the snapshot, in both, only in the context; and a context field called "context"
  const ctx = M.plain({ inner: d('ctx.inner', KS.ANY & ~K.UNDEF), both: d('ctx.both', KS.ANY & ~K.UNDEF), context: d('ctx.context', K.STR) });
  ctx.name = `context@${src.name}/${n}`;
  const s = M.plain({ value: d('value', K.STR | K.OBJ), outer: d('outer', KS.ANY & ~K.UNDEF), both: d('snap.both', KS.ANY & ~K.UNDEF), context: ctx });
  s.name = `snapshot@${src.name}/${n}`; s.slots.model = 'snapshot';
  return s;
}
/** XState and MobX report what an observer throws; they do not pass it on */
const guarded = (M, f) => { const r = attempt(M, f); if (!r.ok) M.event('observer-threw', { who: 'observer' }); };
/** user actor / machine-created actor contract */
export function makeActor(W, { name, started = false }) {
  const M = W.M;
  const a = M.obj('Object', B.objectProto, name);
  const src = { kind: 'xstate', name, obj: a, started, stopped: false, starts: 0, stops: 0, subs: [], sends: [], n: 0, cur: null, busy: false, queue: [], processed: 0 };
  a.slots.src = src; W.sources.push(src);
  src.cur = makeSnapshot(W, src, src.n++);
  src.advance = (notify = true) => {
    src.cur = makeSnapshot(W, src, src.n++);
    if (!notify) return;
    src.foreign?.();
    // XState 5 notifies over its live observer Set
    const seen = new Set();
    for (let s; (s = src.subs.find((x) => x.live && !seen.has(x)));) { seen.add(s); guarded(M, () => M.call(s.fn, undefined, [src.cur])); }
    src.subs = src.subs.filter((s) => s.live);
  };
  src.deliver = (ev) => { // mailbox semantics
    src.queue.push(ev);
    if (src.busy) return;
    src.busy = true;
    try { while (src.queue.length) { if (src.queue.length > 6) throw new Inconclusive('unbounded event loop'); const e = src.queue.shift(); if (e === STOP) end(); else if (src.started && !src.stopped) { src.processed++; src.advance(); } } } finally { src.busy = false; }
  };
  const STOP = {}; // an actor stopped while it handles an event stops when it is done with it
  const end = () => { src.queue = []; if (src.stopped) return; src.stopped = true; src.cur = makeSnapshot(W, src, src.n++); for (const s of src.subs) s.live = false; src.subs = []; };
  const m = {
    start: () => { src.starts++; const was = src.started; src.started = true; M.event('src-start', { who: name, src }); if (!was && !src.stopped) { for (const s of [...src.subs]) if (s.live) M.call(s.fn, undefined, [src.cur]); const q = src.queue; src.queue = []; for (const ev of q) src.deliver(ev); } return a; },
    stop: () => { src.stops++; M.event('src-stop', { who: name, src }); if (!src.stopped && src.started) { if (src.busy) src.queue = [STOP]; else end(); } return a; },
    send: (M2, t, args) => { const ev = args[0]; src.sends.push(ev); M.event('src-send', { who: name, src, args, ev }); if (!src.started) { src.queue.push(ev); return undefined; } src.deliver(ev); return undefined; },
    getSnapshot: () => { M.event('src-read', { who: name, src }); return src.cur; },
    subscribe: (M2, t, [o]) => {
      let fn = M.fold(o); if (isObj(fn) && fn.cls !== 'Function') fn = M.get(fn, 'next');
      const rec = { fn, live: !src.stopped }; if (rec.live) src.subs.push(rec);
      M.event('src-subscribe', { who: name, src });
      const h = M.obj('Object'); M.put(h, 'unsubscribe', M.native('unsubscribe', () => { M.event('src-unsubscribe', { who: name, src }); rec.live = false; src.subs = src.subs.filter((x) => x !== rec); }, { cap: rec }));
      return h;
    },
  };
  for (const [k, f] of Object.entries(m)) M.put(a, k, M.native(name + '.' + k, f));
  return src;
}
export function makeMachine(W, name = 'machine') {
  const M = W.M; const m = M.obj('Object', B.objectProto, name);
  M.put(m, 'transition', M.native('transition', () => { throw new Inconclusive('machine.transition called directly'); }));
  M.put(m, 'getInitialSnapshot', M.native('getInitialSnapshot', () => { throw new Inconclusive('getInitialSnapshot'); }));
  m.slots.machine = true; m.slots.guard = 'machine';
  return m;
}
function xstateModule(W) {
  const M = W.M; const o = M.obj('Object', B.objectProto, 'xstate');
  M.put(o, 'createActor', M.native('createActor', (M2, t, [logic, opt]) => { const s = makeActor(W, { name: 'actor' + (W.nActors = (W.nActors ?? 0) + 1) }); s.created = true; s.logic = M.fold(logic); M.event('actor-created', { who: s.name, src: s, logic, opt }); return s.obj; }));
  M.put(o, 'interpret', M.get(o, 'createActor'));
  return o;
}
/** is `state` the flattened view of this snapshot? */
export function isExtended(M, state, snap) {
  state = M.fold(state);
  if (!isObj(state)) return isPrim(state) ? 'ne' : 'unk';
  const ctx = M.fold(M.get(snap, 'context'));
  const want = { outer: M.get(snap, 'outer'), value: M.get(snap, 'value'), inner: M.get(ctx, 'inner'), both: M.get(ctx, 'both'), context: ctx };
  let r = 'eq';
  for (const [k, v] of Object.entries(want)) { const s = M.same(M.get(state, k), v); if (s === 'ne') return 'ne'; if (s === 'unk') r = 'unk'; }
  return r;
}

// ---------------------------------------------------------------- Redux
export function makeStore(W, { name, stateKinds = KS.ANY & ~K.UNDEF }) {
  const M = W.M;
  const s = M.obj('Object', B.objectProto, name);
  const src = { kind: 'redux', name, obj: s, subs: [], sends: [], n: 0, cur: null, started: true };
  s.slots.src = src; W.sources.push(src);
  const fresh = () => M.sym(`state@${name}/${src.n++}`, stateKinds, { distinct: true });
  src.cur = fresh();
  src.advance = (back = false) => { const prev = src.cur; src.cur = back && src.prev !== undefined ? src.prev : fresh(); src.prev = prev; src.foreign?.(); for (const r of [...src.subs]) M.call(r.fn, undefined, []); };
  const m = {
    dispatch: (M2, t, args) => { src.sends.push(args[0]); M.event('src-send', { who: name, src, args, ev: args[0] }); if (++src.depth > 4) throw new Inconclusive('unbounded dispatch recursion'); try { src.advance(); } finally { src.depth--; } return args[0]; },
    getState: () => src.cur,
    subscribe: (M2, t, [f]) => { const rec = { fn: M.fold(f), live: true }; src.subs.push(rec); M.event('src-subscribe', { who: name, src }); return M.native('unsubscribe', () => { M.event('src-unsubscribe', { who: name, src }); rec.live = false; src.subs = src.subs.filter((x) => x !== rec); }, { cap: rec }); },
    replaceReducer: () => { M.event('src-mutate', { who: name, src, what: 'replaceReducer' }); },
  };
  src.depth = 0;
  for (const [k, f] of Object.entries(m)) M.put(s, k, M.native(name + '.' + k, f));
  return src;
}
export function makeSlice(W, name = 'slice') {
  const M = W.M; const s = M.obj('Object', B.objectProto, name);
  M.put(s, 'name', M.sym('slice.name', K.STR, { plain: true, distinct: true }));
  M.put(s, 'reducer', M.native('reducer', () => { throw new Inconclusive('reducer called directly'); }));
  M.put(s, 'actions', M.obj('Object')); M.put(s, 'caseReducers', M.obj('Object'));
  M.put(s, 'getInitialState', M.native('getInitialState', () => M.sym('initial', KS.ANY)));
  s.slots.guard = 'slice';
  return s;
}
function reduxModule(W) {
  const M = W.M; const o = M.obj('Object', B.objectProto, '@reduxjs/toolkit');
  M.put(o, 'configureStore', M.native('configureStore', (M2, t, [cfg]) => { const s = makeStore(W, { name: 'store' + (W.nStores = (W.nStores ?? 0) + 1) }); s.created = true; s.config = M.fold(cfg); M.event('store-created', { who: s.name, src: s }); return s.obj; }));
  return o;
}

// ---------------------------------------------------------------- MobX
export function makeMobx(W, { name }) {
  const M = W.M;
  const s = M.obj('Object', B.objectProto, name);
  const src = { kind: 'mobx', name, obj: s, subs: [], sends: [], n: 0, cur: null, started: true };
  s.slots.src = src; s.slots.observable = true; W.sources.push(src);
  const rt = mobxRt(W);
  const fresh = () => { const v = M.sym(`version@${name}/${src.n++}`, K.NUM, { distinct: true }); return v; };
  src.cur = fresh();
  src.change = () => { src.cur = fresh(); for (const r of rt.reactions) if (!r.disposed && r.obs.has(src)) { if (!rt.pending.includes(r)) rt.pending.push(r); } };
  src.advance = () => { rt.batch(() => { src.change(); src.foreign?.(); }); };
  Object.defineProperty(src, 'live', { get: () => rt.reactions.filter((r) => !r.disposed && (r.deps.has(src) || r.obs.has(src))) });
  // one member per class of the event contract: action without parameters, action with parameters, plain data
  const action = (nm, arity) => M.native(name + '.' + nm, (M2, t, args) => { src.sends.push({ nm, args, self: M.fold(t) }); M.event('src-send', { who: name + '.' + nm, src, nm, args, self: M.fold(t) }); src.advance(); return undefined; }, { arity });
  M.put(s, 'act0', action('act0', 0)); M.put(s, 'act1', action('act1', 1));
  M.put(s, 'data', M.sym('data', KS.NUMBER | KS.STRING | K.OBJ));
  s.slots.onWrite = (M2, o, k) => { M.event('src-mutate', { who: name, src, what: 'write to ' + show(k) }); };
  return src;
}
function mobxRt(W) {
  if (W.mobx) return W.mobx;
  const M = W.M;
  const rt = { reactions: [], pending: [], depth: 0, running: null };
  rt.batch = (f) => { rt.depth++; try { f(); } finally { rt.depth--; } if (rt.depth === 0) rt.flush(); };
  rt.flush = () => {
    if (rt.flushing) return; rt.flushing = true;
    try { let n = 0; while (rt.pending.length) { if (++n > 8) throw new Inconclusive('unbounded reaction loop'); const r = rt.pending.shift(); if (!r.disposed) rt.run(r); } } finally { rt.flushing = false; }
  };
  // what a run reads is observed from the end of the run on (until then what the run before it read), so a change made
  // by the very first run does not schedule another one
  rt.run = (r) => { const saved = rt.running; rt.running = r; r.deps = new Set(); rt.depth++; try { guarded(M, () => r.body()); } finally { r.obs = r.deps; rt.depth--; rt.running = saved; } };
  W.mobx = rt;
  return rt;
}
function mobxModule(W) {
  const M = W.M; const rt = mobxRt(W); const o = M.obj('Object', B.objectProto, 'mobx');
  const track = (src) => { if (rt.running && src) rt.running.deps.add(src); };
  const srcOf = (v) => { v = M.fold(v); return isObj(v) ? v.slots.src : null; };
  const mkReaction = (body) => { const r = { body, disposed: false, deps: new Set(), obs: new Set() }; rt.reactions.push(r); return r; };
  // autorun/reaction options that take the runs off the current call stack
  const later = (opt) => { const o2 = M.fold(opt); if (!isObj(o2)) return false; return ['delay', 'scheduler'].some((k) => { const v = M.fold(M.get(o2, k)); return k === 'delay' ? v !== undefined : isObj(v); }); };
  const defer = (r) => { M.event('mobx-deferred', {}); M.deferred?.push(() => { throw new Inconclusive('a delayed reaction runs'); }); };
  const disposer = (r) => M.native('dispose', () => { M.event('src-unsubscribe', { who: 'mobx reaction' }); r.disposed = true; }, { cap: r });
  M.put(o, 'toJS', M.native('toJS', (M2, t, [v]) => { const s = srcOf(v); if (!s) return v; track(s); return M.term('toJS', [s.obj, s.cur], K.OBJ); }));
  M.put(o, 'isObservable', M.native('isObservable', (M2, t, [v]) => { v = M.fold(v); if (isObj(v)) return Boolean(v.slots.observable); if (isSym(v)) return M.term('isObservable', [v], KS.BOOL); return false; }));
  for (const n of ['isObservableObject', 'isObservableProp']) M.put(o, n, M.get(o, 'isObservable'));
  M.put(o, 'autorun', M.native('autorun', (M2, t, [f, opt]) => {
    M.event('src-subscribe', { who: 'mobx autorun' });
    const late = later(opt);
    const r = mkReaction(late ? () => defer() :() => M.call(f, undefined, [h]));
    const h = M.obj('Object'); M.put(h, 'dispose', disposer(r));
    const d = disposer(r);
    if (rt.depth > 0 && rt.running === null) rt.pending.push(r); else if (rt.running) rt.pending.push(r); else { rt.run(r); rt.flush(); }
    return d;
  }));
  M.put(o, 'reaction', M.native('reaction', (M2, t, [expr, eff, opt]) => {
    M.event('src-subscribe', { who: 'mobx reaction' });
    let first = true; const o2 = M.fold(opt);
    const fire = isObj(o2) && M.truthy(M.get(o2, 'fireImmediately'));
    const r = mkReaction(later(opt) ? () => defer() : () => { const v = M.call(expr, undefined, []); r.obs = r.deps; if (!first || fire) { const run = rt.running; rt.running = null; try { M.call(eff, undefined, [v]); } finally { rt.running = run; } } first = false; });
    rt.run(r); rt.flush();
    return disposer(r);
  }));
  const inAction = M.native('runInAction', (M2, t, [f]) => { let v; rt.batch(() => { v = M.call(f, undefined, []); }); return v; });
  M.put(o, 'runInAction', inAction); M.put(o, 'transaction', inAction);
  M.put(o, 'untracked', M.native('untracked', (M2, t, [f]) => { const s = rt.running; rt.running = null; try { return M.call(f, undefined, []); } finally { rt.running = s; } }));
  M.put(o, 'action', M.native('action', (M2, t, a) => a[a.length - 1]));
  return o;
}
/** number of subscriptions the adapter still holds on this source */
export function liveSubs(src) { return src.kind === 'mobx' ? src.live.length : src.subs.length; }
/** the value getState() must denote for this source right now (captured) */
export function capture(W, src) { return src.kind === 'mobx' ? W.M.term('toJS', [src.obj, src.cur], K.OBJ) : src.cur; }
export function stateIs(W, src, value, cap) { const M = W.M; return src.kind === 'xstate' ? isExtended(M, value, cap) : M.same(value, cap); }

// ---------------------------------------------------------------- canonical states
const freeNames = new WeakMap();
function namesIn(node) {
  let s = freeNames.get(node);
  if (!s) { s = new Set(); const v = (n) => { if (ts.isIdentifier(n)) s.add(n.text); if (!ts.isTypeNode(n)) ts.forEachChild(n, v); }; ts.forEachChild(node, v); s = [...s].sort(); freeNames.set(node, s); }
  return s;
}
let nodeIds = new WeakMap(), nodeSeq = 0;
const nodeId = (n) => { let i = nodeIds.get(n); if (!i) { i = ++nodeSeq; nodeIds.set(n, i); } return i; };
export function canon(M, roots, extra = '') {
  const ids = new Map(); const out = [extra];
  const work = [];
  const ref = (v) => {
    if (v === undefined) return 'u'; if (v === null) return 'n';
    v = M.fold(v);
    if (v instanceof AObj) { if (v.id < 0) return 'b' + v.id; let i = ids.get(v); if (i === undefined) { i = ids.size; ids.set(v, i); work.push(v); } return 'o' + i; }
    if (v instanceof Sym) {
      if (v.op) return v.op + '(' + v.args.map(ref).join(',') + ')';
      let i = ids.get(v); if (i === undefined) { i = ids.size; ids.set(v, i); out.push(`s${i}:${v.kinds}${v.flags?.distinct ? 'd' : ''}`); if (v.props) for (const [k, x] of v.props) out.push('p' + ref(k) + '=' + ref(x)); } return 's' + i;
    }
    if (typeof v === 'string') return JSON.stringify(v);
    if (typeof v === 'function' || (typeof v === 'object')) { let i = ids.get(v); if (i === undefined) { i = ids.size; ids.set(v, i); work.push(v); } return 'h' + i; }
    return typeof v === 'symbol' ? String(v) : typeof v === 'bigint' ? v + 'n' : String(v);
  };
  const slotVal = (x) => {
    if (x instanceof AObj || x instanceof Sym) return ref(x);
    if (Array.isArray(x)) return '[' + x.map(slotVal).join(',') + ']';
    if (x instanceof Set) return '{' + [...x].map(slotVal).join(',') + '}';
    if (x instanceof Map) return '{' + [...x].map(([k, v]) => slotVal(k) + ':' + slotVal(v)).join(',') + '}';
    if (x && typeof x === 'object') { if (x.kind && x.ts === undefined && x.pos !== undefined && x.parent !== undefined) return 'N' + nodeId(x); return '{' + Object.keys(x).filter((k) => !SKIP.has(k) && typeof x[k] !== 'function').map((k) => k + ':' + slotVal(x[k])).join(',') + '}'; }
    if (typeof x === 'function') return 'F';
    return ref(x);
  };
  const rs = roots.map((r) => (r && typeof r === 'object' && !(r instanceof AObj) && !(r instanceof Sym) ? slotVal(r) : ref(r)));
  out.push(rs.join(';'));
  let guard = 0;
  while (work.length) {
    if (++guard > 20000) throw new Inconclusive('state too large');
    const o = work.shift();
    if (!(o instanceof AObj)) { out.push('host'); continue; }
    const parts = [ids.get(o) + o.cls + (o.ext ? '' : '!')];
    if (o.proto) parts.push('^' + ref(o.proto));
    for (const [k, d] of o.props) parts.push((typeof k === 'symbol' ? String(k) : k instanceof Sym ? ref(k) : k) + '=' + ('v' in d ? ref(d.v) : 'g' + ref(d.get) + ref(d.set)));
    const s = o.slots;
    if (s.items) parts.push('[' + s.items.map(ref).join(',') + ']');
    if (s.entries) parts.push('{' + s.entries.filter((e) => !e.dead && e.live !== false).map((e) => (Array.isArray(e) ? e.map(ref).join('>') : ref(e.k) + '>' + ref(e.v))).join(',') + '}');
    if (o.spreads) parts.push('...' + o.spreads.map((x) => ref(x.src) + '-' + [...x.except].join('/')).join(','));
    if (o.priv) for (const [k, v] of o.priv) parts.push('#' + (k.text ?? k.name ?? String(k)) + '=' + ('v' in v ? ref(v.v) : ''));
    if (s.node) {
      parts.push('fn' + nodeId(s.node));
      if (s.scope) for (const n of namesIn(s.node)) { const c = s.scope.find(n); if (c && 'kind' in c) parts.push(n + ':' + (c.tdz ? 'tdz' : ref(c.v))); }
      if (s.fr?.thisV !== undefined && s.arrow) parts.push('this' + ref(s.fr.thisV));
    }
    if (s.bound) parts.push('bd' + ref(s.bound) + ref(s.boundThis) + s.boundArgs.map(ref).join());
    if (s.cap) parts.push('cap' + slotVal(s.cap));
    if (s.src) parts.push('src' + srcKey(s.src, ref));
    if (s.dom) parts.push('dom' + [s.dom, ref(s.tag), s.ns, slotVal(s.attrs ?? []), slotVal(s.jsp ?? []), slotVal((s.style ?? {}).e ?? []), ref((s.style ?? {}).base), slotVal((s.lis ?? []).map((l) => [l.type, l.h, l.cap])), (s.kids ?? []).map(ref).join(), ref(s.parent), ref(s.shadow), ref(s.text)].join('|'));
    out.push(parts.join(' '));
  }
  return out.join('\n');
}
const SKIP = new Set(['site', 'node', 'deps', 'obs']);
function srcKey(src, ref) {
  const subs = src.kind === 'mobx' ? src.live.length : src.subs.map((r) => ref(r.fn)).join();
  return [src.kind, src.started, src.stopped ?? '', src.starts > 1 ? 2 : src.starts ?? '', src.stops > 1 ? 2 : src.stops ?? '', ref(src.cur), subs].join('/');
}
/** stop this path when its abstract state was already explored from here */
export function cut(M, roots, extra = '') {
  // what was chosen before the first step (the configuration) belongs to the state, whether or not it is in the heap yet
  M.setup ??= M.trace.map((x) => x.c).join('.');
  const key = canon(M, roots, M.setup + '|' + extra);
  if (M.fresh) { if (M.visited.has(key)) throw new Pruned('visited'); M.visited.add(key); }
}

// ---------------------------------------------------------------- coverage
export class Coverage {
  constructor() { this.fns = new Map(); this.branches = new Set(); this.calls = new Set(); this.files = new Set(); this.cnt = 0; }
  fn(n) { const f = n.getSourceFile().fileName; this.files.add(f); const k = loc(n); this.fns.set(k, n.name?.getText?.() ?? k); }
  branch(n, c) { this.branches.add(loc(n) + '@' + n.pos + (c ? 'T' : 'F')); }
  call(n) { this.calls.add(n); }
  callKey(n) { return typeof n === 'string' ? n : loc(n) + '@' + n.pos; }
  cls(n) { this.fns.set(loc(n), n.name?.text ?? 'class'); }
  summary() { return { functions: this.fns.size, branch_outcomes: this.branches.size, call_sites: this.calls.size, files: [...this.files].map((f) => path.relative(REPO, f)).sort() }; }
}

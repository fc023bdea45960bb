// C11-C13: the component facade (states, commands, emit) and igniteCore's adapter choice and option forwarding.
import { K, KS, deref, isSym, isObj, isPrim, show } from '../engine/values.mjs';
import { Inconclusive, Pruned, NOPE } from '../engine/machine.mjs';
import { makeWorld, makeActor, makeMachine, makeStore, makeSlice, makeMobx, liveSubs, capture, stateIs, isExtended, cut, attempt } from '../engine/world.mjs';
import { mkEvent, dispatch } from '../engine/dom.mjs';
import { fakeAdapter, fakeStrategy, rendererForms } from './element.mjs';
import { SHAPES } from './adapters.mjs';

const ENVS = [undefined, 'production', 'development', 'test'];
function envWorld(M, envs) {
  const i = M.choose(envs.length, 'NODE_ENV: ' + envs.map(String).join(' / '));
  const W = makeWorld(M, { env: { NODE_ENV: envs[i] } });
  W.dev = envs[i] !== 'production';
  return W;
}
const defsOf = (M) => M.registry.slots.defs.map((d) => d.cls);

/** renders of a component whose facade options are all set, over every short history of two elements */
export function facadeClient(M, prop, opts) {
  const W = envWorld(M, prop === 'C12' ? ENVS : ['production', 'development']);
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load('src/createComponentFactory.ts');
  const ccf = W.interp.exported(mod, 'createComponentFactory');
  const shared = M.choose(2, 'scope: isolated / shared') === 1;
  const resolver = M.choose(4, 'resolvers: none / on the adapter factory / as options / live object');
  const A = [];
  const createAdapter = M.native('createAdapter', () => { const a = fakeAdapter(W); A.push(a); a.actor = M.obj('Object', M.builtins.objectProto, 'actor' + a.n); a.snapObj = M.obj('Object', M.builtins.objectProto, 'liveSnapshot' + a.n); return a.obj; });
  const modelOf = (o) => { o = M.fold(o); return isObj(o) ? A.find((a) => a.obj === o) : null; };
  const snapFn = M.native('resolveStateSnapshot', (M2, t, [a]) => { const m = modelOf(a); if (!m) { P('C11', 'snapshot-of-own-adapter', false, 'the snapshot resolver is called without an adapter'); return undefined; } return resolver === 3 ? m.snapObj : M.term('snapshotOf', [m.cur], K.OBJ); });
  const actFn = M.native('resolveCommandActor', (M2, t, [a]) => { const m = modelOf(a); if (!m) { P('C12', 'actor-of-own-adapter', false, 'the actor resolver is called without an adapter'); return undefined; } return m.actor; });
  const wrong = (n) => M.native(n, () => { P('C11', 'option-resolver-wins', false, `${n} on the adapter factory is used although one is given as an option`); return M.obj('Object'); });
  if (resolver === 1 || resolver === 3) { M.put(createAdapter, 'resolveStateSnapshot', snapFn); M.put(createAdapter, 'resolveCommandActor', actFn); }
  if (resolver === 2) { M.put(createAdapter, 'resolveStateSnapshot', wrong('resolveStateSnapshot')); M.put(createAdapter, 'resolveCommandActor', wrong('resolveCommandActor')); }
  const wantSnap = (m) => (resolver === 0 ? m.cur : resolver === 3 ? m.snapObj : M.term('snapshotOf', [m.cur], K.OBJ));
  const derive = (m, n) => M.term('derived' + n, [resolver === 3 ? m.cur : wantSnap(m)], KS.ANY & ~K.UNDEF);
  const collide = prop === 'C11' ? M.choose(4, 'the names state and send are also used by: nothing / the states / the commands / the additional arguments') : 0;
  const bogus = M.sym('bogus', K.OBJ, { distinct: true });
  const states = M.native('states', (M2, t, [snap]) => {
    const s = M.fold(snap);
    const m = resolver === 3 ? A.find((a) => a.snapObj === s) : A.find((a) => M.same(s, wantSnap(a)) === 'eq');
    P('C11', 'states-get-latest-snapshot', Boolean(m), `the states callback is given ${show(s)}, which is not the current snapshot of any adapter`);
    const r = M.plain({ a: m ? derive(m, 'A') : undefined, b: m ? derive(m, 'B') : undefined });
    if (collide === 1) { M.put(r, 'state', bogus); M.put(r, 'send', bogus); }
    return r;
  });
  const ctxs = [];
  const commands = M.native('commands', (M2, t, [ctx]) => {
    ctx = M.fold(ctx);
    const c = { actor: M.fold(M.get(ctx, 'actor')), host: M.fold(M.get(ctx, 'host')), emit: M.get(ctx, 'emit') };
    c.run = M.native('command of ' + ctxs.length, (M3, t3, a) => { c.called = (c.called ?? []).concat([a]); return undefined; });
    ctxs.push(c);
    const r = M.plain({ run: c.run });
    if (collide === 2) { M.put(r, 'state', M.native('bogus state', () => undefined)); M.put(r, 'send', M.native('bogus send', () => undefined)); }
    return r;
  });
  const extraHosts = [];
  const additional = M.native('createAdditionalArgs', (M2, t, [a, h]) => { extraHosts.push([M.fold(a), M.fold(h)]); const r = M.plain({ extra: M.term('extraOf', [M.fold(h)], K.OBJ) }); if (collide === 3) { M.put(r, 'state', bogus); M.put(r, 'send', bogus); } return r; });
  const E = [];
  const options = M.plain({ scope: shared ? 'shared' : 'isolated', states, commands, createAdditionalArgs: additional, createRenderStrategy: fakeStrategy(W, () => {}), events: M.plain({ saved: M.obj('Object') }) });
  if (resolver === 2) { M.put(options, 'resolveStateSnapshot', snapFn); M.put(options, 'resolveCommandActor', actFn); }
  const component = M.call(ccf, undefined, [createAdapter, options]);
  let lastArgs = null;
  const renderer = M.native('renderer', (M2, t, [args]) => { lastArgs = M.fold(args); const h = W.cur; (W.renders ??= []).push(lastArgs); return null; });
  M.call(component, undefined, ['x-a', renderer]);
  const cls = defsOf(M)[0];
  const mk = () => { const n = ctxs.length; const el = M.fold(M.construct(cls, [])); const e = { el, A: modelOf(M.get(el, 'adapter')), ctx: ctxs[n], i: E.length, connected: false, extra: extraHosts[extraHosts.length - 1] }; E.push(e); return e; };
  const verifyArgs = (e, why) => {
    const a = lastArgs; if (!a || !e.A) return;
    P('C11', 'derived-state-current', M.same(M.get(a, 'a'), derive(e.A, 'A')), `${why}: the derived state is not the one of the element's current snapshot`);
    P('C11', 'derived-state-current', M.same(M.get(a, 'b'), derive(e.A, 'B')), `${why}: the derived state is not the one of the element's current snapshot`);
    P('C11', 'state-not-overridden', M.same(M.get(a, 'state'), e.A.cur), `${why}: state given to the renderer is not the current state`);
    P('C11', 'extra-args-passed', M.same(M.get(a, 'extra'), M.term('extraOf', [e.el], K.OBJ)), `${why}: the additional arguments do not reach the renderer or belong to another element`);
    P('C11', 'commands-passed', e.ctx && M.fold(M.get(a, 'run')) === e.ctx.run, `${why}: the commands do not reach the renderer or belong to another element`);
    const sends = A.map((x) => x.sends.length);
    const ev = M.plain({ type: 'probe' });
    const s = M.fold(M.get(a, 'send'));
    const r = attempt(M, () => M.call(s, undefined, [ev]));
    P('C11', 'send-not-overridden', r.ok && e.A.sends.length === sends[A.indexOf(e.A)] + 1 && e.A.sends[e.A.sends.length - 1] === ev, `${why}: send given to the renderer does not send to the element's adapter`);
  };
  const connect = (e) => { lastArgs = null; e.connected = true; M.callMethod(e.el, 'connectedCallback', []); P('C11', 'rendered', lastArgs !== null, 'connecting does not render'); verifyArgs(e, 'on connect'); };
  const e0 = mk(); const e1 = mk();
  for (const e of [e0, e1]) {
    P('C12', 'commands-built-for-each-element', e.ctx !== undefined && e.ctx.host === e.el, 'the commands callback does not receive its own element as host');
    P('C11', 'args-built-for-own-host', e.extra && e.A && e.extra[1] === e.el && e.extra[0] === e.A.obj, 'the additional arguments are not built for the element and its adapter');
    if (!e.ctx || !e.A) return;
    if (resolver) P('C12', 'actor-of-own-adapter', e.ctx.actor === e.A.actor, "the commands callback receives an actor that is not the element's own");
    else {
      const ev = M.plain({ type: 'viaActor' }); const before = e.A.sends.length;
      M.callMethod(e.ctx.actor, 'send', [ev]);
      P('C12', 'actor-of-own-adapter', e.A.sends.length === before + 1 && e.A.sends[before] === ev && M.same(M.callMethod(e.ctx.actor, 'getState', []), e.A.cur) === 'eq', 'the default actor does not act on the adapter of its element');
    }
  }
  if (prop === 'C11') {
    connect(e0);
    if (M.choose(2, 'second element: stays out / connected')) connect(e1);
    for (let s = 0; s < opts.steps; s++) {
      const e = E[M.choose(2, 'change the state of element 0 / 1')];
      const hit = E.filter((x) => x.A === e.A && x.connected);
      W.renders = []; lastArgs = null;
      e.A.change();
      P('C11', 'rendered', W.renders.length === hit.length, `a state change renders ${W.renders.length} of ${hit.length} connected elements`);
      if (hit.length === 1) verifyArgs(hit[0], 'after a change');
      else for (const a of W.renders) { P('C11', 'derived-state-current', M.same(M.get(a, 'a'), derive(e.A, 'A')), 'after a change one of two elements shows a stale derived state'); }
      for (const x of E) if (x.connected) { lastArgs = null; M.callMethod(x.el, 'forceRender', []); verifyArgs(x, 'forced render'); }
    }
    return;
  }
  // C12: emit
  const e = E[M.choose(2, 'emit from element 0 / 1')];
  const k = M.choose(5, 'event: declared / undeclared / toString / __proto__ / constructor');
  const type = k === 0 ? 'saved' : k === 1 ? M.sym('event name', K.STR, { distinct: true, plain: true }) : ['toString', '__proto__', 'constructor'][k - 2];
  const dk = M.choose(3, 'detail: a value / omitted / undefined');
  const detail = dk === 0 ? M.sym('detail', KS.ANY & ~K.UNDEF, { distinct: true }) : undefined;
  const mark = M.log.length;
  const c = M.choose(2, 'the element is: not connected / connected'); if (c) M.callMethod(e.el, 'connectedCallback', []);
  const r = attempt(M, () => M.call(e.ctx.emit, undefined, dk === 1 ? [type] : [type, detail]));
  const ds = M.log.slice(mark).filter((x) => x.t === 'dispatch');
  if (k !== 0 && W.dev) { P('C12', 'undeclared-event-rejected', !r.ok && ds.length === 0, r.ok ? `emitting the undeclared event ${show(type)} is not rejected outside production` : 'an undeclared event is dispatched before it is rejected'); return; }
  P('C12', 'emit-does-not-throw', r.ok, `emitting ${k === 0 ? 'a declared event' : 'an event in production'} throws`);
  P('C12', 'emit-dispatches-once', ds.length === 1, `emit dispatches ${ds.length} events (must be one)`);
  if (ds.length !== 1) return;
  const ev = ds[0].ev;
  P('C12', 'emit-on-own-host', ds[0].node === e.el, "emit dispatches on something other than the element's own host");
  P('C12', 'emit-custom-event', ev.proto === M.fold(M.get(M.get(M.globalObj, 'CustomEvent'), 'prototype')), 'emit does not dispatch a CustomEvent');
  P('C12', 'emit-type', M.same(M.get(ev, 'type'), type), 'emit changes the event type');
  const got = M.fold(M.get(ev, 'detail'));
  P('C12', 'emit-detail', dk === 0 ? M.same(got, detail) : got === null || got === undefined, 'emit changes the event detail');
  P('C12', 'emit-bubbles', M.fold(M.get(ev, 'bubbles')) === true, 'the emitted event does not bubble');
  P('C12', 'emit-composed', M.fold(M.get(ev, 'composed')) === true, 'the emitted event does not cross shadow boundaries');
}

/** a callback result of every kind */
export function facadeValidation(M, prop) {
  const W = envWorld(M, ['production', 'development']);
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const mod = W.interp.load('src/createComponentFactory.ts');
  const ccf = W.interp.exported(mod, 'createComponentFactory');
  const what = M.choose(4, 'invalid: states result / commands result / a command / states result later');
  const bad = M.sym('result', KS.PRIM | K.ARR | K.FUNC);
  let broken = what !== 3;
  const options = M.plain({ scope: M.choose(2, 'scope') ? 'shared' : 'isolated', createRenderStrategy: fakeStrategy(W, () => {}) });
  if (what === 0 || what === 3) M.put(options, 'states', M.native('states', () => (broken ? bad : M.plain({ a: 1 }))));
  if (what === 1) M.put(options, 'commands', M.native('commands', () => bad));
  if (what === 2) M.put(options, 'commands', M.native('commands', () => M.plain({ ok: M.native('ok', () => undefined), cmd: M.sym('command', KS.ANY & ~K.FUNC) })));
  const A = [];
  const component = M.call(ccf, undefined, [M.native('createAdapter', () => { const a = fakeAdapter(W); A.push(a); return a.obj; }), options]);
  M.call(component, undefined, ['x-a', M.native('renderer', () => null)]);
  const r = attempt(M, () => { const el = M.construct(defsOf(M)[0], []); M.callMethod(el, 'connectedCallback', []); if (what === 3) { broken = true; A[0].change(); } });
  P('invalid-facade-rejected', !r.ok, ['a states callback may return something that is not a plain object', 'a commands callback may return something that is not a plain object', 'a command may be something that is not a function', 'a states callback may later return something that is not a plain object'][what]);
}
/** facade options may be absent in any combination */
export function facadeSubsets(M, prop) {
  const W = envWorld(M, ['development']);
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load('src/createComponentFactory.ts');
  const ccf = W.interp.exported(mod, 'createComponentFactory');
  const has = ['states', 'commands', 'createAdditionalArgs'].map((n) => M.choose(2, `${n}: absent / present`) === 1);
  const options = M.plain({ createRenderStrategy: fakeStrategy(W, () => {}) });
  const A = [];
  if (has[0]) M.put(options, 'states', M.native('states', (M2, t, [s]) => M.plain({ a: M.term('derived', [s], K.OBJ) })));
  const run = M.native('run', () => undefined);
  if (has[1]) M.put(options, 'commands', M.native('commands', () => M.plain({ run })));
  const ex = M.sym('extra', KS.ANY & ~K.UNDEF, { distinct: true });
  if (has[2]) M.put(options, 'createAdditionalArgs', M.native('createAdditionalArgs', () => M.plain({ extra: ex })));
  const createAdapter = M.native('createAdapter', () => { const a = fakeAdapter(W); A.push(a); return a.obj; });
  const component = M.call(ccf, undefined, [createAdapter, options]);
  let args = null;
  M.call(component, undefined, ['x-a', M.native('renderer', (M2, t, [a]) => { args = M.fold(a); return null; })]);
  const el = M.fold(M.construct(defsOf(M)[0], [])); M.callMethod(el, 'connectedCallback', []);
  if (!args) { P('C11', 'rendered', false, 'connecting does not render'); return; }
  const keys = M.ownKeys(args).map((k) => M.fold(k)).sort().join();
  const want = ['state', 'send', ...(has[0] ? ['a'] : []), ...(has[1] ? ['run'] : []), ...(has[2] ? ['extra'] : [])].sort().join();
  P('C11', 'exactly-the-declared-arguments', keys === want, `the renderer receives {${keys}} instead of {${want}}`);
  if (has[0]) P('C11', 'derived-state-current', M.same(M.get(args, 'a'), M.term('derived', [A[0].cur], K.OBJ)), 'the derived state does not reach the renderer');
  if (has[1]) P('C11', 'commands-passed', M.fold(M.get(args, 'run')) === run, 'the commands do not reach the renderer');
  if (has[2]) P('C11', 'extra-args-passed', M.same(M.get(args, 'extra'), ex), 'the additional arguments do not reach the renderer');
  // emit without any declared event
  if (has[1]) return;
  let emit = null;
  const comp2 = M.call(ccf, undefined, [createAdapter, M.plain({ createRenderStrategy: fakeStrategy(W, () => {}), commands: M.native('commands', (M2, t, [c]) => { emit = M.get(c, 'emit'); return M.plain({}); }) })]);
  M.call(comp2, undefined, ['x-b', M.native('renderer', () => null)]);
  M.construct(defsOf(M)[1], []);
  const type = M.sym('event name', K.STR, { distinct: true, plain: true });
  const r = attempt(M, () => M.call(emit, undefined, [type, 1]));
  P('C12', 'undeclared-event-rejected', !r.ok, 'emit without declared events is not rejected outside production');
}

// ---------------------------------------------------------------- igniteCore
const LIBNAME = { xstate: 'xstate', redux: 'redux', mobx: 'mobx' };
export function coreForward(M, prop, shape, variant) {
  const W = makeWorld(M, { env: { NODE_ENV: 'development' } });
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load(variant.entry ?? 'src/IgniteCore.ts');
  const core = W.interp.exported(mod, variant.fn ?? 'igniteCore');
  let used = null;
  const source = shape.make(W);
  const pre = W.sources.length;
  const o = M.obj('Object');
  const explicit = variant.explicit ?? (M.choose(2, 'adapter: inferred / explicit') === 1);
  if (explicit) M.put(o, 'adapter', shape.lib);
  M.put(o, 'source', source);
  const opt = (n) => M.choose(2, `${n}: absent / present`) === 1;
  const has = { states: opt('states'), commands: opt('commands'), events: opt('events'), cleanup: M.choose(3, 'cleanup: absent / false / true') };
  const snaps = []; const ctxs = [];
  if (has.states) M.put(o, 'states', M.native('states', (M2, t, [s]) => { snaps.push(M.fold(s)); return M.plain({ derived: M.fold(s) }); }));
  if (has.commands) M.put(o, 'commands', M.native('commands', (M2, t, [c]) => { c = M.fold(c); const x = { actor: M.fold(M.get(c, 'actor')), host: M.fold(M.get(c, 'host')), emit: M.get(c, 'emit'), run: M.native('run', () => undefined) }; ctxs.push(x); return M.plain({ run: x.run }); }));
  if (has.events) M.put(o, 'events', M.native('events', (M2, t, [ev]) => { const d = M.call(ev, undefined, []); return M.plain({ saved: d }); }));
  if (has.cleanup) M.put(o, 'cleanup', has.cleanup === 2);
  const made = attempt(M, () => M.call(core, undefined, [o]));
  P('C13', 'recognised-source-accepted', made.ok, `igniteCore rejects a ${shape.lib} source`);
  if (!made.ok) return;
  let args = null; let renders = 0;
  const def = attempt(M, () => M.call(made.value, undefined, ['x-a', M.native('renderer', (M2, t, [a]) => { args = M.fold(a); renders++; return null; })]));
  P('C13', 'component-definable', def.ok, 'the component cannot be defined');
  if (!def.ok) return;
  const el = M.fold(M.construct(defsOf(M)[0], []));
  M.callMethod(el, 'connectedCallback', []);
  P('C13', 'renders', renders === 1 && args !== null, `a connected component renders ${renders} times`);
  if (!args) return;
  const live = W.sources.filter((s) => liveSubs(s) > 0);
  P('C13', 'adapter-for-source', live.length === 1 && live[0].kind === shape.lib && (shape.shared ? live[0].obj === source : true), `the component does not observe its own ${shape.lib} source`);
  const src = live[0]; if (!src) return;
  const cur = () => capture(W, src);
  P('C13', 'state-of-source', stateIs(W, src, M.get(args, 'state'), cur()), 'the rendered state is not the state of the source');
  const check = (why) => {
    if (has.states) P('C13', 'states-forwarded', M.has(args, 'derived') === true && derivedIs(W, src, M.get(args, 'derived')) !== 'ne', `${why}: the states option does not take effect`);
    if (has.commands) P('C13', 'commands-forwarded', ctxs.length === 1 && M.fold(M.get(args, 'run')) === ctxs[0].run && ctxs[0].host === el, `${why}: the commands option does not take effect`);
  };
  check('on connect');
  const n0 = src.sends.length;
  if (has.commands && ctxs[0]) {
    const a = ctxs[0].actor;
    // the command actor reaches the component's own source
    if (shape.lib === 'mobx') P('C13', 'command-actor', a === src.obj, 'the command actor is not the observable of the component');
    else { const ev = M.plain({ type: 'evt' }); const r = attempt(M, () => M.callMethod(a, shape.lib === 'redux' ? 'dispatch' : 'send', [ev])); P('C13', 'command-actor', r.ok && src.sends.length === n0 + 1 && M.fold(src.sends[n0]) === ev, 'the command actor does not act on the source of the component'); }
    const d = attempt(M, () => M.call(ctxs[0].emit, undefined, ['saved', 1]));
    P('C13', 'events-forwarded', d.ok === has.events, has.events ? 'the events option does not take effect: a declared event is rejected' : 'an undeclared event is accepted');
  }
  renders = 0;
  (src.deliver ?? src.advance)(null);
  P('C13', 'change-rendered', renders === 1, `one change of the source renders the component ${renders} times`);
  if (renders) { P('C13', 'state-of-source', stateIs(W, src, M.get(args, 'state'), cur()), 'after a change the rendered state is not the state of the source'); check('after a change'); }
  const ad = M.fold(M.get(el, 'adapter'));
  M.callMethod(el, 'disconnectedCallback', []);
  P('C13', 'no-subscription-left', W.sources.every((s) => liveSubs(s) === 0), 'a disconnected component stays subscribed to its source');
  // whether the adapter still runs shows in whether it still forwards events
  const n1 = src.sends.length;
  attempt(M, () => M.callMethod(ad, 'send', [M.plain({ type: 'act0' })]));
  const runs = src.sends.length > n1;
  if (shape.shared) P('C13', 'cleanup-forwarded', runs === (has.cleanup === 1), has.cleanup === 1 ? 'cleanup: false does not keep the shared adapter running' : 'the shared adapter survives its last element although cleanup is not disabled');
  else P('C13', 'cleanup-forwarded', !runs, 'the adapter of an isolated element survives it');
}
export function coreRejects(M, prop) {
  const W = makeWorld(M, { env: { NODE_ENV: 'development' } });
  const mod = W.interp.load('src/IgniteCore.ts');
  const core = W.interp.exported(mod, 'igniteCore');
  const k = M.choose(8, 'source: primitive / {} / array / function returning {} / function returning a primitive / throwing function / half a store / half an actor');
  const fn = () => M.native('fn', () => undefined);
  const src = k === 0 ? M.sym('source', KS.PRIM) : k === 1 ? M.plain({}) : k === 2 ? M.arr([]) : k === 3 ? M.native('factory', () => M.plain({})) : k === 4 ? M.native('factory', () => M.sym('made', KS.PRIM)) : k === 5 ? M.native('factory', () => { throw M.throwError('Error', 'boom'); })
    : k === 6 ? partial(M, ['getState', 'dispatch', 'subscribe']) : partial(M, ['send', 'subscribe', 'getSnapshot', 'start']);
  const r = attempt(M, () => M.call(core, undefined, [M.plain({ source: src })]));
  M.check('unrecognised-source-rejected', !r.ok, 'igniteCore accepts a source it cannot handle');
  if (!r.ok) M.check('rejection-is-an-error', isObj(M.fold(r.error)) && M.fold(r.error).cls === 'Error', 'igniteCore fails with something that is not an Error');
}
function partial(M, names) { const drop = M.choose(names.length, 'missing ' + names.join('/')); const o = M.obj('Object'); names.forEach((n, i) => { if (i !== drop) M.put(o, n, M.native(n, () => undefined)); }); return o; }

/** sources that look like another library unless the adapter is named */
export function coreExplicit(M, prop) {
  const W = makeWorld(M, { env: { NODE_ENV: 'development' } });
  const mod = W.interp.load('src/IgniteCore.ts');
  const core = W.interp.exported(mod, 'igniteCore');
  const k = M.choose(3, 'ambiguous source: observable with store methods / observable with actor methods / function whose result is only known later');
  let s, source;
  if (k === 2) { source = M.native('factory', () => { s = makeMobx(W, { name: 'late' }); return s.obj; }); } else {
    s = makeMobx(W, { name: 'ambiguous' }); source = s.obj;
    for (const n of k === 0 ? ['getState', 'dispatch', 'subscribe'] : ['send', 'subscribe', 'getSnapshot', 'start']) M.put(s.obj, n, M.native(n, () => M.native('x', () => undefined)));
  }
  let renders = 0;
  const r = attempt(M, () => { const c = M.call(core, undefined, [M.plain({ adapter: 'mobx', source })]); M.call(c, undefined, ['x-a', M.native('renderer', () => { renders++; return null; })]); const el = M.construct(defsOf(M)[0], []); M.callMethod(el, 'connectedCallback', []); });
  M.check('explicit-adapter-wins', r.ok && W.sources.filter((x) => liveSubs(x) > 0 && x.kind === 'mobx').length === 1, 'an explicitly named adapter is not the one that is used');
  if (!r.ok) return;
  renders = 0; W.sources.find((x) => liveSubs(x) > 0)?.advance();
  M.check('change-rendered', renders === 1, `one change renders ${renders} times`);
}
/** sources with some members of another library's interface, but not all of them */
export function coreDecoy(M, prop) {
  const W = makeWorld(M, { env: { NODE_ENV: 'development' } });
  const mod = W.interp.load('src/IgniteCore.ts');
  const core = W.interp.exported(mod, 'igniteCore');
  const kinds = ['mobx observable (shared)', 'mobx factory (isolated)', 'redux store (shared)', 'redux store factory (isolated)'];
  const kind = kinds[M.choose(kinds.length, 'source: ' + kinds.join(' / '))]; const shape = SHAPES[kind];
  const IFACES = { store: ['getState', 'dispatch', 'subscribe'], actor: ['send', 'subscribe', 'getSnapshot', 'start'], machine: ['transition', 'getInitialSnapshot'], slice: ['name', 'reducer', 'actions', 'getInitialState'] };
  const ifs = Object.keys(IFACES).filter((n) => n !== 'store' || shape.lib !== 'redux');
  const i = ifs[M.choose(ifs.length, 'also has members of a ' + ifs.join(' / '))];
  const names = IFACES[i].filter((n) => n !== 'subscribe' || shape.lib !== 'redux');
  const drop = names[M.choose(names.length, 'all but ' + names.join(' / '))];
  const decorate = (o) => { for (const n of names) if (n !== drop) M.put(o, n, n === 'name' ? 'slice' : n === 'actions' ? M.obj('Object') : M.native(n, () => undefined), false); return o; };
  const base = shape.make(W);
  const source = shape.shared ? decorate(base) : M.native('factory', () => decorate(M.fold(M.call(base, undefined, []))));
  let renders = 0;
  const r = attempt(M, () => { const c = M.call(core, undefined, [M.plain({ source })]); M.call(c, undefined, ['x-a', M.native('renderer', () => { renders++; return null; })]); const el = M.construct(defsOf(M)[0], []); M.callMethod(el, 'connectedCallback', []); });
  M.check('adapter-for-source', r.ok && W.sources.filter((x) => liveSubs(x) > 0 && x.kind === shape.lib).length === 1, () => `a ${kind} with some members of a ${i} is not run by its own adapter${r.ok ? '' : ': ' + show(M.fold(M.get(r.error, 'message')))}`);
  if (!r.ok) return;
  renders = 0; W.sources.find((x) => liveSubs(x) > 0)?.advance();
  M.check('change-rendered', renders === 1, `one change renders ${renders} times`);
}
/** adapter names that do not exist */
export function coreUnknownAdapter(M, prop) {
  const W = makeWorld(M, { env: { NODE_ENV: 'development' } });
  const mod = W.interp.load('src/IgniteCore.ts');
  const core = W.interp.exported(mod, 'igniteCore');
  const names = Object.keys(SHAPES); const n = names[M.choose(names.length, 'source: ' + names.join(' / '))];
  const adapter = ['zustand', 'XState', 'none'][M.choose(3, 'adapter: zustand / XState / none')];
  const source = SHAPES[n].make(W);
  const r = attempt(M, () => M.call(core, undefined, [M.plain({ adapter, source })]));
  M.check('unknown-adapter-rejected', !r.ok, () => `igniteCore accepts the adapter name "${adapter}"`);
  if (!r.ok) M.check('rejection-is-an-error', isObj(M.fold(r.error)) && M.fold(r.error).cls === 'Error', 'igniteCore fails with something that is not an Error');
}
export function coreStatic(M, prop) {
  const W = makeWorld(M, { env: { NODE_ENV: 'development' } });
  const mod = W.interp.load('src/IgniteCore.ts');
  const core = W.interp.exported(mod, 'igniteCore');
  const c = M.call(core, undefined, []);
  const got = [];
  M.call(c, undefined, ['x-a', M.native('renderer', (M2, t, [a]) => { got.push(M.fold(a)); return null; })]);
  const e1 = M.construct(defsOf(M)[0], []), e2 = M.construct(defsOf(M)[0], []);
  M.callMethod(e1, 'connectedCallback', []); M.callMethod(e2, 'connectedCallback', []);
  M.check('static-component-renders', got.length === 2, `two elements of a component without a source render ${got.length} times`);
  for (const a of got) { const s = M.fold(M.get(a, 'state')); M.check('static-state', isObj(s) && s.cls === 'Object' && M.ownKeys(s).length === 0, 'a component without a source does not render an empty state'); M.check('static-send', attempt(M, () => M.call(M.get(a, 'send'), undefined, [M.plain({ type: 'x' })])).ok, 'send of a component without a source throws'); }
  M.callMethod(e1, 'disconnectedCallback', []); M.callMethod(e2, 'disconnectedCallback', []);
  const e3 = M.construct(defsOf(M)[0], []); M.callMethod(e3, 'connectedCallback', []);
  M.check('static-component-renders', got.length === 3, 'an element created after all others were removed does not render');
}

const derivedIs = (W, src, v) => { const M = W.M; const cap = capture(W, src); if (src.kind !== 'xstate') return M.same(v, cap); const a = M.same(v, cap); return a === 'ne' ? isExtended(M, v, cap) : a; };

/** end to end: real adapters under real elements, every history of two elements */
export function coreClient(M, prop, shape, opts) {
  const W = makeWorld(M, { env: { NODE_ENV: 'production' } });
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load('src/IgniteCore.ts');
  const core = W.interp.exported(mod, 'igniteCore');
  const source = shape.make(W);
  let cur = null;
  const component = M.call(core, undefined, [M.plain({ source, states: M.native('states', (M2, t, [s]) => M.plain({ derived: M.fold(s) })) })]);
  M.call(component, undefined, ['x-a', M.native('renderer', (M2, t, [a]) => { rendersAll.push(M.fold(a)); return null; })]);
  const rendersAll = [];
  const E = [];
  const cls = defsOf(M)[0];
  for (let step = 0; step < opts.maxOps; step++) {
    cut(M, [...E.map((e) => e.el), ...E.map((e) => e.src.obj)], E.map((e) => `${e.connected}/${e.dead}`).join());
    M.res.transitions++;
    const ops = [];
    if (E.length < 2 && !(shape.shared && E.some((e) => e.dead))) ops.push(['create']);
    for (const e of E) { if (!e.dead && !e.connected) ops.push(['connect', e]); if (e.connected) ops.push(['disconnect', e]); ops.push(['change', e]); }
    const [op, x] = ops[M.choose(ops.length, 'page: ' + ops.map((q) => q[0] + (q[1] ? ' ' + q[1].i : '')).join(' | '))];
    rendersAll.length = 0;
    if (op === 'create') {
      const pre = W.sources.length;
      const el = M.fold(M.construct(cls, []));
      const src = shape.shared ? W.sources.find((s) => s.obj === source) : W.sources[W.sources.length - 1];
      P('C09', 'isolated-own-source', shape.shared || W.sources.length === pre + 1 || (E.length === 0), 'two isolated elements share one source');
      E.push({ el, i: E.length, src, connected: false, dead: false });
    } else if (op === 'connect') {
      x.connected = true; M.callMethod(x.el, 'connectedCallback', []);
      P('C07', 'renders-on-connect', rendersAll.length === 1, `connecting an element renders it ${rendersAll.length} times`);
      if (rendersAll.length) P('C07', 'connect-renders-current-state', stateIs(W, x.src, M.get(rendersAll[rendersAll.length - 1], 'state'), capture(W, x.src)), 'connecting an element renders something other than the current state of the source');
    } else if (op === 'disconnect') {
      x.connected = false; M.callMethod(x.el, 'disconnectedCallback', []);
      P('C08', 'no-render-after-disconnect', rendersAll.length === 0, 'disconnecting an element renders it');
      if (!shape.shared) x.dead = true; else if (!E.some((e) => e.connected)) for (const e of E) e.dead = true;
      if (!E.some((e) => e.connected && e.src === x.src) && E.filter((e) => e.src === x.src).every((e) => e.dead)) P('C08', 'source-released', liveSubs(x.src) === 0, 'a subscription on the source survives the last element');
    } else {
      (x.src.deliver ?? x.src.advance)(null);
      const hit = E.filter((e) => e.connected && e.src === x.src);
      P(hit.length ? 'C07' : 'C08', hit.length ? 'renders-on-change' : 'no-render-after-disconnect', rendersAll.length === hit.length, `a change of the source renders ${rendersAll.length} elements instead of the ${hit.length} connected ones`);
      for (const a of rendersAll) {
        P('C07', 'change-renders-current-state', stateIs(W, x.src, M.get(a, 'state'), capture(W, x.src)), 'after a change a connected element shows a stale state');
        P('C11', 'derived-state-current', derivedIs(W, x.src, M.get(a, 'derived')), 'after a change a connected element shows a stale derived state');
      }
    }
  }
  throw new Pruned('op bound');
}

export function runFacade(prop, { ai, thorough }) {
  if (prop === 'C11') ai('facade renders', (M) => facadeClient(M, prop, { steps: thorough ? 4 : 2 }));
  if (prop === 'C12') ai('commands and emit', (M) => facadeClient(M, prop, {}));
  if (prop === 'C11') ai('facade validation', (M) => facadeValidation(M, prop));
  if (prop === 'C11' || prop === 'C12') ai('facade subsets', (M) => facadeSubsets(M, prop));
  if (prop === 'C11') ai('renderer forms', (M) => rendererForms(M, prop));
  if (prop === 'C11') runCoreClient(prop, { ai, thorough });
  if (prop === 'C13') {
    for (const [n, s] of Object.entries(SHAPES)) ai(`igniteCore, ${n}`, (M) => coreForward(M, prop, s, {}));
    ai('unrecognised sources', (M) => coreRejects(M, prop));
    ai('explicit adapter', (M) => coreExplicit(M, prop));
    ai('sources with some members of another kind', (M) => coreDecoy(M, prop));
    ai('unknown adapter names', (M) => coreUnknownAdapter(M, prop));
    ai('component without a source', (M) => coreStatic(M, prop));
    for (const [lib, f] of Object.entries({ xstate: 'igniteCoreXState', redux: 'igniteCoreRedux', mobx: 'igniteCoreMobx' })) for (const [n, s] of Object.entries(SHAPES)) if (s.lib === lib) ai(`entry ${lib}, ${n}`, (M) => coreForward(M, prop, s, { entry: `src/${lib}.ts`, fn: 'igniteCore', explicit: false }));
  }
}
export function runCoreClient(prop, { ai, thorough }) {
  for (const [n, s] of Object.entries(SHAPES)) ai(`igniteCore end to end, ${n}`, (M) => coreClient(M, prop, s, { maxOps: thorough ? 14 : 10 }));
}

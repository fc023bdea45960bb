// C01-C06: typestate analysis of the three state adapters under a most-general client.
import { K, KS, deref, isSym, isObj, isPrim, show } from '../engine/values.mjs';
import { Inconclusive, Pruned } from '../engine/machine.mjs';
import { makeWorld, makeActor, makeMachine, makeStore, makeSlice, makeMobx, liveSubs, capture, stateIs, cut, attempt } from '../engine/world.mjs';

export const SHAPES = {
  'xstate actor (shared)': { file: 'src/adapters/XStateAdapter.ts', lib: 'xstate', shared: true, make: (W) => { const s = makeActor(W, { name: 'userActor' }); s.user = true; return s.obj; } },
  'xstate machine (isolated)': { file: 'src/adapters/XStateAdapter.ts', lib: 'xstate', shared: false, make: (W) => makeMachine(W) },
  'redux store (shared)': { file: 'src/adapters/ReduxAdapter.ts', lib: 'redux', shared: true, make: (W) => { const s = makeStore(W, { name: 'userStore' }); s.user = true; return s.obj; } },
  'redux store factory (isolated)': { file: 'src/adapters/ReduxAdapter.ts', lib: 'redux', shared: false, make: (W) => W.M.native('storeFactory', () => { const s = makeStore(W, { name: 'fstore' + (W.nf = (W.nf ?? 0) + 1) }); return s.obj; }) },
  'redux slice (isolated)': { file: 'src/adapters/ReduxAdapter.ts', lib: 'redux', shared: false, make: (W) => makeSlice(W) },
  'mobx observable (shared)': { file: 'src/adapters/MobxAdapter.ts', lib: 'mobx', shared: true, make: (W) => { const s = makeMobx(W, { name: 'userObservable' }); s.user = true; return s.obj; } },
  'mobx factory (isolated)': { file: 'src/adapters/MobxAdapter.ts', lib: 'mobx', shared: false, make: (W) => W.M.native('observableFactory', () => makeMobx(W, { name: 'obs' + (W.nf = (W.nf ?? 0) + 1) }).obj) },
};

function event(W, shape, withArgs = false) {
  const M = W.M;
  if (shape.lib === 'mobx') { const e = M.plain({ type: 'act0' }); e.name = 'event{act0}'; if (withArgs && M.choose(2, 'event: without / with arguments')) M.put(e, 'args', M.arr([M.sym('arg', KS.ANY, { distinct: true })])); return e; }
  return M.sym('event', shape.lib === 'redux' ? K.OBJ | K.FUNC : K.OBJ, { distinct: true }); // a Redux store also takes thunks
}

/** the most-general client of one adapter */
export function adapterClient(M, shape, prop, opts) {
  const W = makeWorld(M, {});
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load(shape.file);
  const create = W.interp.exported(mod, 'default');
  const source = shape.make(W);
  const factory = M.call(create, undefined, [source]);
  const adapter = M.fold(M.call(factory, undefined, []));
  const src = W.sources[W.sources.length - 1];
  if (!isObj(adapter) || !src) throw new Inconclusive('adapter was not created');
  const call = (name, args = []) => M.callMethod(adapter, name, args);
  const cmd = shape.lib === 'xstate' && prop === 'C01' ? M.call(M.get(factory, 'resolveCommandActor'), undefined, [adapter]) : undefined;

  const G = { stopped: false, frozen: undefined, reent: 0, inOp: null };
  const L = Array.from({ length: opts.listeners ?? 2 }, (_, i) => i).map((i) => ({ i, active: false, handle: undefined, everUnsub: false, got: [], fn: null, initial: false }));
  for (const l of L) {
    l.fn = M.native('listener' + i2(l.i), (M2, t, args) => {
      M.event('deliver', { who: 'listener' + l.i, args });
      if (G.stopped) P('C01', 'no-delivery-after-stop', false, `listener ${l.i} is called after stop() of the ${shape.lib} adapter`);
      if (!l.active) P('C02', 'no-delivery-after-unsubscribe', false, `listener ${l.i} is called although its subscription has ended`);
      l.got.push({ state: args[0], cap: capture(W, src) });
      reenter(l);
      return undefined;
    });
    l.fn.slots.listener = l.i;
  }
  function reenter(l) {
    if (G.reent >= (opts.depth ?? 1) || !opts.reentrant) return;
    const acts = [];
    if (!G.stopped) {
      if (l.handle && l.active) acts.push(['unsubscribe self', () => endSub(l)]);
      for (const o of L) if (o !== l && o.handle && o.active) acts.push([`unsubscribe ${o.i}`, () => endSub(o)]);
      const o = L.find((x) => !x.active);
      if (o) acts.push([`subscribe ${o.i}`, () => subDuring(o)]);
      acts.push(['stop', doStop]);
      if (prop === 'C01') acts.push(['stop, after which the source changes again', () => { doStop(); (src.deliver ?? src.advance)(null); }]);
      if (opts.reentrant >= 2) acts.push(['send', () => { G.nested = (G.nested ?? 0) + 1; G.expect++; call('send', [event(W, shape)]); }]);
    }
    const c = M.choose(acts.length + 1, `listener ${l.i} re-enters: ${['nothing', ...acts.map((a) => a[0])].join(' / ')}`);
    if (c === 0) return;
    G.reent++;
    M.event('re-enter', { who: acts[c - 1][0] });
    acts[c - 1][1]();
  }
  // somebody else observing the same source, told about a change before the adapter is
  src.foreign = () => {
    if (!G.armed || G.stopped) return;
    G.armed = false;
    const acts = [['reads getState()', () => { const s = call('getState'); P('C06', 'getState-current', stateIs(W, src, s, capture(W, src)), 'getState() read by another observer of the source during a change is not the current state'); }], ['stops the adapter', doStop]];
    if (prop === 'C01') acts.push(['stops the adapter, after which the source changes again', () => { doStop(); (src.deliver ?? src.advance)(null); }]);
    for (const l of L) if (l.handle && l.active) acts.push([`unsubscribes listener ${l.i}`, () => endSub(l)]);
    { const o = L.find((x) => !x.active); if (o && prop === 'C02' && shape.lib !== 'mobx') acts.push([`subscribes listener ${o.i}`, () => { // it may be told of this very change once more
      o.active = true; o.handle = undefined; o.got = [];
      const r = attempt(M, () => call('subscribe', [o.fn]));
      P('C02', 'subscribe-succeeds', r.ok, 'subscribing from another observer of the source throws');
      if (!r.ok) { o.active = false; return; }
      o.handle = r.value;
      P('C02', 'initial-state-current', o.got.length >= 1 ? stateIs(W, src, o.got[0].state, capture(W, src)) : 'ne', 'a listener subscribed by another observer of the source, told of a change first, is not given the current state');
    }]); }
    const c = M.choose(acts.length + 1, `another observer of the source, told first: does nothing / ${acts.map((a) => a[0]).join(' / ')}`);
    if (c === 0) return;
    G.reent++; M.event('foreign', { who: acts[c - 1][0] }); acts[c - 1][1]();
  };
  // a listener subscribes another one while a delivery is under way
  function subDuring(o) {
    G.subbed = o; o.active = true; o.handle = undefined; o.got = [];
    const r = attempt(M, () => call('subscribe', [o.fn]));
    P('C02', 'subscribe-succeeds', r.ok, 'subscribing from inside a delivery throws');
    if (!r.ok) { o.active = false; return; }
    o.handle = r.value;
    P('C02', 'initial-delivery', o.got.length >= 1, 'a listener subscribed from inside a delivery is not given the current state');
    if (o.got.length) P('C02', 'initial-state-current', stateIs(W, src, o.got[0].state, capture(W, src)), 'a listener subscribed from inside a delivery is given something other than the current state');
  }
  function endSub(l) { M.callMethod(l.handle, 'unsubscribe', []); l.active = false; l.ended = true; }
  function doStop() {
    if (!G.stopped) { G.frozen = capture(W, src); }
    const before = src.stops ?? 0;
    const first = !G.stopped;
    G.stopped = true;
    for (const l of L) { if (l.active) l.ended = true; l.active = false; }
    call('stop');
    if (shape.lib === 'xstate') {
      if (src.user) P('C04', 'user-actor-not-stopped', (src.stops ?? 0) === before, 'stop() of the adapter stops an actor that the user supplied');
      else if (first) P('C04', 'owned-actor-stopped-once', src.stops === before + 1, `stop() of the adapter stops the actor it created ${src.stops - before} times (must be once)`);
      else P('C04', 'owned-actor-stopped-once', src.stops === before, 'a repeated stop() stops the owned actor again');
    }
  }
  if (shape.lib === 'xstate') P('C04', 'actor-started', src.started, 'the actor behind a new adapter has not been started');
  const settled = () => {
    { const n = L.filter((l) => l.active).length; for (const s of W.sources) P('C03', 'no-more-than-subscribers', liveSubs(s) <= n, `${liveSubs(s)} subscriptions on the ${shape.lib} source are held for ${n} subscriber(s)`); }
    for (const s of W.sources) if (G.stopped || !L.some((l) => l.active)) P('C03', 'no-retained-source-subscription', liveSubs(s) === 0, `${liveSubs(s)} subscription(s) on the ${shape.lib} source remain although ${G.stopped ? 'the adapter is stopped' : 'nobody is subscribed'}`);
    if (shape.lib === 'xstate' && !G.stopped) P('C04', 'actor-kept-while-running', !src.stops, 'the actor behind a running adapter is stopped');
    P('C04', 'user-source-not-mutated', true);
    if (src.user) for (const e of M.log) if (e.t === 'src-mutate' || (e.t === 'opaque-write')) P('C04', 'user-source-not-mutated', false, `a user-supplied source is modified: ${e.what ?? show(e.key)}`);
  };
  for (let step = 0; step < opts.maxOps; step++) {
    cut(M, [adapter, src.obj, src.cur, src.prev, cmd, G.frozen, G.lastEvent, ...L.map((l) => l.handle)], [G.stopped, ...L.map((l) => `${l.active}/${l.handle ? 1 : 0}`)].join());
    M.res.transitions++;
    const ops = [];
    for (const l of L) {
      if (!l.active && !G.stopped) ops.push(['subscribe', l]);
      if (l.handle) ops.push(['unsubscribe', l]);
    }
    ops.push(['send'], ['external change'], ['stop'], ['getState']);
    if (G.lastEvent && shape.lib !== 'mobx') ops.push(['send again']);
    if (src.prev !== undefined) ops.push(['change back']);
    if (G.stopped) ops.push(['subscribe after stop', L[0]]);
    if (cmd) ops.push(['send through the command handle']);
    const [op, l] = ops[M.choose(ops.length, 'client: ' + ops.map((o) => o[0] + (o[1] ? ' ' + o[1].i : '')).join(' | '))];
    M.event('client', { who: op + (l ? ' ' + l.i : '') });
    for (const x of L) { x.got = []; x.ended = false; x.wasActive = x.active; }
    G.reent = 0; G.nested = 0; G.subbed = null; G.expect = 1; G.armed = Boolean(opts.foreign);
    const sendsBefore = src.sends.length, procBefore = src.processed;
    switch (op) {
      case 'subscribe': {
        l.active = true; l.handle = undefined;
        const r = attempt(M, () => call('subscribe', [l.fn]));
        P('C02', 'subscribe-succeeds', r.ok, 'subscribing to a live adapter throws');
        if (!r.ok) { l.active = false; break; }
        l.handle = r.value;
        if (!G.stopped) {
          P('C02', 'initial-delivery', l.got.length >= 1 || l.ended, 'a new subscriber is not given the current state');
          P('C02', 'initial-delivery-once', l.got.length <= 1 || G.reent > 0, `a new subscriber is called ${l.got.length} times on subscribing`);
          if (l.got.length) P('C02', 'initial-state-current', stateIs(W, src, l.got[l.got.length - 1].state, l.got[l.got.length - 1].cap), 'a new subscriber is given something other than the current state');
          if (G.nested && l.active && l.got.length) P('C02', 'delivered-state-current', stateIs(W, src, l.got[l.got.length - 1].state, capture(W, src)), 'a change made during the first delivery to a new subscriber is never delivered to it');
          P('C02', 'initial-delivery-private', L.every((x) => x === l || x === G.subbed || x.got.length === 0) || G.nested > 0, 'an existing subscriber is called because somebody else subscribes');
        }
        break;
      }
      case 'unsubscribe': {
        const r = attempt(M, () => endSub(l));
        P('C02', 'unsubscribe-succeeds', r.ok, 'unsubscribing throws');
        P('C02', 'unsubscribe-private', L.every((x) => x === l || x === G.subbed || x.got.length === 0) || G.nested > 0, 'unsubscribing one listener calls another');
        break;
      }
      case 'send': case 'send again': case 'external change': case 'change back': {
        const ev = op === 'send again' ? G.lastEvent : event(W, shape, prop === 'C01');
        if (op === 'send') G.lastEvent = ev;
        const wasStopped = G.stopped; const sent = op.startsWith('send');
        if (sent) {
          const r = attempt(M, () => call('send', [ev]));
          P('C06', 'send-does-not-throw', r.ok, 'send() throws');
          if (wasStopped) P('C01', 'no-send-after-stop', src.sends.length === sendsBefore, 'an event sent to a stopped adapter reaches the source');
        } else if (op === 'change back') src.advance(true); else (src.deliver ?? src.advance)(null);
        if (!wasStopped && (!sent || src.sends.length > sendsBefore)) {
          for (const x of L) {
            if (x.wasActive && x.active && !G.stopped) {
              const label = G.reent ? 'with a re-entrant client' : '';
              if (!G.nested) P('C02', 'delivered-once-per-change', x.got.length === 1, `an active subscriber is called ${x.got.length} times for one state change ${label}`);
              else P('C02', 'delivered-at-least-once', x.got.length >= 1, `an active subscriber is not called for a state change ${label}`);
              if (x.got.length) P('C02', 'delivered-state-current', stateIs(W, src, x.got[x.got.length - 1].state, capture(W, src)), 'an active subscriber is not given the current state after a change');
            }
          }
          if (sent && !G.stopped) { const s = call('getState'); P('C06', 'read-after-send', stateIs(W, src, s, capture(W, src)), 'getState() right after send() does not show the state the event produced'); }
        }
        if (sent && !wasStopped) P('C06', 'send-reaches-source-once', src.sends.length === sendsBefore + 1 + G.nested, `an event sent to a live adapter reaches its source ${src.sends.length - sendsBefore} times`);
        if (sent && !wasStopped && !G.stopped && shape.lib === 'xstate') P('C06', 'event-processed', src.processed === procBefore + 1 + G.nested, 'an event sent to a live adapter is not processed by its actor (the actor has not been started)');
        break;
      }
      case 'send through the command handle': {
        const wasStopped = G.stopped;
        attempt(M, () => M.callMethod(cmd, 'send', [event(W, shape)]));
        if (wasStopped) P('C01', 'no-send-after-stop-command', src.sends.length === sendsBefore, 'an event sent through the command handle of a stopped adapter reaches the actor');
        break;
      }
      case 'stop': {
        const r = attempt(M, doStop);
        P('C01', 'stop-does-not-throw', r.ok, 'stop() throws');
        break;
      }
      case 'getState': {
        const s = call('getState');
        if (G.stopped) P('C01', 'state-frozen-after-stop', stateIs(W, src, s, G.frozen), 'getState() of a stopped adapter is not the state as of stop()');
        else P('C06', 'getState-current', stateIs(W, src, s, capture(W, src)), 'getState() of a live adapter is not the current state of its source');
        break;
      }
      case 'subscribe after stop': {
        const x = L[0]; const r = attempt(M, () => call('subscribe', [x.fn]));
        if (r.ok && x.handle === undefined) x.handle = r.value;
        P('C01', 'subscribe-after-stop-inert', x.got.length === 0, 'subscribing to a stopped adapter delivers');
        break;
      }
    }
    if (G.subbed && !G.nested) P('C02', 'initial-delivery-once', G.subbed.got.length <= 1, `a listener subscribed during a delivery is called ${G.subbed.got.length} times with the state it subscribed in`);
    settled();
  }
  M.bounded++;
  throw new Pruned('op bound');
}
const i2 = (i) => String(i);

// ---------------------------------------------------------------- C05: isolation, C04/C06 contracts
export function isolationClient(M, shape, prop) {
  const W = makeWorld(M, {});
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load(shape.file);
  const create = W.interp.exported(mod, 'default');
  const source = shape.make(W);
  const f = M.call(create, undefined, [source]);
  const n0 = W.sources.length;
  const a = M.fold(M.call(f, undefined, [])); const sa = W.sources[W.sources.length - 1];
  const b = M.fold(M.call(f, undefined, [])); const sb = W.sources[W.sources.length - 1];
  P('C05', 'scope-reported', M.same(M.get(f, 'scope'), shape.shared ? 'shared' : 'isolated'), 'the adapter factory reports the wrong scope');
  P('C05', 'adapter-scope-reported', M.same(M.get(a, 'scope'), shape.shared ? 'shared' : 'isolated'), 'the adapter reports the wrong scope');
  if (shape.shared) {
    P('C05', 'shared-adapter-identity', a === b, 'two elements of a shared source do not share one adapter');
  } else {
    P('C05', 'isolated-adapters-distinct', a !== b && sa !== sb, 'two elements of an isolated source share an adapter or a source');
    P('C05', 'isolated-source-per-adapter', W.sources.length - n0 === 2, `creating two isolated adapters created ${W.sources.length - n0} sources`);
  }
  if (shape.lib === 'xstate' && !shape.shared) for (const s of [sa, sb]) P('C05', 'machine-used', s.logic === M.fold(source), 'the created actor does not run the given machine');
  if (shape.file.includes('Redux') && source.slots.guard === 'slice') for (const s of [sa, sb]) {
    const red = M.fold(M.get(s.config, 'reducer'));
    const v = isObj(red) ? M.get(red, M.get(source, 'name')) : undefined;
    P('C05', 'slice-reducer-mounted', M.same(v, M.get(source, 'reducer')), "the slice's reducer is not mounted under the slice's name");
  }
  // resolvers follow the adapter they are given, in every order and after any interleaving of changes
  for (let k = 0; k < 3; k++) {
    const c = M.choose(4, 'client: change a | change b | stop a | nothing');
    if (c === 0) sa.advance(); else if (c === 1) sb.advance(); else if (c === 2 && !sa.gone) { sa.frozen = capture(W, sa); sa.gone = true; if (sa === sb) sb.frozen = sa.frozen; M.callMethod(a, 'stop', []); } else break;
  }
  for (const [ad, s, o] of [[a, sa, sb], [b, sb, sa]]) {
    const st = M.callMethod(ad, 'getState', []);
    P('C05', 'state-of-own-source', stateIs(W, s, st, s.gone ? s.frozen : capture(W, s)), 'an adapter shows the state of another source');
    const snap = M.call(M.get(f, 'resolveStateSnapshot'), f, [ad]);
    const actor = M.fold(M.call(M.get(f, 'resolveCommandActor'), f, [ad]));
    if (!s.gone) {
      P('C05', 'snapshot-of-own-source', s.kind === 'xstate' ? M.same(snap, s.cur) : M.same(snap, capture(W, s)), 'the snapshot given to facade callbacks is not the current one of the same source');
      if (s.kind === 'xstate') {
        const as = M.get(actor, 'state');
        P('C05', 'actor-state-of-own-source', stateIs(W, s, as, s.cur), "the command handle's state is not that of its own source");
        const ev = event(W, shape); const n = s.sends.length, m = o === s ? 0 : o.sends.length;
        attempt(M, () => M.callMethod(actor, 'send', [ev]));
        P('C06', 'command-send-once', s.sends.length === n + 1 && M.same(s.sends[n], ev) === 'eq', 'an event sent through the command handle does not reach its own actor exactly once unmodified');
        P('C05', 'command-send-isolated', o === s || o.sends.length === m, 'an event sent through one command handle reaches another actor');
        const st2 = M.callMethod(ad, 'getState', []);
        P('C06', 'read-after-command', stateIs(W, s, st2, s.cur), 'state read after a command is stale');
      } else if (s.kind === 'redux') {
        P('C05', 'actor-state-of-own-source', M.same(M.callMethod(actor, 'getState', []), s.cur), "the command handle's state is not that of its own store");
        const ev = event(W, shape); const n = s.sends.length, m = o.sends.length;
        M.callMethod(actor, 'dispatch', [ev]);
        P('C06', 'command-send-once', s.sends.length === n + 1 && M.same(s.sends[n], ev) === 'eq', 'an action dispatched through the command handle does not reach its own store exactly once unmodified');
        P('C05', 'command-send-isolated', o === s || o.sends.length === m, 'an action dispatched through one command handle reaches another store');
        let hits = 0; const un = M.callMethod(actor, 'subscribe', [M.native('sub', () => { hits++; })]);
        s.advance();
        P('C05', 'actor-subscribe', hits === 1, `a store subscription taken through the command handle is called ${hits} times for a change`);
        M.call(un, undefined, []); s.advance();
        P('C05', 'actor-unsubscribe', hits === 1, 'a store subscription taken through the command handle survives its unsubscribe');
      } else {
        P('C05', 'actor-is-own-store', actor === s.obj, 'the command handle is not the store of its own element');
      }
    }
  }
  if (!shape.shared) {
    const bogus = M.obj('Object');
    for (const r of ['resolveStateSnapshot', 'resolveCommandActor']) { const x = attempt(M, () => M.call(M.get(f, r), f, [bogus])); P('C05', 'foreign-adapter-rejected', !x.ok, `${r} answers for an adapter it did not create`); }
  }
}

/** a listener (or the action itself) throws once: the adapter must go on working for everybody */
export function recovery(M, shape, prop) {
  const W = makeWorld(M, {});
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const f = M.call(W.interp.exported(W.interp.load(shape.file), 'default'), undefined, [shape.make(W)]);
  const a = M.fold(M.call(f, undefined, [])); const src = W.sources[W.sources.length - 1];
  let armed = false, stopped = false;
  const L = [0, 1].map((i) => { const l = { i, got: [], on: false }; l.fn = M.native('listener' + i, (M2, t, [s]) => {
    l.got.push(s);
    P('C01', 'no-delivery-after-stop', !stopped, `listener ${i} is called after stop()`);
    P('C02', 'no-delivery-after-unsubscribe', l.on, `listener ${i} is called although its subscription has ended`);
    if (i === 0 && armed) { armed = false; throw M.throwError('Error', 'the listener fails'); }
  }); return l; });
  const sub = (l) => { l.on = true; const r = attempt(M, () => M.callMethod(a, 'subscribe', [l.fn])); if (r.ok) l.h = r.value; return r.ok; };
  const change = (how) => attempt(M, () => (how ? M.callMethod(a, 'send', [event(W, shape)]) : (src.deliver ?? src.advance)(null)));
  const early = M.choose(2, 'listener 0 subscribes: first / second') === 0;
  const initial = M.choose(2, 'listener 0 fails: on a change / on its first delivery') === 1;
  if (!early) sub(L[1]);
  armed = initial;
  const ok = sub(L[0]);
  armed = false;
  if (early) P('C02', 'subscribe-succeeds', sub(L[1]), 'subscribing throws because another listener failed before');
  if (!initial) { armed = true; change(M.choose(2, 'the change is: external / an event sent') === 1); armed = false; }
  const n = 1 + M.choose(2, 'later changes: one / two');
  for (let k = 0; k < n; k++) {
    const how = M.choose(2, 'a later change is: external / an event sent') === 1;
    for (const l of L) l.got = []; const before = src.sends.length;
    change(how);
    if (how) P('C06', 'send-reaches-source-once', src.sends.length === before + 1, `an event sent after a listener failed reaches its source ${src.sends.length - before} times`);
    for (const l of L) if (l.h) {
      P('C02', 'delivered-once-per-change', l.got.length === 1, `after a listener failed, listener ${l.i} is called ${l.got.length} times for one change`);
      if (l.got.length) P('C02', 'delivered-state-current', stateIs(W, src, l.got[l.got.length - 1], capture(W, src)), `after a listener failed, listener ${l.i} is not given the current state`);
    }
    P('C06', 'getState-current', stateIs(W, src, M.callMethod(a, 'getState', []), capture(W, src)), 'getState() is stale after a listener failed');
  }
  if (M.choose(2, 'finally: everybody unsubscribes / the adapter is stopped') === 0) {
    for (const l of L) if (l.h) { const r = attempt(M, () => M.callMethod(l.h, 'unsubscribe', [])); P('C02', 'unsubscribe-succeeds', r.ok, 'unsubscribing throws'); l.on = false; }
    if (L.every((l) => l.h)) P('C03', 'no-retained-source-subscription', liveSubs(src) === 0, `${liveSubs(src)} subscription(s) on the ${shape.lib} source remain after a listener failed and everybody unsubscribed`);
    for (const l of L) l.got = []; change(false);
    for (const l of L) if (l.h) P('C02', 'no-delivery-after-unsubscribe', l.got.length === 0, 'a listener is called after its unsubscribe');
  } else {
    const cap = capture(W, src); M.callMethod(a, 'stop', []); stopped = true;
    P('C03', 'no-retained-source-subscription', liveSubs(src) === 0, `${liveSubs(src)} subscription(s) on the ${shape.lib} source remain after a listener failed and the adapter was stopped`);
    for (const l of L) l.got = []; const before = src.sends.length; change(false); change(true);
    P('C01', 'no-delivery-after-stop', L.every((l) => l.got.length === 0), 'a listener is called after stop()');
    P('C01', 'no-send-after-stop', src.sends.length === before, 'an event sent to a stopped adapter reaches the source');
    P('C01', 'state-frozen-after-stop', stateIs(W, src, M.callMethod(a, 'getState', []), cap), 'getState() of a stopped adapter is not the state as of stop()');
  }
}

export function sendContract(M, shape, prop) { // C06: unmodified arguments
  const W = makeWorld(M, {});
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load(shape.file);
  const f = M.call(W.interp.exported(mod, 'default'), undefined, [shape.make(W)]);
  const a = M.fold(M.call(f, undefined, [])); const s = W.sources[W.sources.length - 1];
  const b = shape.shared ? null : M.fold(M.call(f, undefined, [])); const sb = W.sources[W.sources.length - 1];
  const other = b ? [sb] : [];
  const last = () => s.sends[s.sends.length - 1];
  if (shape.lib !== 'mobx') {
    const ev = event(W, shape);
    M.callMethod(a, 'send', [ev]);
    P('C06', 'event-unmodified', s.sends.length === 1 && M.same(last(), ev) === 'eq', 'the source does not receive exactly the event that was sent');
    for (const o of other) P('C06', 'send-isolated', o.sends.length === 0, 'an event sent to one isolated adapter reaches another source');
    return;
  }
  const c = M.choose(9, 'event class: args list / empty args / args undefined / parameterised action without args / plain action without args / data member / missing member / empty args for a parameterised action / args list for an action without declared parameters');
  const x = M.sym('arg0', KS.ANY, { distinct: true }), y = M.sym('arg1', KS.ANY, { distinct: true });
  const ev = c === 0 ? M.plain({ type: 'act1', args: M.arr([x, y]) }) : c === 1 ? M.plain({ type: 'act0', args: M.arr([]) }) : c === 2 ? M.plain({ type: 'act0', args: undefined }) : c === 3 ? M.plain({ type: 'act1' }) : c === 4 ? M.plain({ type: 'act0' }) : c === 5 ? M.plain({ type: 'data' }) : c === 7 ? M.plain({ type: 'act1', args: M.arr([]) }) : c === 8 ? M.plain({ type: 'act0', args: M.arr([x, y]) }) : M.plain({ type: 'nope' });
  const r = attempt(M, () => M.callMethod(a, 'send', [ev]));
  P('C06', 'send-does-not-throw', r.ok, 'send() throws');
  if (c === 5 || c === 6) { P('C06', 'unknown-action-ignored', s.sends.length === 0, 'an unknown event type invokes an action'); P('C06', 'unknown-action-warned', M.log.some((e) => e.t === 'console' && (e.level === 'warn' || e.level === 'error')), 'an unknown event type is dropped without a warning'); return; }
  P('C06', 'action-called-once', s.sends.length === 1, `the action is called ${s.sends.length} times`);
  if (s.sends.length !== 1) return;
  const call = last();
  P('C06', 'action-name', call.nm === M.fold(M.get(ev, 'type')), 'a different action is called');
  P('C06', 'action-receiver', call.self === s.obj, 'the action is not called on its own store');
  if (c === 0 || c === 8) { P('C06', 'action-args', call.args.length === 2 && M.same(call.args[0], x) === 'eq' && M.same(call.args[1], y) === 'eq', 'the action does not receive the arguments of the event, in order'); }
  if (c === 3) P('C06', 'action-event', call.args.length >= 1 && M.same(call.args[0], ev) === 'eq', 'an action with parameters does not receive the event when no argument list is given');
  if (c === 7) P('C06', 'action-empty-args', call.args.length === 0, 'an action called with an empty argument list receives arguments');
  if (c === 1 || c === 2 || c === 4) P('C06', 'action-noargs', call.args.filter((v) => M.fold(v) !== undefined).length === 0, 'an action without parameters receives arguments');
  for (const o of other) P('C06', 'send-isolated', o.sends.length === 0, 'an event sent to one isolated adapter reaches another store');
  P('C06', 'read-after-send', stateIs(W, s, M.callMethod(a, 'getState', []), capture(W, s)), 'getState() right after send() is stale');
}

export function runAdapters(prop, { ai, thorough }) {
  for (const [name, shape] of Object.entries(SHAPES)) {
    if (['C01', 'C02', 'C03', 'C04', 'C06'].includes(prop)) ai(`${name}: most-general client`, (M) => adapterClient(M, shape, prop, { maxOps: thorough ? 16 : 10, reentrant: prop === 'C04' || prop === 'C06' ? 0 : prop === 'C02' || thorough ? 2 : 1, listeners: thorough || prop === 'C02' || prop === 'C03' ? 3 : 2, depth: thorough && prop !== 'C02' ? 2 : 1, foreign: true }));
    if (['C01', 'C02', 'C03', 'C06'].includes(prop)) ai(`${name}: after a listener failed`, (M) => recovery(M, shape, prop));
    if (prop === 'C05' || prop === 'C06') ai(`${name}: two adapters`, (M) => isolationClient(M, shape, prop));
    if (prop === 'C06') ai(`${name}: send contract`, (M) => sendContract(M, shape, prop));
  }
}

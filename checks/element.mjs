// C07-C10: lifecycle of the custom elements the factory defines, under a most-general page.
import { K, KS, deref, isSym, isObj, isPrim, show } from '../engine/values.mjs';
import { Inconclusive, Pruned, NOPE } from '../engine/machine.mjs';
import { makeWorld, cut, attempt } from '../engine/world.mjs';
import { mkEvent, dispatch } from '../engine/dom.mjs';

/** any adapter that honours the adapter contract (C01-C06) */
export function fakeAdapter(W, scope) {
  const M = W.M;
  const n = (W.nAd = (W.nAd ?? 0) + 1);
  const a = M.obj('Object', M.builtins.objectProto, 'adapter' + n);
  const A = { obj: a, n, subs: [], sends: [], stops: 0, stopped: false, v: 0, cur: null };
  a.slots.adapterModel = A; a.slots.cap = A.capv = { subs: 0, stopped: false, stops: 0 };
  (W.adapters ??= []).push(A);
  const fresh = () => { A.cur = M.sym(`state@adapter${n}/${A.v++}`, KS.ANY & ~K.UNDEF, { distinct: true }); };
  fresh();
  A.sync = () => { A.capv.subs = A.subs.map((r) => r.fn); A.capv.stopped = A.stopped; A.capv.stops = Math.min(A.stops, 2); A.capv.cur = A.cur; };
  A.change = () => { if (A.stopped) return; fresh(); for (const r of [...A.subs]) if (r.live) M.call(r.fn, undefined, [A.cur]); A.sync(); };
  M.put(a, 'subscribe', M.native('adapter.subscribe', (M2, t, [f]) => {
    if (A.stopped) throw M.throwError('Error', 'Adapter is stopped and cannot subscribe.');
    const rec = { fn: M.fold(f), live: true }; (W.subOwner ??= new Map()).set(rec, W.lifecycle?.[W.lifecycle.length - 1]); A.subs.push(rec); M.event('adapter-subscribe', { who: a.name });
    M.call(rec.fn, undefined, [A.cur]);
    A.sync();
    const h = M.obj('Object'); M.put(h, 'unsubscribe', M.native('unsubscribe', () => { rec.live = false; A.subs = A.subs.filter((x) => x !== rec); A.sync(); }, { cap: rec })); return h;
  }));
  M.put(a, 'send', M.native('adapter.send', (M2, t, args) => { A.sends.push(args[0]); M.event('adapter-send', { who: a.name, args }); }));
  M.put(a, 'getState', M.native('adapter.getState', () => A.cur));
  M.put(a, 'stop', M.native('adapter.stop', () => { A.stops++; M.event('adapter-stop', { who: a.name }); if (!A.stopped) { A.stopped = true; for (const r of A.subs) r.live = false; A.subs = []; } A.sync(); }));
  if (scope !== undefined) M.put(a, 'scope', scope);
  A.sync();
  return A;
}
export function fakeStrategy(W, onRender) {
  const M = W.M;
  return M.native('createRenderStrategy', () => {
    const s = M.obj('Object', M.builtins.objectProto, 'strategy' + (W.nStr = (W.nStr ?? 0) + 1));
    const S = { obj: s, host: null, attached: 0 };
    s.slots.cap = { host: null };
    M.put(s, 'attach', M.native('strategy.attach', (M2, t, [h]) => { S.attached++; S.host = M.fold(h); s.slots.cap.host = S.host; M.event('attach', { who: s.name }); }));
    M.put(s, 'render', M.native('strategy.render', (M2, t, [v]) => { M.event('render', { who: s.name, args: [v] }); onRender(S, v); }));
    M.put(s, 'detach', M.native('strategy.detach', () => { M.event('detach', { who: s.name }); }));
    return s;
  });
}

export function elementClient(M, prop, mode, opts) {
  const W = makeWorld(M, { nodeEnv: undefined });
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const shared = mode.scope === 'shared';
  const mod = W.interp.load('src/IgniteElementFactory.ts');
  const factoryFn = W.interp.exported(mod, 'default');
  const E = [];                       // elements created by the page
  const hostEl = (S) => { const h = S.host && S.host.slots.host; return E.find((e) => e.el === h) ?? null; };
  let pending = null; let reent = 0; let creating = null; let failing = null;
  const nestedConnect = new Set(); const nestedChange = new Set();
  const createRenderStrategy = fakeStrategy(W, (S, v) => {
    const e = hostEl(S);
    const fv = M.fold(v);
    const st = isSym(fv) && fv.op === 'viewOf' ? fv.args[0] : NOPE;
    if (!e) { P('C07', 'no-render-before-connect', false, 'an element renders while it is being constructed'); return; }
    if (!e.connected) { if (e.everConnected) P('C08', 'no-render-after-disconnect', false, 'a disconnected element renders'); else P('C07', 'no-render-before-connect', false, 'an element renders before it is connected'); }
    e.renders.push(st); if (pending) e.send = pending;
    if (reent === 0 && opts.reentrant && e.connected) {
      const acts = [];
      for (const o of E) if (o !== e && o.connected) acts.push([`disconnect element ${o.i}`, () => doDisconnect(o)]);
      for (const o of E) if (o !== e && !o.connected && live(o)) acts.push([`connect element ${o.i}`, () => { nestedConnect.add(o); doConnect(o); }]);
      acts.push(['disconnect itself', () => doDisconnect(e)]);
      if (live(e)) acts.push(['change the state', () => { nestedChange.add(e.A); e.A.change(); }]);
      const c = M.choose(acts.length + 1, `while element ${e.i} renders: nothing / ${acts.map((a) => a[0]).join(' / ')}`);
      if (c > 0) { reent++; acts[c - 1][1](); }
    }
  });
  const createAdapter = M.native('createAdapter', () => { const A = fakeAdapter(W, mode.adapterScope); if (creating) creating.A = A; return A.obj; });
  if (mode.factoryScope !== undefined) M.put(createAdapter, 'scope', mode.factoryScope);
  const options = M.plain({ createRenderStrategy });
  if (mode.optScope !== undefined) M.put(options, 'scope', mode.optScope);
  if (mode.cleanup !== undefined) M.put(options, 'cleanup', mode.cleanup);
  const component = M.call(factoryFn, undefined, [createAdapter, options]);
  const renderer = M.native('renderer', (M2, t, [args]) => { const st = M.get(args, 'state'); const host = W.rendering; pending = M.get(args, 'send'); if (failing) { failing.hit = true; throw M.throwError('Error', 'the render function fails'); } return M.term('viewOf', [st], K.OBJ); });
  for (const n of ['x-a', 'x-b']) M.call(component, undefined, [n, renderer]);
  const defs = M.registry.slots.defs.map((d) => d.cls);
  if (defs.length !== 2) { P(prop, 'elements-defined', false, `defining two components registered ${defs.length} custom elements`); return; }
  W.lifecycle = []; const within = (e, f) => { W.lifecycle.push(e); try { return f(); } finally { W.lifecycle.pop(); } };
  const doConnect = (e) => { e.connected = true; e.everConnected = true; e.el.slots.connected = true; M.event('page', { who: 'connect ' + e.i }); within(e, () => M.callMethod(e.el, 'connectedCallback', [])); };
  const doDisconnect = (e, moved = false) => { // the callbacks of a moved element run when it is back in the document
    const A = e.A; const before = A.stops; const others = E.filter((x) => x !== e && x.connected && x.A === A).length;
    e.connected = false; e.el.slots.connected = moved; M.event('page', { who: 'disconnect ' + e.i });
    within(e, () => M.callMethod(e.el, 'disconnectedCallback', []));
    const d = A.stops - before;
    if (shared) {
      if (mode.cleanup === false) P('C09', 'cleanup-false-never-stops', d === 0, 'a shared adapter is stopped although cleanup is disabled');
      else if (others > 0) P('C09', 'not-stopped-while-in-use', d === 0, 'a shared adapter is stopped while another connected element uses it');
      else if (!e.tainted && !E.some((o) => o.connected && o.tainted)) P('C09', 'stopped-with-last-element', d === 1, `disconnecting the last connected element stops the shared adapter ${d} times (must be once)`);
    } else {
      if (!e.tainted && !e.stoppedOnce) P('C08', 'isolated-adapter-stopped', d === 1, `disconnecting an isolated element stops its adapter ${d} times (must be once)`);
      e.stoppedOnce = true;
    }
    P('C08', 'unsubscribed-on-disconnect', !A.subs.some((r) => belongs(r, e)), 'a disconnected element stays subscribed to its adapter');
    P('C08', 'no-send-listener-left', e.el.slots.lis.filter((l) => M.fold(l.type) === 'send').length === 0, 'a disconnected element keeps listening for send events');
  };
  // which element does an adapter subscription belong to: the closure that captures it
  const belongs = (r, e) => W.subOwner.get(r) === e;
  const live = (e) => e.A && !e.A.stopped && !e.tainted;

  for (let step = 0; step < opts.maxOps; step++) {
    cut(M, [M.registry.slots.defs.map((d) => d.cls), ...(W.adapters ?? []).map((a) => a.obj), ...E.map((e) => e.el), ...E.map((e) => e.send)],
      E.map((e) => [e.connected, e.everConnected, e.tainted, e.stoppedOnce, e.A?.n, Boolean(e.send)].join('/')).join(','));
    M.res.transitions++;
    const ops = [];
    if (E.length < (opts.elements ?? 2)) ops.push(['create']);
    for (const e of E) {
      if (!e.connected && (live(e) || !e.everConnected || !shared)) ops.push(['connect', e]);
      if (!e.connected && live(e) && opts.failing) ops.push(['connect with a failing renderer', e]);
      if (e.connected) ops.push(['disconnect', e]);
      if (e.connected && live(e) && (!shared || mode.cleanup === false || E.some((o) => o !== e && o.connected && o.A === e.A && !o.tainted))) ops.push(['move', e]);
      ops.push(['send event on', e], ['force render', e]);
      if (e.send) ops.push(['retained send of', e]);
    }
    for (const A of W.adapters ?? []) if (!A.stopped) ops.push(['change', A]);
    const [op, x] = ops[M.choose(ops.length, 'page: ' + ops.map((o) => o[0] + (o[1] ? ' ' + (o[1].i ?? o[1].n) : '')).join(' | '))];
    for (const e of E) { e.renders = []; e.was = e.connected; }
    const sends0 = (W.adapters ?? []).map((a) => a.sends.length);
    const stops0 = (W.adapters ?? []).map((a) => a.stops);
    reent = 0; nestedConnect.clear(); nestedChange.clear();
    const noStops = (why) => { (W.adapters ?? []).forEach((a, i) => { if (!reent) P('C09', 'stop-only-on-disconnect', a.stops === (stops0[i] ?? 0), `an adapter is stopped ${why}`); }); };
    switch (op) {
      case 'create': {
        const i = E.length; const which = defs[mode.twoNames ? i % 2 : 0];
        const e = { i, el: null, connected: false, everConnected: false, renders: [], send: null, A: null };
        creating = e;
        const pre = W.adapters?.length ?? 0;
        const el = within(e, () => M.construct(which, []));
        creating = null;
        e.el = M.fold(el);
        if (!e.A) e.A = W.adapters[W.adapters.length - 1];
        if (shared) { const ad = M.fold(M.get(el, 'adapter')); e.A = W.adapters.find((a) => a.obj === ad) ?? e.A; const liveAds = W.adapters.filter((a) => !a.stopped); P('C09', 'one-shared-adapter', liveAds.length === 1 && e.A === liveAds[0], `${liveAds.length} live adapters exist for one shared component`); } else {
          P('C09', 'isolated-own-adapter', W.adapters.length === pre + 1 && M.fold(M.get(el, 'adapter')) === e.A.obj, 'an isolated element does not get an adapter of its own');
        }
        E.push(e);
        P('C07', 'no-render-before-connect', true);
        noStops('because an element is created');
        break;
      }
      case 'connect': case 'move': {
        if (op === 'move') { doDisconnect(x, true); stops0.splice(0, stops0.length, ...W.adapters.map((a) => a.stops)); }
        const wasLive = live(x);
        if (!wasLive) x.tainted = true;
        doConnect(x);
        if (wasLive && x.connected) {
          if (!nestedChange.has(x.A)) P('C07', 'renders-on-connect', x.renders.length === 1, `connecting an element renders it ${x.renders.length} times (must be once)`);
          if (x.renders.length) P('C07', 'connect-renders-current-state', x.renders[x.renders.length - 1] === NOPE ? 'ne' : M.same(x.renders[x.renders.length - 1], x.A.cur), 'connecting an element renders something other than the current state');
        }
        noStops('because an element is connected');
        break;
      }
      case 'connect with a failing renderer': {
        failing = { hit: false };
        const r = attempt(M, () => doConnect(x));
        if (!failing.hit) P('C07', 'renders-on-connect', false, 'connecting an element does not call its renderer');
        failing = null;
        noStops('because an element fails to render');
        break;
      }
      case 'disconnect': doDisconnect(x); break;
      case 'change': {
        x.change();
        for (const e of E) if (e.was && e.connected && live(e) && e.A === x) {
          if (!nestedChange.has(x)) P('C07', 'renders-on-change', e.renders.length === 1, `a connected element renders ${e.renders.length} times for one state change`);
          if (e.renders.length) P('C07', 'change-renders-current-state', e.renders[e.renders.length - 1] === NOPE ? 'ne' : M.same(e.renders[e.renders.length - 1], x.cur), 'after a change a connected element shows a stale state');
        } else if (!e.was && !e.connected && !nestedConnect.has(e)) P('C08', 'no-render-after-disconnect', e.renders.length === 0, 'a disconnected element renders');
        noStops('because the state changed');
        break;
      }
      case 'send event on': {
        const kind = M.choose(4, 'event: CustomEvent with detail | plain Event | CustomEvent of another type | CustomEvent with detail whose default is prevented');
        const detail = M.sym('detail', KS.TRUTHY, { distinct: true });
        const ev = kind === 0 || kind === 3 ? mkEvent(M, 'send', { custom: true, detail, bubbles: true, cancelable: kind === 3 }) : kind === 1 ? mkEvent(M, 'send', {}) : mkEvent(M, 'other', { custom: true, detail });
        if (kind === 3) M.put(ev, 'defaultPrevented', true);
        dispatch(M, x.el, ev);
        const got = x.A.sends.slice(sends0[W.adapters.indexOf(x.A)]);
        if (x.connected && live(x) && kind !== 2) P('C10', 'event-forwarded-once', got.length === 1 && M.same(got[0], kind === 1 ? ev : detail) === 'eq', `a send event on a connected element reaches its adapter ${got.length} times or altered`);
        else if (kind === 2) P('C10', 'other-events-ignored', got.length === 0, 'an event of another type is forwarded to the adapter');
        else if (!x.connected) P('C08', 'no-send-while-disconnected', got.length === 0, 'a send event on a disconnected element reaches the adapter');
        W.adapters.forEach((a, i) => { if (a !== x.A) P('C10', 'own-adapter-only', a.sends.length === sends0[i], "an event on one element reaches another element's adapter"); });
        break;
      }
      case 'retained send of': {
        const kind = M.choose(2, 'argument: event object | CustomEvent with detail');
        const detail = M.sym('detail', KS.TRUTHY, { distinct: true });
        const ev = kind === 0 ? M.plain({ type: M.sym('event.type', K.STR) }) : mkEvent(M, 'any', { custom: true, detail });
        M.call(x.send, undefined, [ev]);
        const got = x.A.sends.slice(sends0[W.adapters.indexOf(x.A)]);
        if (x.connected && live(x)) P('C10', 'render-send-forwards', got.length === 1 && M.same(got[0], kind === 0 ? ev : detail) === 'eq', 'the send function given to the render function does not forward the event to its own adapter exactly once');
        else if (!x.connected) P('C08', 'no-send-while-disconnected', got.length === 0, 'a send function kept from an earlier render reaches the adapter of a disconnected element');
        W.adapters.forEach((a, i) => { if (a !== x.A) P('C10', 'own-adapter-only', a.sends.length === sends0[i], "the send function of one element reaches another element's adapter"); });
        break;
      }
      case 'force render': {
        M.callMethod(x.el, 'forceRender', []);
        if (!x.was) P('C08', 'no-forced-render-while-disconnected', x.renders.length === 0, 'forceRender() renders a disconnected element');
        else if (live(x)) { const last = x.renders[x.renders.length - 1]; P('C07', 'forced-render', (x.renders.length === 1 || nestedChange.has(x.A) && x.renders.length > 0) && last !== NOPE && M.same(last, x.A.cur) !== 'ne', 'forceRender() on a connected element does not render the current state'); }
        noStops('because of a forced render');
        break;
      }
    }
    // an element whose shared adapter was released by others is outside the contract from here on
    for (const e of E) if (shared && e.A?.stopped) e.tainted = true;
  }
  M.res.bounded = (M.res.bounded ?? 0) + 1;
  throw new Pruned('op bound');
}

/** renderer forms, element registration, constructor-time contract */
export function rendererForms(M, prop) {
  const W = makeWorld(M, {});
  const P = (p, rule, ok, msg) => { if (p === prop) M.check(rule, ok, msg); };
  const mod = W.interp.load('src/IgniteElementFactory.ts');
  const f = W.interp.exported(mod, 'default');
  const form = M.choose(3, 'renderer form: function / object / class');
  const scope = M.choose(2, 'scope: isolated / shared');
  const seen = []; const insts = [];
  let renderer;
  const rfn = (self) => (M2, t, [args]) => { seen.push({ self: M.fold(t), args: M.fold(args) }); return M.term('viewOf', [M.get(args, 'state')], K.OBJ); };
  if (form === 0) renderer = M.native('renderFn', rfn(null));
  else if (form === 1) { renderer = M.obj('Object', M.builtins.objectProto, 'rendererObject'); M.put(renderer, 'render', M.native('render', rfn())); } else {
    const proto = M.obj('Object'); M.put(proto, 'render', M.native('render', rfn()), false);
    renderer = M.native('RendererClass', () => { throw M.throwError('TypeError', "Class constructor cannot be invoked without 'new'"); }, { construct: (M2) => { const o = M2.obj('Object', proto); insts.push(o); return o; } });
    renderer.props.set('prototype', { v: proto, e: false, w: false, c: false });
  }
  const rendered = []; let strat = null;
  const A = []; const createAdapter = M.native('createAdapter', () => { const a = fakeAdapter(W); A.push(a); return a.obj; });
  const extraV = M.sym('extra', KS.ANY, { distinct: true });
  const hosts = []; const adArgs = [];
  const options = M.plain({ scope: scope ? 'shared' : 'isolated', createRenderStrategy: fakeStrategy(W, (S, v) => { strat = S; rendered.push(v); }),
    createAdditionalArgs: M.native('createAdditionalArgs', (M2, t, [a, h]) => { adArgs.push(M.fold(a)); hosts.push(M.fold(h)); return M.plain({ extra: extraV, state: M.sym('bogus state', K.OBJ, { distinct: true }), send: M.sym('bogus send', K.OBJ, { distinct: true }) }); }) });
  const component = M.call(f, undefined, [createAdapter, options]);
  M.call(component, undefined, ['x-el', renderer]);
  const again = attempt(M, () => M.call(component, undefined, ['x-el', renderer]));
  P('C09', 'duplicate-name-rejected', !again.ok, 'defining an element name twice is not rejected');
  const cls = M.registry.slots.defs[0].cls;
  P('C07', 'defined-under-given-name', M.fold(M.registry.slots.defs[0].name) === 'x-el', 'the element is registered under another name');
  const el = M.fold(M.construct(cls, []));
  P('C07', 'shadow-root-open', el.slots.shadow && M.log.some((e) => e.t === 'attachShadow' && M.fold(e.mode) === 'open'), 'the element has no open shadow root');
  M.callMethod(el, 'connectedCallback', []);
  P('C07', 'strategy-attached-to-shadow', strat !== null && strat.attached === 1 && strat.host === el.slots.shadow, 'the render strategy is not attached exactly once to the shadow root of the element');
  P('C07', 'renderer-called', seen.length === 1, `the renderer is called ${seen.length} times on connect`);
  if (!seen.length) return;
  const s = seen[0];
  P('C07', 'renderer-gets-state', M.same(M.get(s.args, 'state'), A[A.length - 1].cur), 'the renderer does not receive the current state');
  const view = M.term('viewOf', [M.get(s.args, 'state')], K.OBJ);
  P('C07', 'view-rendered', rendered.length === 1 && M.same(rendered[0], view) === 'eq', "the renderer's view is not what the strategy renders");
  if (form === 1) P('C07', 'renderer-this', s.self === renderer, 'the render method of an object renderer loses its receiver');
  if (form === 2) { P('C07', 'renderer-this', insts.includes(s.self), 'the render method of a class renderer is not called on an instance'); }
  P('C11', 'extra-args-passed', M.same(M.get(s.args, 'extra'), extraV), 'additional render arguments do not reach the renderer');
  P('C11', 'state-not-overridden', M.same(M.get(s.args, 'state'), A[A.length - 1].cur), 'an additional argument named state replaces the state');
  P('C11', 'send-not-overridden', isObj(M.fold(M.get(s.args, 'send'))), 'an additional argument named send replaces send');
  P('C11', 'args-built-for-own-host', hosts.length === 1 && hosts[0] === el && adArgs[0] === A[A.length - 1].obj, 'additional arguments are not built for the element and its own adapter');
  // a second instance
  const el2 = M.fold(M.construct(cls, [])); M.callMethod(el2, 'connectedCallback', []);
  P('C11', 'args-built-for-own-host', hosts.length === 2 && hosts[1] === el2, 'additional arguments of a second element are not built for it');
  if (form === 2) P('C07', 'renderer-instances', scope ? insts.length >= 1 : insts.length === 2, 'isolated elements share one renderer instance');
}
export function invalidRenderer(M, prop) {
  const W = makeWorld(M, {});
  const mod = W.interp.load('src/IgniteElementFactory.ts');
  const f = W.interp.exported(mod, 'default');
  const bad = M.sym('renderer', KS.PRIM);
  const component = M.call(f, undefined, [M.native('createAdapter', () => fakeAdapter(W).obj), M.plain({ scope: M.choose(2, 'scope') ? 'shared' : 'isolated', createRenderStrategy: fakeStrategy(W, () => {}) })]);
  const r = attempt(M, () => { M.call(component, undefined, ['x-el', bad]); const d = M.registry.slots.defs[0]; if (d) M.construct(d.cls, []); });
  if (prop === 'C07') M.check('invalid-renderer-rejected', !r.ok, 'a renderer that is neither a function nor an object is accepted');
}

export const MODES = {
  'isolated (default scope)': { scope: 'isolated' },
  'isolated (adapter factory says isolated)': { scope: 'isolated', factoryScope: 'isolated', adapterScope: 'isolated' },
  'shared (adapter factory says shared)': { scope: 'shared', factoryScope: 'shared', adapterScope: 'shared', twoNames: true },
  'shared (option)': { scope: 'shared', optScope: 'shared', cleanup: true },
  'shared, cleanup disabled': { scope: 'shared', optScope: 'shared', cleanup: false, twoNames: true },
};
export function runElement(prop, { ai, thorough }) {
  if (['C07', 'C08', 'C09', 'C10'].includes(prop)) for (const [name, mode] of Object.entries(MODES)) ai(`${name}: most-general page`, (M) => elementClient(M, prop, mode, { maxOps: thorough ? 14 : 10, reentrant: prop !== 'C10', failing: true, elements: thorough ? 3 : 2 }));
  if (['C07', 'C09', 'C11'].includes(prop)) ai('renderer forms', (M) => rendererForms(M, prop));
  if (prop === 'C07') ai('invalid renderer', (M) => invalidRenderer(M, prop));
}

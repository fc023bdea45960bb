// C32: what the Lit strategy hands to lit. C33: what the Ignite JSX strategy prints.
import { K, KS, isObj, show } from '../engine/values.mjs';
import { cut, attempt } from '../engine/world.mjs';
import { newElement, newShadow } from '../engine/dom.mjs';
import { world } from './config.mjs';
import { fakeAdapter } from './element.mjs';
import { rworld } from './renderer.mjs';

const ex = (I, file, name) => I.exported(I.load(file), name);
const litCalls = (M, from) => M.log.slice(from).filter((e) => e.t === 'lit-render');
const own = (root) => root.slots.kids.filter((k) => !(k.slots.dom === 'element' && k.slots.tag === 'link'));

/** two strategies and three roots, in every order of attach / detach / render */
function litClient(M, { maxOps }) {
  const W = world(M); const I = W.interp;
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const mk = ex(I, 'src/renderers/LitRenderStrategy.ts', 'createLitRenderStrategy');
  const S = [0, 1].map((i) => ({ i, s: M.fold(M.call(mk, undefined, [])), root: null }));
  P('own-strategy', S[0].s !== S[1].s, 'two elements share one Lit strategy');
  const roots = [0, 1].map((i) => { const r = newShadow(M, newElement(M, 'x-host' + i)); const k = newElement(M, 'b'); k.slots.parent = r; r.slots.kids.push(k); r.keep = k; return r; });
  for (let step = 0; step < maxOps; step++) {
    cut(M, [...S.flatMap((x) => [x.s, ...(x.view ? [x.view] : [])]), ...roots], S.map((x) => [x.root ? roots.indexOf(x.root) : '-', x.detached, !!x.view]).join());
    M.res.transitions++;
    const ops = S.flatMap((x) => [...roots.map((r, j) => ['attach', x, r, j]), ['render', x], ...(x.view ? [['render again', x]] : []), ...(x.root ? [['detach', x]] : [])]);
    const [op, x, r, j] = ops[M.choose(ops.length, 'page: ' + ops.map((o) => `${o[0]} ${o[1].i}${o[2] ? ' to root ' + o[3] : ''}`).join(' | '))];
    const from = M.log.length;
    if (op === 'attach') { M.callMethod(x.s, 'attach', [r]); x.root = r; x.detached = false; }
    else if (op === 'detach') { M.callMethod(x.s, 'detach', []); x.detached = true; }
    else {
      // lit compares nothing itself: the same template must reach it again (its directives and the root may have changed)
      const v = op === 'render' ? M.sym('view', KS.ANY, { distinct: true }) : x.view; if (x.root) x.view = v;
      const q = attempt(M, () => M.callMethod(x.s, 'render', [v]));
      const ls = litCalls(M, from);
      if (!x.root) { P('render-before-attach-rejected', !q.ok && isObj(M.fold(q.error)), 'rendering before the strategy is attached is not rejected'); P('render-before-attach-draws-nothing', ls.length === 0, 'rendering before the strategy is attached draws something'); continue; }
      if (x.detached) continue; // a detached strategy may draw or refuse
      P('render-succeeds', q.ok, () => `rendering through an attached Lit strategy throws ${show(q.error)}`);
      P('view-rendered-once', ls.length === 1, `a view is handed to lit ${ls.length} times`);
      if (ls.length !== 1) continue;
      P('view-unchanged', M.same(ls[0].args[0], v), 'lit is given something other than the view');
      P('into-own-root', M.fold(ls[0].args[1]) === x.root, () => `a view is drawn into ${show(ls[0].args[1])} instead of the shadow root of its element`);
    }
    if (!op.startsWith('render')) P('draws-on-render-only', litCalls(M, from).length === 0, `${op} draws something`);
    for (const r of roots) P('root-left-to-lit', own(r).length === 1 && own(r)[0] === r.keep, 'the Lit strategy itself adds or removes nodes of the shadow root');
  }
}
/** elements rendered by the Lit strategy */
function litElements(M) {
  const W = world(M); const I = W.interp;
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const mk = ex(I, 'src/renderers/LitRenderStrategy.ts', 'createLitRenderStrategy');
  const scope = ['isolated', 'shared'][M.choose(2, 'scope: isolated / shared')];
  const ads = [];
  const make = M.native('createAdapter', () => { const a = fakeAdapter(W, scope); ads.push(a); return a.obj; });
  const f = M.call(ex(I, 'src/IgniteElementFactory.ts', 'default'), undefined, [make, M.plain({ scope, createRenderStrategy: mk, cleanup: false })]);
  const views = [];
  M.call(f, undefined, ['x-lit', M.native('renderer', () => { const v = M.obj('Object', M.builtins.objectProto, 'view' + views.length); views.push(v); return v; })]);
  const cls = M.registry.slots.defs[0].cls;
  const els = [0, 1].map(() => M.fold(M.construct(cls, [])));
  for (let i = 0; i < 3; i++) {
    const e = els[M.choose(2, 'element 0 / 1')];
    const from = M.log.length, n = views.length;
    if (e.slots.connected && M.choose(2, 'disconnect and connect / force a render') === 1) M.callMethod(e, 'forceRender', []);
    else { if (e.slots.connected) { if (scope === 'isolated') return; e.slots.connected = false; M.callMethod(e, 'disconnectedCallback', []); } e.slots.connected = true; M.callMethod(e, 'connectedCallback', []); }
    const ls = litCalls(M, from); const vs = views.slice(n);
    P('view-rendered-once', ls.length === vs.length && ls.every((l, k) => M.fold(l.args[0]) === vs[k]), `${vs.length} views of an element lead to ${ls.length} lit renders`);
    P('into-own-root', ls.every((l) => M.fold(l.args[1]) === e.slots.shadow), 'a view is drawn outside the shadow root of its element');
  }
}

// ---------------------------------------------------------------- C33
const LEVELS = [['absent', null], ['off', null], ['warn', 'warn'], ['debug', 'debug'], ['verbose', null]];
function logging(M, { max }) {
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const [level, sink] = LEVELS[M.choose(LEVELS.length, 'logging: ' + LEVELS.map((l) => l[0]).join(' / '))];
  const forced = ['no', 'replace strategy', 'diffing disabled', 'nodiff host', 'hydrated host', 'denylisted host'];
  const fk = M.choose(forced.length, 'rebuilding forced by: ' + forced.join(' / '));
  const config = { ...(level === 'absent' ? {} : { logging: level }), ...(fk === 1 ? { strategy: 'replace' } : {}) };
  const W = rworld(M, { config, env: fk === 2 ? { IGNITE_DIFF_ENABLED: 'false' } : {}, hostAttrs: [] });
  const late = fk >= 3 && M.choose(2, 'opted out: before the strategy is attached / after it, before the first render') === 1;
  const I = W.interp;
  const register = ex(I, 'src/renderers/jsx/noDiffDenylist.ts', 'registerNoDiffDenylistTag');
  const opt = () => { if (fk === 3 || fk === 4) M.callMethod(shadow.slots.host, 'setAttribute', [fk === 3 ? 'data-ignite-nodiff' : 'data-ignite-hydrated', '']); if (fk === 5) M.call(register, undefined, ['x-host']); };
  const deny = M.choose(2, 'denylisted tag in the view: no / yes') === 1; if (deny) M.call(register, undefined, ['x-deny']);
  const h = (tag, kids) => M.call(W.jsx, undefined, [tag, M.plain({ class: M.sym('class', K.STR, { distinct: true, plain: true }), children: M.arr(kids) })]);
  const text = () => M.sym('text', K.STR, { distinct: true, plain: true });
  const TAGS = ['p', 'b', 'i', 'u'].slice(0, max);
  const nest = M.choose(2, 'list at the root / inside an element');
  const view = (tags) => { const ks = tags.map((t) => h(t, [text()])); if (deny) ks.unshift(h('x-deny', [])); return nest ? h('section', ks) : M.arr(ks); };
  const shadow = W.host(); if (!late) opt();
  const from0 = M.log.length;
  const s = W.strategy(shadow); if (late) opt();
  const prints = (from) => M.log.slice(from).filter((e) => e.t === 'console');
  const judge = (from, must, what) => {
    const ps = prints(from);
    if (!sink) { P('quiet-unless-enabled', ps.length === 0, () => `logging is ${level} but the renderer prints (${what})`); return; }
    P('at-the-configured-level', ps.every((e) => e.level === sink), () => `logging "${level}" prints with console.${ps.find((e) => e.level !== sink)?.level}`);
    if (must === true) P('fallback-reported', ps.length >= 1, `content is rebuilt without a report (${what})`);
    else if (must === false) P('nothing-to-report', ps.length === 0, `an in-place render is reported as a fallback (${what})`);
  };
  judge(from0, false, 'attaching');
  const n = 1 + M.choose(max, `first view: 1..${max} elements`); const first = TAGS.slice(0, n);
  let from = M.log.length; W.render(s, view(first)); judge(from, fk ? undefined : false, 'first render');
  const kinds = ['same shape', ...(n < max ? ['appended'] : []), ...(n > 1 ? ['last removed', 'first removed', 'reordered'] : [])];
  const k = kinds[M.choose(kinds.length, 'second view: ' + kinds.join(' / '))];
  const second = k === 'same shape' ? first : k === 'appended' ? TAGS.slice(0, n + 1) : k === 'last removed' ? first.slice(0, -1) : k === 'first removed' ? first.slice(1) : [...first].reverse();
  const v2 = view(second);
  from = M.log.length; W.render(s, v2);
  judge(from, fk ? true : k === 'same shape' || k === 'appended' ? deny : true, `${k}${deny ? ', denylisted tag' : ''}${fk ? ', ' + forced[fk] : ''}`);
  const hoisted = M.choose(2, 'third view: same shape / the very same view') === 1;
  const denied = () => { const f = (n) => { for (const c of n.slots.kids ?? []) { if (c.slots.dom === 'element' && M.fold(c.slots.tag) === 'x-deny') return c; const r = f(c); if (r) return r; } return null; }; return f(shadow); };
  const old = denied();
  from = M.log.length; W.render(s, hoisted ? v2 : view(second));
  judge(from, fk ? true : deny && hoisted && denied() === old ? undefined : deny, `third render, ${hoisted ? 'the very same view' : 'same shape'}`);
}

export function runStrategies(id, cx) {
  if (id === 'C32') { cx.ai('Lit strategy: every order of attach, detach and render', (M) => litClient(M, { maxOps: cx.thorough ? 8 : 5 })); cx.ai('elements rendered by Lit', litElements); }
  if (id === 'C33') cx.ai('reports of the Ignite JSX renderer', (M) => logging(M, { max: cx.thorough ? 4 : 3 }));
}

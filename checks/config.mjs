// C18-C20: global styles, configuration, choice of the renderer.
import { K, KS, deref, isSym, isObj, isPrim, show } from '../engine/values.mjs';
import { Interp } from '../engine/interp.mjs';
import { Pruned, NOPE } from '../engine/machine.mjs';
import { makeWorld, cut, attempt } from '../engine/world.mjs';
import { newElement, newShadow, attrOf, insert } from '../engine/dom.mjs';
import { fakeAdapter } from './element.mjs';

/** lit-html: rendering appends to / updates its own part of the container, other nodes stay */
export const litModule = (W) => {
  const M = W.M; const o = M.obj('Object', M.builtins.objectProto, 'lit-html');
  M.put(o, 'render', M.native('lit.render', (M2, t, [v, c]) => { M.event('lit-render', { who: 'lit', args: [v, c] }); return M.obj('Object'); }));
  M.put(o, 'html', M.native('html', () => M.obj('Object'))); M.put(o, 'svg', M.native('svg', () => M.obj('Object')));
  M.put(o, 'nothing', Symbol.for('lit-nothing')); M.put(o, 'noChange', Symbol.for('lit-noChange'));
  return o;
};
export const world = (M, o = {}) => { const W = makeWorld(M, { env: { NODE_ENV: 'production' }, async: true, ...o, externals: { 'lit-html': () => litModule(M.W), lit: () => litModule(M.W), ...(o.externals ?? {}) } }); return W; };
/** a second copy of the library on the same page */
export function copyOf(W) { const M = W.M; const first = W.interp; const I = new Interp(M, { externals: (spec) => (W.ext[spec] ? W.ext[spec](M, spec) : undefined) }); M.interp = first; return { load: (f) => { M.interp = I; try { return I.load(f); } finally { M.interp = first; } }, exported: (m, n) => I.exported(m, n) }; }
const warnings = (M, from = 0) => M.log.slice(from).filter((e) => e.t === 'console' && (e.level === 'warn' || e.level === 'error'));
const ex = (I, file, name) => I.exported(I.load(file), name);

// ---------------------------------------------------------------- C18
const linksOf = (M, root) => root.slots.kids.filter((k) => k.slots.dom === 'element' && M.fold(k.slots.tag) === 'link' && !k.slots.pageOwn);
const GOOD = ['./theme.css', '/a/b/theme.scss', ' ./theme.css ', './theme.css?v=1', 'https://x.test/theme.css?v=1#top', './theme.scss#a', './a.b/theme.min.css'];
const BAD = ['./theme.less', './theme.css.map', './theme?x=a.css', './theme#a.scss', 'body { color: red }', './csss', 'theme.js', './theme.CSSX'];
function styleForm(M, forms) {
  const c = M.choose(forms.length, 'styles: ' + forms.join(' / '));
  switch (forms[c]) {
    case 'path': { const i = M.choose(GOOD.length, 'path ' + GOOD.join(' , ')); return { v: GOOD[i], href: GOOD[i] }; }
    case 'not a stylesheet path': { const i = M.choose(BAD.length, 'text ' + BAD.join(' , ')); return { v: BAD[i], href: null }; }
    default: {
      const href = M.sym('href', K.STR, { distinct: true, plain: true });
      const o = M.plain({ href }); const r = { v: o, href };
      for (const k of ['integrity', 'crossOrigin']) if (M.choose(2, k + ': absent / given')) { r[k] = M.sym(k, K.STR, { distinct: true, plain: true }); M.put(o, k, r[k]); }
      return r;
    }
  }
}
export function stylesClient(M, { forms, maxOps, strategies, setBy }) {
  const W = world(M); const I = W.interp;
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const setGlobalStyles = ex(I, 'src/globalStyles.ts', 'setGlobalStyles');
  const inject = ex(I, 'src/injectStyles.ts', 'default'); const flush = ex(I, 'src/injectStyles.ts', 'flushPendingStyles');
  const define = ex(I, 'src/config.ts', 'defineIgniteConfig');
  const mk = { lit: () => M.call(ex(I, 'src/renderers/LitRenderStrategy.ts', 'createLitRenderStrategy'), undefined, []), jsx: () => M.call(ex(I, 'src/renderers/jsx/IgniteJsxRenderStrategy.ts', 'createIgniteJsxRenderStrategy'), undefined, []) };
  const jsx = ex(I, 'src/jsx/jsx-runtime.ts', 'jsx');
  const strat = strategies[M.choose(strategies.length, 'attached by: ' + strategies.join(' / '))];
  const S = styleForm(M, forms);
  const how = setBy[M.choose(setBy.length, 'configured by: ' + setBy.join(' / '))];
  const R = [0, 1].map((i) => ({ i, root: newShadow(M, newElement(M, 'x-host')), s: null, attached: false, must: false }));
  let set = false;
  { const c = M.choose(3, 'the hosts carry: nothing / data-ignite-hydrated / data-ignite-nodiff'); if (c) for (const r of R) M.callMethod(r.root.slots.host, 'setAttribute', [c === 1 ? 'data-ignite-hydrated' : 'data-ignite-nodiff', '']); }
  if (M.choose(2, 'the roots hold: nothing / a stylesheet link of the page') === 1) for (const r of R) { const l = newElement(M, 'link'); l.slots.pageOwn = true; M.set(l, 'rel', 'stylesheet'); M.set(l, 'href', '/own.css'); insert(M, r.root, l); }
  for (let step = 0; step < maxOps; step++) {
    cut(M, [...R.map((r) => r.root), ...R.map((r) => r.s), inject, flush, M.globalObj], [set, strat, how, ...R.map((r) => [r.attached, r.must])].join());
    M.res.transitions++;
    const ops = R.flatMap((r) => [['attach', r], ...(r.attached && r.s ? [['render', r], ['detach and attach', r], ['new strategy on', r]] : [])]);
    if (!set) ops.push(['configure']); ops.push(['flush']);
    const [op, r] = ops[M.choose(ops.length, 'page: ' + ops.map((o) => o[0] + (o[1] ? ' root ' + o[1].i : '')).join(' | '))];
    const attach = () => { if (strat === 'injectStyles') M.call(inject, undefined, [r.root]); else { r.s ??= mk[strat](); M.callMethod(r.s, 'attach', [r.root]); } r.attached = true; if (set) r.must = true; };
    if (op === 'attach') attach();
    else if (op === 'detach and attach') { M.callMethod(r.s, 'detach', []); attach(); }
    else if (op === 'new strategy on') { r.s = null; attach(); }
    else if (op === 'render') M.callMethod(r.s, 'render', [strat === 'jsx' ? M.call(jsx, undefined, ['p', M.plain({ children: M.sym('text', K.STR, { distinct: true, plain: true }) })]) : M.obj('Object')]);
    else if (op === 'configure') {
      if (how === 'setGlobalStyles') M.call(setGlobalStyles, undefined, [S.v]);
      else M.call(define, undefined, [M.plain({ [how === 'defineIgniteConfig (deprecated key)' ? 'globalStyles' : 'styles']: S.v })]);
      set = true;
    } else { M.call(flush, undefined, []); if (set) for (const q of R) if (q.attached) q.must = true; }
    for (const q of R) {
      const ls = linksOf(M, q.root); const good = S.href !== null;
      if (!good) { P('no-link-for-invalid-path', ls.length === 0, `a style string that is not a stylesheet path (${show(S.v)}) injects a link`); continue; }
      P('at-most-one-link', ls.length <= 1, `${ls.length} stylesheet links in one shadow root`);
      if (!set || !q.attached) P('no-link-unconfigured', ls.length === 0, 'a stylesheet link is injected before styles are configured or the root is attached');
      if (q.must) P('link-present', ls.length === 1, `a shadow root holds ${ls.length} stylesheet links after ${op} (must be exactly one)`);
      for (const l of ls) {
        P('link-rel', attrOf(M, l, 'rel') === 'stylesheet', 'the injected link is not a stylesheet link');
        P('link-href', M.same(attrOf(M, l, 'href'), S.href), () => `the injected link points to ${show(attrOf(M, l, 'href'))} instead of ${show(S.href)}`);
        for (const k of ['integrity', 'crossOrigin']) { const a = attrOf(M, l, k.toLowerCase()); const f = a === undefined ? undefined : M.fold(a); P('link-' + k, S[k] === undefined ? f === undefined || f === '' || f === null : f === undefined ? false : M.same(f, S[k]), () => `${k} of the injected link is ${show(f)} where the configuration says ${show(S[k])}`); }
      }
    }
  }
}
/** styles configured again with another stylesheet: a root never gets a second link, a root without one gets the new styles */
function restyled(M, { strategies, maxOps }) {
  const W = world(M); const I = W.interp;
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const setGlobalStyles = ex(I, 'src/globalStyles.ts', 'setGlobalStyles'); const define = ex(I, 'src/config.ts', 'defineIgniteConfig');
  const inject = ex(I, 'src/injectStyles.ts', 'default'); const flush = ex(I, 'src/injectStyles.ts', 'flushPendingStyles');
  const mk = { lit: () => M.call(ex(I, 'src/renderers/LitRenderStrategy.ts', 'createLitRenderStrategy'), undefined, []), jsx: () => M.call(ex(I, 'src/renderers/jsx/IgniteJsxRenderStrategy.ts', 'createIgniteJsxRenderStrategy'), undefined, []) };
  const strat = strategies[M.choose(strategies.length, 'attached by: ' + strategies.join(' / '))];
  const how = M.choose(2, 'configured by: setGlobalStyles / defineIgniteConfig');
  const form = M.choose(2, 'styles: paths / objects');
  const hrefs = ['/one.css', '/two.css'];
  const R = [0, 1].map((i) => ({ i, root: newShadow(M, newElement(M, 'x-host')), s: null, attached: false, must: false, may: null }));
  let n = 0;
  for (let step = 0; step < maxOps; step++) {
    cut(M, [...R.map((r) => r.root), ...R.map((r) => r.s), inject, flush, M.globalObj], [n, strat, how, form, ...R.map((r) => [r.attached, r.must, r.may])].join());
    M.res.transitions++;
    const ops = [...R.map((r) => ['attach', r]), ...(n < 2 ? [['configure']] : []), ['flush']];
    const [op, r] = ops[M.choose(ops.length, 'page: ' + ops.map((o) => o[0] + (o[1] ? ' root ' + o[1].i : '')).join(' | '))];
    if (op === 'attach') { if (strat === 'injectStyles') M.call(inject, undefined, [r.root]); else { r.s ??= mk[strat](); M.callMethod(r.s, 'attach', [r.root]); } r.attached = true; if (n) r.must = true; }
    else if (op === 'configure') { const v = form ? M.plain({ href: hrefs[n] }) : hrefs[n]; n++; if (how) M.call(define, undefined, [M.plain({ styles: v })]); else M.call(setGlobalStyles, undefined, [v]); }
    else { M.call(flush, undefined, []); if (n) for (const q of R) if (q.attached) q.must = true; }
    for (const q of R) {
      const ls = linksOf(M, q.root);
      P('at-most-one-link', ls.length <= 1, `${ls.length} stylesheet links in one shadow root after the styles were configured again`);
      if (q.must) P('link-present', ls.length === 1, `a shadow root holds ${ls.length} stylesheet links after ${op} (must be exactly one)`);
      if (ls.length !== 1) continue;
      const first = q.may === null; if (first) q.may = n;
      const h = M.fold(attrOf(M, ls[0], 'href'));
      P('link-href', h === hrefs[n - 1] || (!first && hrefs.indexOf(h) >= 0), () => `the injected link points to ${show(h)} instead of ${hrefs[n - 1]}`);
    }
  }
}
function arraysRejected(M) {
  const W = world(M); const I = W.interp;
  const setGlobalStyles = ex(I, 'src/globalStyles.ts', 'setGlobalStyles'); const get = ex(I, 'src/globalStyles.ts', 'getGlobalStyles');
  const define = ex(I, 'src/config.ts', 'defineIgniteConfig');
  const before = [undefined, './a.css'][M.choose(2, 'styles before: none / a path')];
  if (before) M.call(setGlobalStyles, undefined, [before]);
  const arr = M.arr(['./b.css', './c.css'].slice(0, M.choose(3, 'array length')));
  const how = M.choose(2, 'setGlobalStyles / defineIgniteConfig');
  const r = attempt(M, () => (how === 0 ? M.call(setGlobalStyles, undefined, [arr]) : M.call(define, undefined, [M.plain({ styles: arr })])));
  M.check('array-rejected', !r.ok, 'array styles are accepted');
  M.check('array-not-applied', M.same(M.call(get, undefined, []), before), 'rejected array styles are applied all the same');
}

// ---------------------------------------------------------------- C19
const snapshotOf = (o) => [['(flags)', [o.ext, ...[...o.props.values()].map((d) => [d.w, d.c, d.e].join())].join()], ...[...o.props].map(([k, d]) => [k, d.v])];
const sameSnapshot = (a, b) => a.length === b.length && a.every(([k, v], i) => b[i][0] === k && deref(b[i][1]) === deref(v));
const ABSENT = Symbol('absent');
function anyConfig(M, rich) {
  const o = M.obj('Object', M.builtins.objectProto, 'the user config'); const c = { o };
  const pick = (k, opts) => { const i = M.choose(opts.length, `${k}: ${opts.map((x) => (x === ABSENT ? 'absent' : show(x))).join(' / ')}`); c[k] = opts[i]; if (opts[i] !== ABSENT) M.put(o, k, opts[i]); };
  const s = () => (rich ? M.sym('style path', K.STR, { distinct: true, plain: true }) : './theme.css');
  pick('styles', [ABSENT, s(), M.plain({ href: s() }), ...(rich ? [undefined, ''] : [])]);
  pick('globalStyles', [ABSENT, s(), ...(rich ? [M.plain({ href: s() }), undefined, ''] : [])]);
  pick('renderer', [ABSENT, 'lit', 'ignite-jsx', M.sym('other renderer', K.STR, { distinct: true, plain: true }), ...(rich ? [undefined, 'toString', 'LIT'] : [])]);
  if (rich) {
    pick('strategy', [ABSENT, M.sym('strategy', KS.ANY, { distinct: true }), undefined]);
    pick('logging', [ABSENT, M.sym('logging', KS.ANY, { distinct: true }), undefined]);
    pick('other', [ABSENT, M.sym('other', KS.ANY, { distinct: true })]);
  }
  return c;
}
/** compares a published configuration with the specification */
function normalised(M, P, c, res, from) {
  res = M.fold(res);
  P('returns-config', isObj(res), 'no configuration object is returned');
  if (!isObj(res)) return;
  const own = (k) => res.props.has(k); const val = (k) => M.fold(M.get(res, k));
  const ambiguous = c.styles === undefined && c.globalStyles !== ABSENT;
  const wantStyles = c.styles !== ABSENT ? c.styles : c.globalStyles;
  if (!ambiguous) {
    if (wantStyles === ABSENT || wantStyles === undefined) P('styles-normalised', val('styles') === undefined, () => `styles is ${show(val('styles'))} although none are configured`);
    else P('styles-normalised', M.same(val('styles'), wantStyles), () => `styles is ${show(val('styles'))} instead of ${show(wantStyles)}`);
  }
  const rd = c.renderer; const okR = rd === 'lit' || rd === 'ignite-jsx';
  if (rd === ABSENT) P('renderer-normalised', val('renderer') === undefined, () => `renderer is ${show(val('renderer'))} although none is configured`);
  else P('renderer-normalised', M.same(val('renderer'), okR ? rd : 'lit'), () => `renderer ${show(rd)} is normalised to ${show(val('renderer'))}`);
  for (const k of ['strategy', 'logging']) if (k in c) P(k + '-as-given', c[k] === ABSENT ? val(k) === undefined : M.same(val(k), c[k]), () => `${k} is ${show(val(k))} instead of ${c[k] === ABSENT ? 'absent' : show(c[k])}`);
  const extra = [...res.props.keys()].map(deref).filter((k) => !['styles', 'renderer', 'strategy', 'logging'].includes(k));
  P('nothing-else', extra.length === 0 || extra.every((k) => M.fold(M.get(res, k)) === undefined), () => `the normalised configuration also holds ${extra.map(show).join()}`);
  const ws = warnings(M, from); const deprecated = c.styles === ABSENT && c.globalStyles !== ABSENT && c.globalStyles !== undefined; const unknown = rd !== ABSENT && !okR;
  if (!ambiguous) P('warnings', ws.length === (deprecated ? 1 : 0) + (unknown ? 1 : 0), () => `${ws.length} warnings for a configuration with ${deprecated ? 'deprecated' : 'no deprecated'} styles and ${unknown ? 'an unsupported' : 'a supported or no'} renderer`);
}
export function defineClient(M) {
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const dom = M.choose(2, 'runtime: browser / server') === 0;
  const W = world(M, { dom }); const I = W.interp; const C2 = copyOf(W);
  const define = ex(I, 'src/config.ts', 'defineIgniteConfig'); const get = ex(I, 'src/config.ts', 'getIgniteConfig');
  const getS = ex(I, 'src/globalStyles.ts', 'getGlobalStyles');
  P('nothing-before-define', M.fold(M.call(get, undefined, [])) === undefined, 'a configuration is published before one is defined');
  const first = M.choose(2, 'an earlier configuration: no / yes') === 1;
  if (first) M.call(define, undefined, [M.plain({ styles: './old.css', renderer: 'lit', strategy: 'old', logging: 'old' })]);
  const c = anyConfig(M, true); const before = snapshotOf(c.o);
  const from = M.log.length;
  const res = M.call(define, undefined, [c.o]);
  normalised(M, P, c, res, from);
  P('argument-untouched', sameSnapshot(before, snapshotOf(c.o)), 'defineIgniteConfig modifies its argument');
  const pub = M.call(get, undefined, []);
  P('published', M.fold(pub) === M.fold(res), 'getIgniteConfig does not return the configuration defineIgniteConfig returned');
  const get2 = C2.exported(C2.load('src/config.ts'), 'getIgniteConfig');
  P('published-process-wide', M.fold(M.call(get2, undefined, [])) === M.fold(res), 'another copy of the library does not see the configuration');
  const ws = c.styles !== ABSENT ? c.styles : c.globalStyles;
  if (ws !== ABSENT && ws !== undefined) P('styles-applied', M.same(M.call(getS, undefined, []), ws), () => `the global styles are ${show(M.call(getS, undefined, []))} instead of ${show(ws)}`);
  else if (ws === ABSENT && !first) P('styles-applied', M.fold(M.call(getS, undefined, [])) === undefined, 'global styles are set although none are configured');
}
export function loadClient(M) {
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const dom = M.choose(2, 'runtime: browser / server') === 0;
  const W = world(M, { dom }); const I = W.interp;
  const load = ex(I, 'src/config/loadIgniteConfig.ts', 'loadIgniteConfig'); const get = ex(I, 'src/config.ts', 'getIgniteConfig');
  const regs = () => M.interp.iterateAll(M.call(ex(I, 'src/renderers/resolveConfiguredRenderStrategy.ts', 'getRegisteredRenderStrategies'), undefined, [])).map((x) => M.fold(x));
  let root = null;
  if (dom) { root = newShadow(M, newElement(M, 'x-host')); M.call(ex(I, 'src/injectStyles.ts', 'default'), undefined, [root]); }
  const form = M.choose(7, 'module: {default: config} / config / {default: config, other exports} / {default: not an object} / a primitive / the loader fails / frozen namespace');
  let c = null, mod;
  if ([0, 1, 2, 6].includes(form)) { c = anyConfig(M, false); mod = form === 1 ? c.o : M.plain({ default: c.o }); if (form === 2) { M.put(mod, '__esModule', true); M.put(mod, 'renderer', 'lit'); } if (form === 6) { mod.ext = false; for (const d of mod.props.values()) { d.w = false; d.c = false; } } }
  else if (form === 3) mod = M.plain({ default: [undefined, null, 'x', 0, true][M.choose(5, 'undefined / null / "x" / 0 / true')], renderer: 'lit', styles: './x.css' });
  else if (form === 4) mod = [undefined, null, 'x', 0, true][M.choose(5, 'undefined / null / "x" / 0 / true')];
  const before = c && snapshotOf(c.o);
  let calls = 0; const boom = M.obj('Error');
  const loader = M.native('loadConfig', () => { calls++; return form === 5 ? M.builtins.promiseRejected(M, boom) : M.builtins.promiseResolved(M, mod); });
  M.work = [];
  const from = M.log.length;
  const r = attempt(M, () => M.builtins.awaitValue(M, M.call(load, undefined, [loader])));
  P('loader-called-once', calls === 1, `the config loader is called ${calls} times`);
  if (form === 5) { P('loader-failure-reported', !r.ok && M.fold(r.error) === boom, 'a failing config loader is not reported'); P('ignored-publishes-nothing', M.fold(M.call(get, undefined, [])) === undefined, 'a failing loader publishes a configuration'); return; }
  P('load-does-not-fail', r.ok, () => `loading fails with ${show(r.error)}`);
  if (!r.ok) return;
  const left = M.work.filter((t) => !t.done);
  P('renderer-loaded-before-resolve', left.length === 0, () => `loadIgniteConfig resolves before the ${left[0].label} has finished`);
  if (!c) {
    P('ignored', M.fold(r.value) === undefined, 'something that is not a configuration is returned as one');
    P('ignored-publishes-nothing', M.fold(M.call(get, undefined, [])) === undefined, 'something that is not a configuration is published');
    return;
  }
  normalised(M, P, c, r.value, from);
  P('published', M.fold(M.call(get, undefined, [])) === M.fold(r.value), 'the loaded configuration is not published');
  P('argument-untouched', sameSnapshot(before, snapshotOf(c.o)), 'loading modifies the user’s configuration');
  const reg = regs();
  if (dom) {
    const want = c.renderer === ABSENT || c.renderer === 'ignite-jsx' ? 'ignite-jsx' : 'lit';
    P('renderer-loaded', reg.includes(want), `after loading the configuration the renderer "${want}" is not registered (registered: ${reg.join() || 'none'})`);
    const st = c.styles !== ABSENT ? c.styles : c.globalStyles;
    if (st !== ABSENT) P('pending-styles-flushed', linksOf(M, root).length === 1, 'a shadow root attached before the configuration was loaded gets no stylesheet link');
  } else P('no-renderer-on-server', reg.length === 0, `a renderer (${reg.join()}) is loaded on a server`);
}

// ---------------------------------------------------------------- C20
export function strategyClient(M, { viaFactory }) {
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const W = world(M); const I = W.interp;
  const R = 'src/renderers/resolveConfiguredRenderStrategy.ts';
  const define = ex(I, 'src/config.ts', 'defineIgniteConfig');
  const factoryFn = viaFactory ? ex(I, 'src/IgniteElementFactory.ts', 'default') : null;
  const copy = copyOf(W);
  const other = M.choose(2, 'strategies registered by: this copy / another copy of the library') === 1;
  const cm = other ? copy.load(R) : I.load(R); const cx = other ? copy : I;
  const register = cx.exported(cm, 'registerRenderStrategy');
  if (viaFactory) M.call(cx.exported(cm, 'clearRegisteredRenderStrategiesForTests'), undefined, []);
  const made = [];
  const mkF = (name) => M.native('factory ' + name, () => {
    const s = M.obj('Object', M.builtins.objectProto, name + made.length); const rec = { name, s, host: null, renders: 0 }; made.push(rec);
    M.put(s, 'attach', M.native('attach', (M2, t, [h]) => { rec.host = M.fold(h).slots.host; })); M.put(s, 'render', M.native('render', () => { rec.renders++; })); M.put(s, 'detach', M.native('detach', () => undefined)); return s;
  });
  const subsets = [[], ['ignite-jsx'], ['lit'], ['ignite-jsx', 'lit'], ['lit', 'ignite-jsx'], ['custom'], ['custom', 'ignite-jsx'], ['ignite-jsx', 'custom'], ['ignite-jsx', 'custom', 'lit']];
  const names = subsets[M.choose(subsets.length, 'registered: ' + subsets.map((s) => s.join('+') || 'none').join(' / '))];
  const F = Object.fromEntries(names.map((n) => [n, mkF(n)]));
  const again = names.length && M.choose(2, 'registered once / registered again with another factory') === 1;
  for (const n of names) { if (again) M.call(register, undefined, [n, mkF('stale')]); M.call(register, undefined, [n, F[n]]); }
  const conf = [null, 'none', 'lit', 'ignite-jsx'][M.choose(4, 'configured renderer: no config / none / lit / ignite-jsx')];
  if (conf) M.call(define, undefined, [conf === 'none' ? M.plain({}) : M.plain({ renderer: conf })]);
  const want = conf && conf !== 'none' ? conf : 'ignite-jsx';
  const expect = names.includes(want) ? [want] : names.includes('ignite-jsx') ? ['ignite-jsx'] : names;
  const from = M.log.length;
  if (!viaFactory) {
    const r = attempt(M, () => M.call(ex(I, R, 'resolveConfiguredRenderStrategy'), undefined, []));
    if (!names.length) { P('error-when-none', !r.ok && isObj(M.fold(r.error)) && M.fold(r.error).cls === 'Error', 'with no strategy registered resolving one does not fail with an error'); return; }
    P('resolves', r.ok, () => `resolving the render strategy fails with ${show(r.error)}`);
    P('configured-strategy', expect.some((n) => M.fold(r.value) === F[n]), () => `renderer ${want} with ${names.join('+')} registered resolves to ${show(r.value)}`);
  } else {
    const explicit = M.choose(2, 'explicit strategy: no / yes') === 1;
    const mine = mkF('explicit');
    const options = M.plain({}); if (explicit) M.put(options, 'createRenderStrategy', mine);
    const scope = ['isolated', 'shared'][M.choose(2, 'scope: isolated / shared')]; M.put(options, 'scope', scope);
    const r = attempt(M, () => M.call(factoryFn, undefined, [M.native('createAdapter', () => fakeAdapter(W).obj), options]));
    if (!names.length) { if (!explicit) P('error-when-none', !r.ok && isObj(M.fold(r.error)) && M.fold(r.error).cls === 'Error', 'with no strategy registered creating a component factory does not fail with an error'); return; }
    P('resolves', r.ok, () => `creating the factory fails with ${show(r.error)}`);
    if (!r.ok) return;
    const nw = M.log.length;
    if (M.choose(2, 'afterwards: nothing / the configuration and the registry change') === 1) { M.call(define, undefined, [M.plain({ renderer: want === 'lit' ? 'ignite-jsx' : 'lit' })]); for (const n of ['lit', 'ignite-jsx']) M.call(register, undefined, [n, mkF('later')]); }
    M.call(r.value, undefined, ['x-a', M.native('renderer', () => M.obj('Object'))]);
    const cls = M.registry.slots.defs[0].cls; made.length = 0;
    const els = [0, 1].map(() => M.fold(M.construct(cls, [])));
    P('own-strategy', made.length === 2 && els.every((e, i) => made[i].host === e), `two elements have ${made.length} strategy instances, or share one`);
    for (const m of made) P(explicit ? 'explicit-strategy-wins' : 'strategy-fixed-at-creation', explicit ? m.name === 'explicit' : expect.includes(m.name), `an element is rendered by "${m.name}" (renderer ${want}, registered ${names.join('+')}${explicit ? ', explicit strategy given' : ''})`);
    for (const e of els) { e.slots.connected = true; M.callMethod(e, 'connectedCallback', []); }
    P('own-strategy', made.length === 2 && made.every((m) => m.renders >= 1), 'an element does not render through its own strategy');
    if (explicit) return;
    M.log.length = nw;
  }
  const ws = warnings(M, from);
  if (names.includes(want)) P('no-needless-warning', ws.length === 0, 'a warning although the renderer is registered');
  else if (want !== 'ignite-jsx') P('fallback-warns', ws.length === 1 && ws[0].args.some((a) => { a = M.fold(a); return typeof a === 'string' && a.includes(want); }), `falling back from the unregistered renderer "${want}" does not warn naming it`);
}

export function runConfig(id, cx) {
  if (id === 'C18') {
    const T = cx.thorough ? 9 : 6;
    cx.ai('styles: links per shadow root, two roots (style objects)', (M) => stylesClient(M, { forms: ['object'], maxOps: T, strategies: ['lit', 'injectStyles'], setBy: ['setGlobalStyles', 'defineIgniteConfig', 'defineIgniteConfig (deprecated key)'] }));
    cx.ai('styles: links per shadow root (Ignite JSX)', (M) => stylesClient(M, { forms: ['object'], maxOps: cx.thorough ? 7 : 5, strategies: ['jsx'], setBy: ['setGlobalStyles'] }));
    cx.ai('styles: stylesheet paths and other strings', (M) => stylesClient(M, { forms: ['path', 'not a stylesheet path'], maxOps: cx.thorough ? 6 : 4, strategies: ['injectStyles', 'lit'], setBy: ['setGlobalStyles', 'defineIgniteConfig'] }));
    cx.ai('styles: configured again', (M) => restyled(M, { maxOps: cx.thorough ? 8 : 6, strategies: ['injectStyles', 'lit', 'jsx'] }));
    cx.ai('styles: arrays are rejected', arraysRejected);
  }
  if (id === 'C19') { cx.ai('defineIgniteConfig: every option subset', defineClient); cx.ai('loadIgniteConfig: every module form', loadClient); }
  if (id === 'C20') { cx.ai('resolveConfiguredRenderStrategy: every registry and configuration', (M) => strategyClient(M, { viaFactory: false })); cx.ai('igniteElementFactory: strategy of the elements', (M) => strategyClient(M, { viaFactory: true })); }
}

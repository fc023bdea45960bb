// C14-C17, C29: the Ignite JSX renderer.  Views are generated as (abstract JSX value, specification of the DOM it denotes).
import { K, KS, deref, isSym, isObj, isPrim, show, kindsOf } from '../engine/values.mjs';
import { Inconclusive, Pruned } from '../engine/machine.mjs';
import { makeWorld, attempt } from '../engine/world.mjs';
import { newElement, newShadow, insert, SVG, XHTML } from '../engine/dom.mjs';

export function rworld(M, { env = {}, config = null, hostTag = 'x-host', hostAttrs = [] } = {}) {
  const W = makeWorld(M, { env: { NODE_ENV: 'production', ...env } });
  const I = W.interp;
  const rt = I.load('src/jsx/jsx-runtime.ts');
  W.jsx = I.exported(rt, 'jsx'); W.jsxs = I.exported(rt, 'jsxs'); W.Fragment = I.exported(rt, 'Fragment');
  if (config) { const c = I.load('src/config.ts'); M.call(I.exported(c, 'defineIgniteConfig'), undefined, [M.plain(config)]); }
  W.sm = I.load('src/renderers/jsx/IgniteJsxRenderStrategy.ts');
  W.mk = I.exported(W.sm, 'createIgniteJsxRenderStrategy');
  W.host = (tag = hostTag, attrs = hostAttrs) => { const h = newElement(M, tag); for (const a of attrs) h.slots.attrs.push({ k: a, v: '' }); return newShadow(M, h); };
  W.strategy = (shadow) => { const s = M.call(W.mk, undefined, []); M.callMethod(s, 'attach', [shadow]); return s; };
  W.render = (s, v) => M.callMethod(s, 'render', [v]);
  return W;
}
/** the node that holds the rendered content */
export function contentOf(M, shadow) {
  const ks = shadow.slots.kids.filter((k) => !(k.slots.dom === 'element' && ['link', 'style'].includes(M.fold(k.slots.tag))));
  const els = ks.filter((k) => k.slots.dom === 'element');
  if (ks.length === 1 && els.length === 1 && M.fold(els[0].slots.tag) === 'ignite-jsx-root') return els[0];
  if (els.filter((k) => M.fold(k.slots.tag) === 'ignite-jsx-root').length > 1) return null;
  return els.find((k) => M.fold(k.slots.tag) === 'ignite-jsx-root') ?? shadow;
}
const h = (W, type, props = {}, kids = []) => { const M = W.M; const p = M.plain(props); if (kids.length) M.put(p, 'children', kids.length === 1 ? kids[0] : M.arr(kids)); return M.call(kids.length > 1 ? W.jsxs : W.jsx, undefined, [type, p]); };

// ---- specification trees: { t:'el', tag, ns, kids } | { t:'leaf', v } (any child value) | { t:'none' }
const el = (W, tag, kids, props = {}, ns = XHTML) => ({ v: h(W, tag, props, kids.map((k) => k.v)), spec: [{ t: 'el', tag, ns, kids: kids.flatMap((k) => k.spec) }] });
const leaf = (v) => ({ v, spec: [{ t: 'leaf', v }] });
/** the visible items a specification denotes, adjacent text merged */
function want(M, spec) {
  const out = [];
  for (const s of spec) {
    if (s.t === 'el') { out.push(s); continue; }
    if (s.t === 'none') continue;
    if (!M.hasKind(s.v, KS.STRING | KS.NUMBER, `${show(s.v)} is a string or number`)) continue;
    const txt = M.toStr(s.v);
    if (M.fold(txt) === '') continue;
    const last = out[out.length - 1];
    if (last && last.t === 'text') last.v = M.term('cat', [last.v, txt]); else out.push({ t: 'text', v: txt });
  }
  return out;
}
function got(M, node) {
  const out = [];
  for (const k of node.slots.kids) {
    if (k.slots.dom === 'comment') continue;
    if (k.slots.dom === 'text') { const txt = M.fold(k.slots.text); if (txt === '') continue; const last = out[out.length - 1]; if (last && last.t === 'text') last.v = M.term('cat', [last.v, txt]); else out.push({ t: 'text', v: txt }); continue; }
    out.push({ t: k.slots.dom, node: k });
  }
  return out;
}
const brief = (M, xs) => '[' + xs.map((x) => (x.t === 'text' ? show(x.v) : x.node ? '<' + show(x.node.slots.tag) + '>' : '<' + x.tag + '>')).join(', ') + ']';
export function compareTree(M, P, node, spec, why) {
  const w = want(M, spec), g = got(M, node);
  const bad = g.find((x) => x.t !== 'text' && x.t !== 'element');
  P('text-never-markup', !bad, `${why}: something other than elements and text is rendered (${bad?.t})`);
  P('same-nodes', g.length === w.length && g.every((x, i) => (x.t === 'text') === (w[i].t === 'text')), `${why}: the DOM holds ${brief(M, g)} where the view says ${brief(M, w)}`);
  g.forEach((x, i) => {
    if (x.t === 'text') P('same-text', M.same(x.v, w[i].v), `${why}: the DOM shows the text ${show(x.v)} where the view says ${show(w[i].v)}`);
    else {
      const tg = M.fold(x.node.slots.tag);
      P('same-element', typeof tg === 'string' && typeof w[i].tag === 'string' ? tg.toLowerCase() === w[i].tag.toLowerCase() : M.same(tg, w[i].tag), `${why}: the DOM holds <${show(tg)}> where the view says <${show(w[i].tag)}>`);
      P('namespace', x.node.slots.ns === w[i].ns, `${why}: <${w[i].tag}> is created in the namespace ${x.node.slots.ns} instead of ${w[i].ns}`);
      compareTree(M, P, x.node, w[i].kids, why);
    }
  });
}
const sinks = (M) => M.log.filter((e) => e.t === 'html-sink');

// ---- generators
/** one child for list units; pool holds texts that may be reused */
function child(W, pool, depth) {
  const M = W.M;
  const c = M.choose(depth > 0 ? 4 : 3, 'child: new text / earlier text / nothing / element');
  if (c === 0) { const a = M.sym('text', K.STR, { distinct: true, plain: true }); pool.push(a); return leaf(a); }
  if (c === 1) { if (!pool.length) throw new Pruned('no earlier text'); return leaf(pool[M.choose(pool.length, 'which text')]); }
  if (c === 2) return leaf([null, false, undefined][pool.length % 3]);
  const tag = ['div', 'p'][M.choose(2, 'tag: div / p')];
  return el(W, tag, list(W, pool, 1, depth - 1));
}
function list(W, pool, max, depth) { const n = W.M.choose(max + 1, 'number of children'); return Array.from({ length: n }, () => child(W, pool, depth)); }
const asView = (W, kids) => (kids.length === 1 ? kids[0] : { v: W.M.arr(kids.map((k) => k.v)), spec: kids.flatMap((k) => k.spec) });

const rules14 = (M, prop) => (rule, ok, msg) => { if (rule === 'namespace' ? prop === 'C17' : prop === 'C14' || prop === 'C17') M.check(rule, ok, msg); };
function show14(W, P, s, shadow, view, why) {
  const M = W.M;
  const r = attempt(M, () => W.render(s, view.v));
  P('render-does-not-throw', r.ok, () => `${why}: rendering a valid view throws ${show(r.error)}`);
  const c = contentOf(M, shadow);
  P('one-content-root', c !== null, `${why}: more than one content root is attached`);
  compareTree(M, P, c, view.spec, why);
  P('text-never-markup', sinks(M).length === 0, `${why}: content is parsed as markup`);
}

/** all pairs of child lists, then back to the first view */
function listPairs(M, prop, { max, depth, wrap }) {
  const W = rworld(M); const P = rules14(M, prop);
  const shadow = W.host(); const s = W.strategy(shadow);
  const pool = [];
  const mk = (kids) => (wrap ? el(W, 'section', kids) : asView(W, kids));
  const v0 = mk(list(W, pool, max, depth)); show14(W, P, s, shadow, v0, 'first render');
  const v1 = mk(list(W, pool, max, depth)); show14(W, P, s, shadow, v1, 'second render');
  show14(W, P, s, shadow, v0, 'third render (the first view again)');
}
/** histories of several renders */
function histories(M, prop, { n, max }) {
  const mode = M.choose(2, 'strategy: diff / replace');
  const W = rworld(M, { config: mode ? { strategy: 'replace' } : null }); const P = rules14(M, prop);
  const shadow = W.host(); let s = W.strategy(shadow);
  const pool = [];
  for (let i = 0; i < n; i++) {
    if (i > 0 && i === n - 1) {
      const k = M.choose(4, 'before the last render: nothing / detach and attach again / another strategy attaches / attach twice');
      if (k === 1) { M.callMethod(s, 'detach', []); P('detach-clears', got(M, shadow).every((x) => x.t === 'element' && ['link', 'style'].includes(M.fold(x.node.slots.tag))), 'content survives detaching the strategy'); M.callMethod(s, 'attach', [shadow]); }
      if (k === 2) s = W.strategy(shadow);
      if (k === 3) M.callMethod(s, 'attach', [shadow]);
    }
    show14(W, P, s, shadow, asView(W, list(W, pool, max, 1)), `render ${i + 1}`);
  }
}
/** children of every kind */
function childKinds(M, prop) {
  const W = rworld(M); const P = rules14(M, prop);
  const shadow = W.host(); const s = W.strategy(shadow);
  const wrap = M.choose(2, 'the child is: the view / inside an element');
  const any = (n) => {
    const k = M.choose(6, `child ${n}: primitive / plain object / function / symbol / bigint / half an element`);
    if (k === 0) return leaf(M.sym('child' + n, KS.PRIM));
    const bad = k === 1 ? M.plain({ foo: 1 }) : k === 2 ? M.native('fn', () => M.sym('called', K.STR)) : k === 3 ? M.sym('symbol', K.SYMB) : k === 4 ? M.sym('bigint', K.BIG) : M.plain({ type: 'div' });
    return { v: bad, spec: [{ t: 'none' }] };
  };
  for (let i = 0; i < 2; i++) { const c = any(i); show14(W, P, s, shadow, wrap ? el(W, 'div', [c]) : c, `render ${i + 1}`); }
}
/** fragments, arrays and components */
function composition(M, prop, { n }) {
  const W = rworld(M); const P = rules14(M, prop);
  const shadow = W.host(); const s = W.strategy(shadow);
  let calls = null;
  const passThrough = M.native('PassThrough', (M2, t, [p]) => M.get(p, 'children'));
  const box = M.native('Box', (M2, t, [p]) => { calls = M.fold(p); return h(W, 'div', {}, [M.get(p, 'children')]); });
  const txt = () => leaf(M.sym('text', K.STR, { distinct: true, plain: true }));
  const group = (d) => {
    const a = txt(), b = d > 0 && M.choose(2, 'inner: text / group') ? group(d - 1) : el(W, 'i', [txt()]), c = txt();
    const spec = [...a.spec, ...b.spec, ...c.spec]; const kids = [a.v, b.v, c.v];
    switch (M.choose(6, 'group: array / fragment / fragment of an array / component passing its children on / component with a box / nested arrays')) {
      case 0: return { v: M.arr(kids), spec };
      case 1: return { v: h(W, W.Fragment, {}, kids), spec };
      case 2: return { v: h(W, W.Fragment, {}, [M.arr(kids)]), spec };
      case 3: return { v: h(W, passThrough, {}, kids), spec };
      case 4: return { v: h(W, box, {}, kids), spec: [{ t: 'el', tag: 'div', ns: XHTML, kids: spec }] };
      default: return { v: M.arr([M.arr([a.v, b.v]), M.arr([]), c.v]), spec };
    }
  };
  for (let i = 0; i < n; i++) {
    const g = group(1);
    const tail = txt();
    const view = M.choose(2, 'the group stands: inside an element before a text / alone') === 0 ? el(W, 'main', [g, tail]) : g;
    show14(W, P, s, shadow, view, `render ${i + 1}`);
  }
}
/** view objects kept across renders: components inside them may still render something else */
function hoisted(M, prop, { n }) {
  const W = rworld(M); const P = rules14(M, prop);
  const shadow = W.host(); const s = W.strategy(shadow);
  let cur = null;
  const Live = M.native('Live', () => cur.v);
  const inner = M.choose(3, 'the kept object is: a component / an element holding it / a fragment holding it');
  const live = h(W, Live, {});
  const kept = inner === 0 ? live : inner === 1 ? h(W, 'p', { class: 'k' }, [live]) : h(W, W.Fragment, {}, [live, 'tail']);
  const outer = M.choose(3, 'the kept object is: the view / inside an element / in an array') ;
  const box = outer === 1 && M.choose(2, 'the outer element is: new / kept too') === 1 ? h(W, 'div', {}, [kept]) : null;
  for (let i = 0; i < n; i++) {
    cur = child(W, [], 1);
    const spec = inner === 0 ? cur.spec : inner === 1 ? [{ t: 'el', tag: 'p', ns: XHTML, kids: cur.spec }] : [...cur.spec, { t: 'leaf', v: 'tail' }];
    const v = outer === 0 ? kept : outer === 1 ? box ?? h(W, 'div', {}, [kept]) : M.arr([kept, 'z']);
    show14(W, P, s, shadow, { v, spec: outer === 1 ? [{ t: 'el', tag: 'div', ns: XHTML, kids: spec }] : outer === 2 ? [...spec, { t: 'leaf', v: 'z' }] : spec }, `render ${i + 1} of a kept view object`);
  }
}
/** long lists and deep nesting: every change of a list, at sizes past what the other units enumerate */
function longLists(M, prop, { sizes }) {
  const W = rworld(M); const P = rules14(M, prop);
  const shadow = W.host(); const s = W.strategy(shadow);
  const n = sizes[M.choose(sizes.length, 'length: ' + sizes.join(' / '))];
  const keyed = M.choose(3, 'items: plain / keyed / plain texts');
  const deep = M.choose(3, 'the list is: at the root / inside an element / nested twelve levels deep');
  let fresh = 0;
  const item = (i) => (keyed === 2 ? leaf(`${i};`) : { v: M.call(W.jsx, undefined, ['li', M.plain({ class: 'c' + i, children: M.arr(['item ' + i]) }), ...(keyed ? ['k' + i] : [])]), spec: [{ t: 'el', tag: 'li', ns: XHTML, kids: [{ t: 'leaf', v: 'item ' + i }] }] });
  const mk = (ids) => { let v = asView(W, ids.map(item)); if (deep) v = el(W, 'ul', ids.map(item)); if (deep === 2) for (let i = 0; i < 12; i++) v = el(W, 'div', [v]); return v; };
  let ids = Array.from({ length: n }, (_, i) => i);
  show14(W, P, s, shadow, mk(ids), 'render 1');
  const ops = { 'reversed': (a) => [...a].reverse(), 'first moved to the end': (a) => [...a.slice(1), ...a.slice(0, 1)], 'two swapped': (a) => a.map((x, i) => (i === 1 && a.length > 2 ? a[a.length - 1] : i === a.length - 1 && a.length > 2 ? a[1] : x)), 'one removed in the middle': (a) => a.filter((_, i) => i !== a.length >> 1), 'half removed': (a) => a.slice(0, a.length >> 1), 'emptied': () => [], 'doubled': (a) => [...a, ...a.map(() => 1000 + fresh++)], 'one put in front': (a) => [1000 + fresh++, ...a], 'last one changed': (a) => [...a.slice(0, -1), 1000 + fresh++], 'all the same': (a) => a.map(() => 7) };
  const names = Object.keys(ops);
  for (let i = 0; i < 2; i++) { const k = names[M.choose(names.length, 'next view: ' + names.join(' / '))]; ids = ops[k](ids); show14(W, P, s, shadow, mk(ids), `render ${i + 2} of a list of ${n}, ${k}`); }
}
/** a render that fails (a component throws, or the DOM rejects an attribute) must not spoil the later ones */
function failing(M, prop, { max }) {
  const W = rworld(M, { config: M.choose(2, 'strategy: diff / replace') ? { strategy: 'replace' } : null }); const P = rules14(M, prop);
  const shadow = W.host(); const s = W.strategy(shadow); const pool = [];
  const boom = () => { throw M.throwError('Error', 'boom'); };
  const wrap = M.choose(2, 'the children are: the view / inside an element') === 1;
  const mk = (kids) => (wrap ? el(W, 'section', kids) : asView(W, kids));
  const first = M.choose(2, 'the failing render is: the second / the first') === 1;
  let last = null;
  const good = (why) => { last = mk(list(W, pool, max, 0).concat(M.choose(2, 'then: no element / an element') ? [el(W, 'p', [])] : [])); show14(W, P, s, shadow, last, why); };
  if (!first) good('first render');
  const comp = M.choose(2, 'failing: a component / an attribute the DOM rejects') === 0;
  const bad = comp ? h(W, M.native('Broken', boom), {}) : h(W, 'i', { 'bad name': 'v' }, ['x']);
  const before = list(W, pool, 1, 1);
  const r = attempt(M, () => W.render(s, mk([...before, { v: bad, spec: [] }, ...(M.choose(2, 'after it: nothing / an element') ? [el(W, 'u', [])] : [])]).v));
  P('failure-reported', !r.ok, 'an error thrown while rendering is swallowed');
  good('the render after the failed one');
  show14(W, P, s, shadow, last, 'the same view once more');
}
/** component functions get their own props */
function componentProps(M, prop) {
  const W = rworld(M); const P = rules14(M, prop);
  const shadow = W.host(); const s = W.strategy(shadow);
  const atom = M.sym('value', KS.ANY & ~K.UNDEF, { distinct: true }); let seen;
  const Comp = M.native('Comp', (M2, t, [p]) => { seen = p; return 'x'; });
  W.render(s, h(W, Comp, { a: atom }, ['c']));
  P('component-gets-props', seen !== undefined && M.same(M.get(seen, 'a'), atom), 'a function component does not receive its props');
}

// ---------------------------------------------------------------- C15: properties
const eqv = (M, a, b) => M.same(a, b);
const isInit = (v) => isSym(v) && v.op === 'initProp';
function propState(M, n) {
  const S = n.slots;
  return { attrs: S.attrs.map((a) => ({ k: M.fold(a.k), v: M.fold(a.v) })), props: S.jsp.map((a) => ({ k: M.fold(a.k), v: M.fold(a.v) })).filter((a) => !(isInit(a.v) || (a.k === 'value' ? a.v === '' || a.v === null : a.v === undefined))), stale: S.reflect.filter((r) => { const p = S.jsp.find((x) => M.same(x.k, r.k) === 'eq'); const v = p && M.fold(p.v); return !p || v === undefined; }), base: S.style.base, decl: S.style.e.map((e) => ({ k: M.fold(e.k), v: M.fold(e.v) })), lis: S.lis.map((l) => ({ k: M.fold(l.type), v: M.fold(l.h) })) };
}
function sameSet(M, a, b) { // 'eq' | 'ne' | 'unk' with a description
  const un = [...b]; let unk = false;
  for (const x of a) {
    let i = un.findIndex((y) => eqv(M, x.k, y.k) === 'eq' && eqv(M, x.v, y.v) === 'eq');
    if (i < 0) { i = un.findIndex((y) => eqv(M, x.k, y.k) !== 'ne' && eqv(M, x.v, y.v) !== 'ne'); if (i >= 0) unk = true; }
    if (i < 0) return { r: 'ne', d: `${show(x.k)} = ${show(x.v)} should not be there` };
    un.splice(i, 1);
  }
  if (un.length) return { r: 'ne', d: `${show(un[0].k)} = ${show(un[0].v)} is missing` };
  return { r: unk ? 'unk' : 'eq' };
}
function compareProps(M, P, g, f, why) {
  const A = propState(M, g), B = propState(M, f);
  for (const [rule, k] of [['attributes-converge', 'attrs'], ['properties-converge', 'props'], ['style-converges', 'decl'], ['listeners-converge', 'lis']]) { const r = sameSet(M, A[k], B[k]); P(rule, r.r, `${why}: ${rule.split('-')[0]}: ${r.d}`); }
  P('style-converges', M.same(A.base, B.base), `${why}: the style text is ${show(A.base)} instead of ${show(B.base)}`);
  P('no-stale-attribute', A.stale.length <= B.stale.length, `${why}: the attribute of the removed property ${A.stale.length ? show(A.stale[0].k) : ''} is left behind`);
}
const KEYS = ['class', 'className', 'style', 'onClick', 'generic', 'value', 'checked', 'list', 'form', 'data-x', 'id', 'children?', 'ref'];
const handler = (M, n) => M.native('handler' + n, () => undefined);
/** a value for the key: symbolic where the code must work it out, enumerated where identity matters */
function valueFor(W, key, i, earlier) {
  const M = W.M;
  if (key === 'onClick') { const k = M.choose(earlier.length ? 4 : 3, 'handler: new function / null / not a function / the earlier one'); return k === 0 ? handler(M, i) : k === 1 ? null : k === 2 ? M.sym('not a handler', KS.BOOL | K.STR) : earlier[earlier.length - 1]; }
  if (key === 'style') {
    const k = M.choose(earlier.length ? 5 : 4, 'style: text / object / nothing / empty object / the earlier one');
    if (k === 0) return M.sym('css' + i, K.STR, { distinct: true });
    if (k === 1) { const o = M.plain({}); for (const n of ['color', 'marginTop']) { const c = M.choose(3, `${n}: absent / value / null`); if (c === 1) M.put(o, n, M.sym(n + i, K.STR | K.NUM | K.ZERO)); if (c === 2) M.put(o, n, i % 2 ? null : undefined); } return o; }
    if (k === 2) return [null, false, undefined][i % 3];
    if (k === 3) return M.plain({});
    return earlier[earlier.length - 1];
  }
  if (key === 'ref') return M.native('ref', () => { M.event('ref-called'); return undefined; });
  return M.sym(`${key}${i}`, KS.PRIM | K.OBJ);
}
const omitted = (M, v) => M.hasKind(v, KS.NULLISH | K.FALSE, `${show(v)} is null, undefined or false`);
/** what one prop must do to a fresh element, by the documented contract */
function specProp(M, P, n, key, v, svg) {
  const S = propState(M, n); const why = `a fresh <${show(n.slots.tag)}> with ${typeof key === 'string' ? key : show(key)}=${show(v)}`;
  const attr = (name) => S.attrs.find((a) => M.same(a.k, name) === 'eq');
  v = M.fold(v);
  if (key === 'ref') { P('children-and-ref-never-attributes', !attr('ref') && !S.props.some((p) => p.k === 'ref'), `${why}: ref appears as an attribute or property`); return; }
  if (key === 'class' || key === 'className') {
    if (omitted(M, v)) { P('class', !attr('class') || M.fold(attr('class').v) === '', `${why}: a class is set`); return; }
    const s = M.toStr(v); if (M.hasKind(s, K.ESTR)) { P('class', !attr('class') || M.fold(attr('class').v) === '', `${why}: a class is set`); return; }
    P('class', attr('class') ? M.same(attr('class').v, s) : false, `${why}: the class attribute is ${attr('class') ? show(attr('class').v) : 'missing'}`);
    P('class', !attr('classname') && !attr('className'), `${why}: a classname attribute is set`);
    return;
  }
  if (key === 'onClick') {
    const fn = isObj(v) && v.cls === 'Function';
    P('listeners', fn ? S.lis.length === 1 && S.lis[0].k === 'click' && S.lis[0].v === v : S.lis.length === 0, `${why}: listeners are ${S.lis.map((l) => show(l.k)).join()}`);
    P('listeners', S.attrs.length === 0 && S.props.length === 0, `${why}: the handler appears as an attribute or property`);
    return;
  }
  if (key === 'style') {
    if (isObj(v)) {
      for (const [k, css] of [['color', 'color'], ['marginTop', 'margin-top']]) { const x = M.fold(M.get(v, k)); const d = S.decl.find((e) => e.k === css); const on = !(x === undefined || x === null); P('style', on ? Boolean(d) && M.same(d.v, M.toStr(x)) !== 'ne' : !d, `${why}: the declaration of ${css} is ${d ? show(d.v) : 'missing'}`); }
      P('style', S.decl.every((e) => e.k === 'color' || e.k === 'margin-top') && S.base === '', `${why}: other declarations appear`);
    } else if (v === null || v === undefined || v === false) P('style', S.decl.length === 0 && S.base === '', `${why}: a style is set`);
    else P('style', M.same(S.base, v), `${why}: the style text is ${show(S.base)}`);
    return;
  }
  if (omitted(M, v)) { P('omitted-props', S.attrs.length === 0 && S.props.length === 0, `${why}: an attribute or property is set`); return; }
  const p = S.props.find((a) => M.same(a.k, key) === 'eq');
  const a = S.attrs.find((x) => M.same(x.k, svg ? x.k : key) === 'eq');
  if (isInit(v) || (key === 'value' && v === '')) return;
  P('prop-applied', Boolean(p) !== Boolean(a) || undefined === v, `${why}: ${p ? 'both a property and an attribute are' : 'neither an attribute nor a property is'} set`);
  if (p) P('prop-applied', M.same(p.v, v), `${why}: the property is ${show(p.v)}`);
  if (a) P('prop-applied', M.same(a.v, M.toStr(v)), `${why}: the attribute is ${show(a.v)}`);
  if (key === 'data-x' || key === 'list' || key === 'form') P('prop-applied', Boolean(a), `${why}: it is not set as an attribute`);
  if (key === 'id' && !svg) P('prop-applied', Boolean(p) || Boolean(a), `${why}: it is not set`);
}
function findEl(M, node, tag) { for (const k of node.slots.kids) { if (k.slots.dom === 'element' && M.fold(k.slots.tag) === tag) return k; const r = k.slots.dom === 'element' && findEl(M, k, tag); if (r) return r; } return null; }

function propHistory(M, prop, { renders, keys, second, place }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const key = keys[M.choose(keys.length, 'prop: ' + keys.join(' / '))];
  const svg = !(second && key === 'generic') && M.choose(2, 'element: HTML / SVG') === 1;
  const tag = svg ? 'rect' : 'input';
  const k = key === 'generic' ? M.term('cat', [M.sym('name', K.STR, { distinct: true, plain: true })], K.STR) : key;
  const kk = key === 'generic' ? M.sym('some-prop', K.STR, { plain: true }) : k;
  if (key === 'generic') { for (const x of ['children', 'ref', 'class', 'className', 'style', 'list', 'form', 'value', 'checked', 'key', 'data-x', 'onClick', 'id']) { kk.neq.push(x); } (M.neqSyms ??= new Set()).add(kk); kk.flags.uniqName = true; }
  const other = second ? [null, 'onClick', 'data-x', 'class'][M.choose(4, 'another prop: none / onClick / data-x / class')] : null;
  if (other === key) throw new Pruned('same prop');
  const pos = place ? M.choose(3, 'the element is: the view / nested / after a sibling') : 0;
  const shadow = W.host(); const s = W.strategy(shadow);
  const vals = [], ovals = [];
  for (let i = 0; i < renders; i++) {
    const props = new Map();
    const present = M.choose(2, `render ${i + 1}: the prop is present / absent`) === 0;
    if (present) { const v = valueFor(W, key, i, vals); vals.push(v); props.set(kk, v); }
    if (other && M.choose(2, 'the other prop is: present / absent') === 0) { const v = other === 'onClick' ? handler(M, 'o' + i) : M.sym('other' + i, K.STR, { distinct: true }); ovals.push(v); props.set(other, v); }
    const po = M.plain(props);
    const mk = (pp) => {
      const e = M.call(W.jsx, undefined, [tag, pp]);
      const inner = svg ? h(W, 'svg', {}, [e]) : e;
      return pos === 0 ? inner : pos === 1 ? h(W, 'main', {}, [h(W, 'p', {}, [inner])]) : M.arr([h(W, 'b', {}, ['t']), inner]);
    };
    const r = attempt(M, () => W.render(s, mk(po)));
    P('render-does-not-throw', r.ok, () => `rendering throws ${show(r.error)}`);
    const g = findEl(M, contentOf(M, shadow), tag);
    P('element-rendered', Boolean(g), 'the element is not in the DOM');
    // oracle: the same view on a fresh root
    const sh2 = W.host(); const s2 = W.strategy(sh2);
    W.render(s2, mk(po));
    const f = findEl(M, contentOf(M, sh2), tag);
    P('element-rendered', Boolean(f), 'the element is not in the DOM of a fresh render');
    compareProps(M, P, g, f, `after render ${i + 1}`);
    P('children-and-ref-never-attributes', !propState(M, f).attrs.some((a) => a.k === 'children' || a.k === 'key') && !propState(M, f).props.some((a) => a.k === 'children'), 'children appear as an attribute');
    if (key === 'generic' && M.truthy(M.term('str.startsWith', [kk, 'on'], KS.BOOL))) continue;
    if (present && !other) specProp(M, P, f, key === 'generic' ? kk : key, props.get(kk), svg);
  }
}
/** props of an element after a render that failed half-way through them */
function failedProps(M, prop) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const key = ['title', 'class', 'data-y', 'onClick', 'style'][M.choose(5, 'prop: title / class / data-y / onClick / style')];
  const pool = ['A', 'B'].map((n) => (key === 'onClick' ? handler(M, n) : key === 'style' ? M.plain({ color: n }) : M.sym('value ' + n, K.STR, { distinct: true, plain: true })));
  const props = (i) => { const c = M.choose(3, `${key} in view ${i}: A / B / absent`); return c === 2 ? {} : { [key]: pool[c] }; };
  const shadow = W.host(); const s = W.strategy(shadow); const nested = M.choose(2, 'place: top level / nested') === 1;
  const mk = (pr) => { const e = h(W, 'input', pr); return nested ? h(W, 'main', {}, [e]) : e; };
  W.render(s, mk(props(1)));
  const order = M.choose(2, 'the failing prop comes: after / before');
  const p2 = props(2); attempt(M, () => W.render(s, mk(order ? { 'bad name': 'v', ...p2 } : { ...p2, 'bad name': 'v' })));
  const p3 = props(3); W.render(s, mk(p3));
  const sh2 = W.host(); W.render(W.strategy(sh2), mk(p3));
  const g = findEl(M, contentOf(M, shadow), 'input'), f = findEl(M, contentOf(M, sh2), 'input');
  P('element-rendered', Boolean(g) && Boolean(f), 'the element is not in the DOM');
  compareProps(M, P, g, f, 'after a failed render');
}
/** several listeners, several renders: no stale or double handler */
function listenerHistory(M, prop, { renders }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  const names = ['onClick', 'onMyEvent']; const ev = { onClick: 'click', onMyEvent: 'my-event' };
  const pool = [handler(M, 'A'), handler(M, 'B')];
  for (let i = 0; i < renders; i++) {
    const props = {}; const wantL = [];
    for (const n of names) { const c = M.choose(4, `${n}: absent / A / B / null`); if (c === 3) props[n] = null; else if (c) { props[n] = pool[c - 1]; wantL.push({ k: ev[n], v: pool[c - 1] }); } }
    W.render(s, h(W, 'button', props, ['x']));
    const b = findEl(M, contentOf(M, shadow), 'button');
    const r = sameSet(M, propState(M, b).lis, wantL);
    P('listeners-converge', r.r, `after render ${i + 1}: ${r.d}`);
  }
}
/** several spellings of one attribute, listener or declaration, one of them in each view */
const ALIASES = { class: ['class', 'className'], 'stroke width': ['strokeWidth', 'stroke-width', 'stroke_width'], click: ['onClick', 'onclick', 'on-click'], event: ['onMyEvent', 'onmy-event', 'onMy_Event'], 'css margin': ['marginTop', 'margin-top'] };
function aliases(M, prop, { renders }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const names = Object.keys(ALIASES); const what = names[M.choose(names.length, 'spellings of: ' + names.join(' / '))];
  const svg = what === 'stroke width' || M.choose(2, 'element: HTML / SVG') === 1; const tag = svg ? 'rect' : 'input';
  const sp = ALIASES[what]; const pool = what === 'click' || what === 'event' ? [handler(M, 'A'), handler(M, 'B')] : [M.sym('A', K.STR, { distinct: true }), M.sym('B', K.STR, { distinct: true })];
  const sh = W.host(); const s = W.strategy(sh);
  for (let i = 0; i < renders; i++) {
    const c = M.choose(sp.length + 1, 'spelling: ' + sp.join(' / ') + ' / absent'); const v = c < sp.length ? pool[M.choose(2, 'value: A / B')] : null;
    const one = c < sp.length ? { [sp[c]]: v } : {};
    const mk = () => { const e = h(W, tag, what === 'css margin' ? { style: M.plain(one) } : one); return svg ? h(W, 'svg', {}, [e]) : e; };
    W.render(s, mk());
    const sh2 = W.host(); W.render(W.strategy(sh2), mk());
    const g = findEl(M, contentOf(M, sh), tag), f = findEl(M, contentOf(M, sh2), tag);
    P('element-rendered', Boolean(g) && Boolean(f), 'the element is not in the DOM');
    compareProps(M, P, g, f, `after render ${i + 1} (${c < sp.length ? sp[c] : 'nothing'})`);
  }
}
/** a style object the page keeps, changes in place and passes again */
function keptStyle(M, prop, { renders }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const svg = M.choose(2, 'element: HTML / SVG') === 1; const tag = svg ? 'rect' : 'input';
  const place = M.choose(2, 'the element is: the view / nested');
  const keepProps = M.choose(2, 'kept: the style object / the element props too') === 1;
  const sh = W.host(); const s = W.strategy(sh);
  const o = M.plain({}); M.put(o, 'color', M.sym('color0', K.STR, { distinct: true, plain: true }));
  let kept = null;
  for (let i = 0; i < renders; i++) {
    if (i) for (const n of ['color', 'marginTop']) { const c = M.choose(3, `${n} is: left alone / given a value / set to null`); if (c === 1) M.put(o, n, M.sym(n + i, K.STR, { distinct: true, plain: true })); if (c === 2) M.put(o, n, null); }
    const mk = (again) => { const e = again && keepProps ? (kept ??= h(W, tag, { style: o })) : h(W, tag, { style: o }); const x = svg ? h(W, 'svg', {}, [e]) : e; return place ? h(W, 'main', {}, [x]) : x; };
    W.render(s, mk(true));
    const sh2 = W.host(); W.render(W.strategy(sh2), mk(false));
    const g = findEl(M, contentOf(M, sh), tag), f = findEl(M, contentOf(M, sh2), tag);
    P('element-rendered', Boolean(g) && Boolean(f), 'the element is not in the DOM');
    compareProps(M, P, g, f, `after render ${i + 1} of a style object changed in place`);
  }
}

// ---------------------------------------------------------------- C16: identity
function shape(W, depth) { // a shape is a thunk that builds a fresh instance
  const M = W.M;
  const k = M.choose(depth > 0 ? 4 : 2, 'shape: text / nothing / empty element / element with children');
  if (k === 0) return { mk: () => M.sym('text', K.STR, { distinct: true, plain: true }), fixed: true };
  if (k === 1) return { mk: () => null };
  const kids = k === 2 ? [] : Array.from({ length: 1 + M.choose(2, 'children: 1 / 2') }, () => shape(W, depth - 1));
  return { kids, mk: (grow) => h(W, 'div', { 'data-x': M.sym('x', K.STR, { distinct: true }), onClick: handler(M, 'h') }, [...kids.map((s) => s.mk(grow)), ...(grow ? [h(W, 'p', {}, ['new'])] : [])]) };
}
const nodesOf = (n) => n.slots.kids.flatMap((k) => (k.slots.dom === 'comment' ? [] : [k, ...nodesOf(k)]));
const takenOut = (M, mark) => new Set(M.log.slice(mark).filter((e) => e.t === 'dom-remove').map((e) => e.node));
function identity(M, prop, { max, depth, renders }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  const n = 1 + M.choose(max, 'root children'); const shapes = Array.from({ length: n }, () => shape(W, depth));
  const build = (grow, inner) => { const a = shapes.map((x) => x.mk(inner)); if (grow) a.push(h(W, 'p', {}, ['more'])); return a.length === 1 ? a[0] : M.arr(a); };
  const again = M.choose(2, 'the second view: new values / the very same view') === 1;
  let v = build(false, false); W.render(s, v);
  let grown = 0, innerGrown = false;
  for (let i = 1; i < renders; i++) {
    const c = contentOf(M, shadow); const before = nodesOf(c); const paths = before.map((x) => pathOf(x, c));
    const g = M.choose(4, `render ${i + 1}: same shape / a root child appended / children appended inside / both`);
    if (g & 1) grown++; if (g & 2) innerGrown = true;
    if (!again || g) v = (() => { const a = shapes.map((x) => x.mk(innerGrown)); for (let q = 0; q < grown; q++) a.push(h(W, 'p', {}, ['more'])); return a.length === 1 ? a[0] : M.arr(a); })();
    const mark = M.log.length;
    W.render(s, v);
    const after = nodesOf(contentOf(M, shadow)); const out = takenOut(M, mark);
    P('nodes-never-taken-out', !out.has(c), `render ${i + 1}: the content root is taken out of the document and put back`);
    before.forEach((x, j) => {
      P('nodes-never-taken-out', !out.has(x), `render ${i + 1}: the ${x.slots.dom} ${x.slots.tag ? '<' + show(x.slots.tag) + '>' : ''} is taken out of the document although the view has the same shape or only appends (focus, scrolling, frames and custom elements do not survive that)`);
      P('nodes-kept', after.includes(x), `render ${i + 1}: the ${x.slots.dom} ${x.slots.tag ? '<' + show(x.slots.tag) + '>' : ''} is replaced although the view has the same shape or only appends`);
      P('nodes-kept-in-place', pathOf(x, contentOf(M, shadow)) === paths[j], `render ${i + 1}: a kept node has moved`);
    });
    P('content-root-kept', contentOf(M, shadow) === c, 'the content root is replaced');
  }
}
/** same shape, other props: whatever the props say, the nodes stay */
const IDPROPS = ['id', 'class', 'className', 'type', 'name', 'value', 'href', 'style', 'role', 'slot', 'data-key', 'data-id', 'part', 'is', 'title', 'hidden', 'jsx key'];
function propIdentity(M, prop, { renders, both }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const key = IDPROPS[M.choose(IDPROPS.length, 'prop: ' + IDPROPS.join(' / '))];
  const tag = key === 'type' || key === 'value' || (both && M.choose(2, 'elements: p / input')) ? 'input' : 'p';
  const pair = M.choose(2, 'elements: one / two siblings') === 1;
  const pool = ['A', 'B'].map((n) => (key === 'style' ? M.plain({ color: n === 'A' ? 'red' : 'blue' }) : M.sym('value ' + n, K.STR, { distinct: true, plain: true })));
  const nested = !pair && M.choose(2, 'place: top level / nested') === 1;
  const one = (i) => { const c = M.choose(3, `${key} of element ${i}: A / B / absent`); const pr = c === 2 || key === 'jsx key' ? {} : { [key]: pool[c] }; const p = M.plain(pr); M.put(p, 'children', tag === 'p' ? 'same' : M.arr([])); return M.call(W.jsx, undefined, key === 'jsx key' && c < 2 ? [tag, p, pool[c]] : [tag, p]); };
  const shadow = W.host(); const s = W.strategy(shadow);
  const mk = () => { const a = one(0); const v = pair ? M.arr([a, one(1)]) : a; return nested ? h(W, 'main', {}, [v]) : v; };
  W.render(s, mk());
  for (let i = 1; i < renders; i++) {
    const before = nodesOf(contentOf(M, shadow)); const mark = M.log.length; W.render(s, mk()); const after = nodesOf(contentOf(M, shadow)); const out = takenOut(M, mark);
    P('nodes-never-taken-out', !before.some((x) => out.has(x)), `render ${i + 1}: a node is taken out of the document although only ${key} differs`);
    P('nodes-kept', before.length === after.length && before.every((x, j) => after[j] === x), `render ${i + 1}: nodes are replaced although only ${key} differs`);
  }
}
/** however many children are appended at once, those that are there stay */
function manyAppended(M, prop, { sizes }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  let n = [1, 2, 5, 20][M.choose(4, 'children at first: 1 / 2 / 5 / 20')];
  const deep = [0, 1, 8][M.choose(3, 'nested: no / in an element / eight levels deep')]; const kind = M.choose(3, 'children: elements / texts / both in turn');
  let r = 0;
  const mk = () => { r++; let v = M.arr(Array.from({ length: n }, (_, i) => (kind === 1 || (kind === 2 && i % 2) ? `text ${i} in view ${r};` : h(W, 'li', { 'data-i': `${i} ${r}` }, [`${i} in view ${r}`])))); for (let i = 0; i < deep; i++) v = h(W, 'div', {}, [v]); return v; };
  W.render(s, mk());
  for (let i = 1; i < 4; i++) {
    const m = sizes[M.choose(sizes.length, 'appended: ' + sizes.join(' / '))]; n += m;
    const before = nodesOf(contentOf(M, shadow)); const mark = M.log.length; W.render(s, mk()); const after = new Set(nodesOf(contentOf(M, shadow))); const out = takenOut(M, mark);
    P('nodes-never-taken-out', !before.some((x) => out.has(x)), `render ${i + 1}: a node is taken out of the document although ${m} children are only appended`);
    P('nodes-kept', before.every((x) => after.has(x)), `render ${i + 1}: nodes are replaced although ${m} children are only appended`);
  }
}
/** texts of every kind, empty ones and zero among them, next to elements: nothing is replaced when only they change */
function textIdentity(M, prop, { renders }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  let n = 0;
  const text = () => { const k = M.choose(4, 'text: empty / some text / zero / a number'); n++; return k === 0 ? '' : k === 1 ? `some text, ${n}` : k === 2 ? 0 : 10 + n; };
  const place = M.choose(3, 'the text is: before an element / after one / alone');
  const nested = M.choose(2, 'place: top level / nested') === 1;
  const mk = () => { const i = h(W, 'input', {}); const ks = place === 0 ? [text(), i] : place === 1 ? [i, text()] : [text()]; return nested ? h(W, 'div', {}, ks) : M.arr(ks); };
  W.render(s, mk());
  for (let i = 1; i < renders; i++) {
    const before = nodesOf(contentOf(M, shadow)); const mark = M.log.length; W.render(s, mk()); const after = nodesOf(contentOf(M, shadow)); const out = takenOut(M, mark);
    P('nodes-never-taken-out', !before.some((x) => out.has(x)), `render ${i + 1}: a node is taken out of the document although only a text differs`);
    P('nodes-kept', before.length === after.length && before.every((x, j) => after[j] === x), `render ${i + 1}: nodes are replaced although only a text differs`);
  }
}
function pathOf(n, root) { const p = []; while (n && n !== root) { p.unshift(n.slots.parent ? n.slots.parent.slots.kids.indexOf(n) : -1); n = n.slots.parent; } return p.join('.'); }
function optOut(M, prop, { renders }) {
  const how = M.choose(8, 'opt-out: config strategy / IGNITE_DIFF_ENABLED=false / data-ignite-nodiff / data-ignite-hydrated / denylisted host / strategy diff (none) / IGNITE_DIFF_ENABLED=true (none) / another tag denylisted (none)');
  const W = rworld(M, { env: how === 1 ? { IGNITE_DIFF_ENABLED: 'false' } : how === 6 ? { IGNITE_DIFF_ENABLED: 'true' } : {}, config: how === 0 ? { strategy: 'replace' } : how === 5 ? { strategy: 'diff' } : null, hostAttrs: [] });
  const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const reg = W.interp.exported(W.sm, 'registerNoDiffDenylistTag');
  const late = how >= 2 && how <= 4 && M.choose(2, 'opted out: before the strategy is attached / after it, before the first render') === 1;
  const root0 = how >= 2 && how <= 4 && M.choose(2, 'the shadow root holds: nothing / a content root already') === 1;
  const opt = () => { if (how === 2 || how === 3) M.callMethod(shadow.slots.host, 'setAttribute', [how === 2 ? 'data-ignite-nodiff' : 'data-ignite-hydrated', '']); if (how === 4) M.call(reg, undefined, [M.choose(2, 'registered as: x-host / X-HOST') ? 'X-HOST' : 'x-host']); };
  if (how === 7) M.call(reg, undefined, ['x-other']);
  const shadow = W.host(); if (!late) opt();
  if (root0) { const r = newElement(M, 'ignite-jsx-root'); M.callMethod(r, 'setAttribute', ['data-ignite-jsx-root', '']); insert(M, shadow, r); }
  const s = W.strategy(shadow); if (late) opt();
  const same = M.choose(2, 'views: same shape, new values / the very same view') === 1;
  const mk = () => h(W, 'div', { 'data-x': M.sym('x', K.STR, { distinct: true }) }, [M.sym('text', K.STR, { distinct: true }), h(W, 'p', {}, ['q'])]);
  const v0 = mk(); W.render(s, v0);
  if (M.choose(2, 'between: nothing / detach and attach') === 1) { M.callMethod(s, 'detach', []); M.callMethod(s, 'attach', [shadow]); W.render(s, same ? v0 : mk()); }
  for (let i = 1; i < renders; i++) {
    const before = nodesOf(contentOf(M, shadow));
    W.render(s, same ? v0 : mk());
    const after = nodesOf(contentOf(M, shadow));
    for (const x of before) {
      const kept = after.includes(x);
      if (how < 5) P('opt-out-replaces', !kept, `render ${i + 1}: a node survives although the host opted out of diffing (${['config strategy replace', 'IGNITE_DIFF_ENABLED=false', 'data-ignite-nodiff', 'data-ignite-hydrated', 'denylisted host tag'][how]})`);
      else P('diff-by-default', kept, `render ${i + 1}: a node is replaced although diffing is enabled`);
    }
    P('same-nodes', after.length === before.length, `render ${i + 1}: ${after.length} nodes instead of ${before.length}`);
  }
}
function denyElement(M, prop) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const reg = W.interp.exported(W.sm, 'registerNoDiffDenylistTag');
  M.call(reg, undefined, [['x-deny', 'X-Deny'][M.choose(2, 'registered as x-deny / X-Deny')]]);
  const shadow = W.host(); const s = W.strategy(shadow);
  const nested = M.choose(2, 'the element is: top level / nested') === 1;
  const t = () => M.sym('text', K.STR, { distinct: true, plain: true });
  const mk = () => { const a = h(W, 'b', {}, [t()]), d = h(W, 'x-deny', {}, [t()]), c = h(W, 'i', {}, [t()]); return nested ? h(W, 'div', {}, [a, d, c]) : M.arr([a, d, c]); };
  const hoisted = M.choose(2, 'views: new values / the very same view') === 1; const v0 = mk();
  W.render(s, v0);
  for (let i = 0; i < 2; i++) {
    const c = contentOf(M, shadow); const f = (tag) => findEl(M, c, tag);
    const [b, d, k] = [f('b'), f('x-deny'), f('i')]; const mark = M.log.length;
    W.render(s, hoisted ? v0 : mk());
    const out = takenOut(M, mark); P('nodes-never-taken-out', !out.has(b) && !out.has(k) && !out.has(c), 'a sibling of a denylisted element is taken out of the document');
    P('denylisted-element-rebuilt', f('x-deny') && f('x-deny') !== d, 'an element whose tag is denylisted is patched instead of rebuilt');
    P('siblings-kept', f('b') === b && f('i') === k, 'the siblings of a denylisted element are rebuilt');
    const kids = nested ? f('div').slots.kids : c.slots.kids;
    P('denylisted-in-place', kids.length === 3 && kids[1] === f('x-deny'), 'a rebuilt element is not put in the place of the old one');
  }
}

// ---------------------------------------------------------------- C17: namespaces, slots, names
function nest(W, depth, ns, avail) {
  const M = W.M;
  const tags = ['svg', 'g', 'foreignObject', 'div', 'slot'];
  const tag = tags[M.choose(avail ?? tags.length, 'element: ' + tags.join(' / '))];
  const mine = tag === 'svg' ? SVG : ns;
  const inner = tag === 'slot' ? null : mine === SVG && tag !== 'foreignObject' ? SVG : XHTML;
  const kids = depth > 0 && M.choose(2, 'children: none / one') ? [nest(W, depth - 1, inner ?? ns, avail)] : [];
  const v = h(W, tag, tag === 'slot' && M.choose(2, 'slot: default / named') ? { name: 's' } : {}, kids.map((k) => k.v));
  return { v, spec: [{ t: 'el', tag, ns: mine, kids: tag === 'slot' ? [] : kids.flatMap((k) => k.spec) }] };
}
function namespaces(M, prop, { depth, renders }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  for (let i = 0; i < renders; i++) {
    const v = nest(W, depth, XHTML);
    const grow = M.choose(2, 'followed by: nothing / an svg circle') === 1;
    show14(W, P, s, shadow, grow ? asView(W, [v, el(W, 'svg', [el(W, 'circle', [], {}, SVG)], {}, SVG)]) : v, `render ${i + 1}`);
  }
}
/** groups are transparent to the namespace: fragments, arrays and components inside svg, foreignObject and HTML */
function nsGroups(M, prop, { depth, renders }) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  const outer = M.choose(3, 'inside: svg / foreignObject / HTML'); const ns = outer === 0 ? SVG : XHTML;
  const group = (d) => {
    const kind = M.choose(d > 0 ? 6 : 1, 'child: element / array / fragment / fragment of an array / component passing its children on / component with an element of its own');
    if (kind === 0) { const tag = ['a', 'svg'][M.choose(2, 'element: a / svg')]; return el(W, tag, [], {}, tag === 'svg' ? SVG : ns); }
    const k = group(d - 1);
    switch (kind) {
      case 1: return { v: M.arr([k.v]), spec: k.spec };
      case 2: return { v: h(W, W.Fragment, {}, [k.v]), spec: k.spec };
      case 3: return { v: h(W, W.Fragment, {}, [M.arr([k.v])]), spec: k.spec };
      case 4: return { v: h(W, M.native('Pass', (M2, t, [props]) => M.get(props, 'children')), {}, [k.v]), spec: k.spec };
      default: return { v: h(W, M.native('Box', (M2, t, [props]) => h(W, 'g', {}, [M.get(props, 'children')])), {}, [k.v]), spec: [{ t: 'el', tag: 'g', ns, kids: k.spec }] };
    }
  };
  const kids = [];
  for (let i = 0; i < renders; i++) {
    const g = group(depth);
    if (i > 0 && M.choose(2, 'the next view: another child / one more child') === 1) kids.push(g); else { kids.length = 0; kids.push(g); }
    const view = outer === 0 ? el(W, 'svg', kids, {}, SVG) : outer === 1 ? el(W, 'svg', [el(W, 'foreignObject', kids, {}, SVG)], {}, SVG) : el(W, 'div', kids);
    show14(W, P, s, shadow, view, `render ${i + 1}`);
  }
}
/** appending inside svg and inside foreignObject */
function nsAppend(M, prop) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  const inFo = M.choose(2, 'container: svg / foreignObject') === 1;
  const ns = inFo ? XHTML : SVG; const tag = inFo ? 'div' : 'circle';
  let n = 0;
  for (let i = 0; i < 3; i++) {
    n += M.choose(3, 'children appended');
    const kids = Array.from({ length: n }, () => el(W, tag, [], {}, ns));
    const fo = inFo ? el(W, 'svg', [el(W, 'foreignObject', kids, {}, SVG)], {}, SVG) : el(W, 'svg', kids, {}, SVG);
    show14(W, P, s, shadow, fo, `render ${i + 1}`);
  }
}
// the attributes SVG spells in camelCase (the list an HTML parser uses to adjust SVG attributes)
const SVG_CAMEL = 'attributeName attributeType baseFrequency baseProfile calcMode clipPathUnits diffuseConstant edgeMode filterUnits glyphRef gradientTransform gradientUnits kernelMatrix kernelUnitLength keyPoints keySplines keyTimes lengthAdjust limitingConeAngle markerHeight markerUnits markerWidth maskContentUnits maskUnits numOctaves pathLength patternContentUnits patternTransform patternUnits pointsAtX pointsAtY pointsAtZ preserveAlpha preserveAspectRatio primitiveUnits refX refY repeatCount repeatDur requiredExtensions requiredFeatures specularConstant specularExponent spreadMethod startOffset stdDeviation stitchTiles surfaceScale systemLanguage tableValues targetX targetY textLength viewBox viewTarget xChannelSelector yChannelSelector zoomAndPan'.split(' ');
const SVG_NAMES = { ...Object.fromEntries(SVG_CAMEL.map((n) => [n, n])), strokeWidth: 'stroke-width', strokeLinecap: 'stroke-linecap', fillOpacity: 'fill-opacity', 'stroke-width': 'stroke-width', 'xlink:href': 'xlink:href', fill: 'fill', d: 'd', 'aria-label': 'aria-label', className: 'class', class: 'class', id: 'id' };
function svgNames(M, prop) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  const names = Object.keys(SVG_NAMES); const name = names[M.choose(names.length, 'attribute: ' + names.join(' / '))];
  const tag = ['svg', 'path', 'foreignObject'][M.choose(3, 'on: the svg element / a descendant / a foreignObject')];
  const mk = (props) => (tag === 'foreignObject' ? h(W, 'svg', {}, [h(W, 'foreignObject', props)]) : tag === 'svg' ? h(W, 'svg', props) : h(W, 'svg', {}, [h(W, 'g', {}, [h(W, 'path', props)])]));
  const check = (v, i) => { const n = findEl(M, contentOf(M, shadow), tag); const a = n.slots.attrs; P('svg-attribute-name', v === null ? a.length === 0 : a.length === 1 && M.fold(a[0].k) === SVG_NAMES[name] && M.same(a[0].v, v) !== 'ne', `render ${i}: ${name} on <${tag}> gives the attributes {${a.map((x) => show(x.k)).join()}} instead of ${v === null ? 'none' : SVG_NAMES[name]}`); P('svg-no-properties', n.slots.jsp.length === 0, `${name} on <${tag}> is set as a property`); };
  const a = M.sym('value', K.STR, { distinct: true }), b = M.sym('value2', K.STR, { distinct: true });
  W.render(s, mk({ [name]: a })); check(a, 1);
  W.render(s, mk({ [name]: b })); check(b, 2);
  W.render(s, mk(M.choose(2, 'then: absent / null') ? { [name]: null } : {})); check(null, 3);
  W.render(s, mk({ [name]: a })); check(a, 4);
}
function eventNames(M, prop) {
  const W = rworld(M); const P = (rule, ok, msg) => M.check(rule, ok, msg);
  const shadow = W.host(); const s = W.strategy(shadow);
  const EV = { onClick: 'click', onMyEvent: 'my-event', onclick: 'click', onMy_own_Event: 'my-own-event', 'onmy-event': 'my-event', onDOMReady: 'dom-ready', onItem2Added: 'item2-added' };
  const en = Object.keys(EV); const k = M.choose(en.length + 1, 'event prop: ' + en.join(' / ') + ' / any name');
  const key = k < en.length ? en[k] : M.term('cat', ['on', M.sym('Name', K.STR, { distinct: true, plain: true })]);
  const tag = ['button', 'svg'][M.choose(2, 'on: button / svg')];
  const A = handler(M, 'A'), B = handler(M, 'B');
  const lis = () => findEl(M, contentOf(M, shadow), tag).slots.lis;
  const put = (v) => W.render(s, h(W, tag, v === undefined ? {} : new Map([[key, v]])));
  put(A); P('listener-attached', lis().length === 1 && M.fold(lis()[0].h) === A, 'a listener is not attached once');
  if (k < en.length) P('event-name', lis().length === 1 && M.fold(lis()[0].type) === EV[key], `${key} listens to ${lis().map((l) => show(l.type)).join()}`);
  const t0 = lis()[0]?.type;
  put(B); P('listener-removed-under-same-name', lis().length === 1 && M.fold(lis()[0].h) === B && M.same(lis()[0].type, t0) !== 'ne', 'changing a handler leaves the old listener attached or uses another event name');
  const how = M.choose(3, 'then the prop is: dropped / null / not a function');
  put(how === 0 ? undefined : how === 1 ? null : 'text'); P('listener-removed-under-same-name', lis().length === 0, 'a dropped handler stays attached');
}

// ---------------------------------------------------------------- C29
export function runFactories(prop, { ai }) {
  ai('factories agree', (M) => {
    const W = makeWorld(M, { env: { NODE_ENV: 'production' } }); const I = W.interp; const P = (rule, ok, msg) => M.check(rule, ok, msg);
    const entries = [['src/jsx/jsx-runtime.ts', 'jsx'], ['src/jsx/jsx-runtime.ts', 'jsxs'], ['src/jsx/jsx-dev-runtime.ts', 'jsxDEV'], ['src/renderers/jsx/jsx-runtime.ts', 'jsx'], ['src/renderers/jsx/jsx-runtime.ts', 'jsxs'], ['src/renderers/jsx/jsx-runtime.ts', 'jsxDEV'], ['src/renderers/jsx/jsx-dev-runtime.ts', 'jsxDEV']];
    const [file, name] = entries[M.choose(entries.length, 'factory: ' + entries.map((e) => e.join(' ')).join(' / '))];
    const f = I.exported(I.load(file), name);
    const tk = M.choose(3, 'type: tag / component / Fragment');
    const frag = I.exported(I.load(file), 'Fragment');
    const type = tk === 0 ? M.sym('tag', K.STR, { distinct: true }) : tk === 1 ? M.native('Comp', () => null) : frag;
    const pk = M.choose(3, 'props: null / undefined / object');
    const ck = pk === 2 ? M.choose(6, 'children: absent / undefined / null / one / array / empty array') : 0;
    const a = M.sym('child a', KS.ANY & ~(KS.NULLISH | K.ARR), { distinct: true }), b = M.sym('child b', KS.ANY, { distinct: true });
    const val = M.sym('prop value', KS.ANY, { distinct: true });
    let props = pk === 0 ? null : undefined, kids = null;
    if (pk === 2) { props = M.plain({ x: val, y: val }); if (ck) M.put(props, 'children', ck === 1 ? undefined : ck === 2 ? null : ck === 3 ? a : (kids = M.arr(ck === 4 ? [a, b] : []))); }
    const frozen = pk === 2 && M.choose(2, 'props are: ordinary / frozen') === 1;
    if (frozen) { props.ext = false; props.slots.frozen = true; for (const d of props.props.values()) { d.w = false; d.c = false; } }
    const before = pk === 2 ? [...props.props].map(([k, d]) => [k, deref(d.v)]) : null; const kb = kids ? [...kids.slots.items] : null;
    const hk = M.choose(5, 'key: not given / undefined / text / number / null');
    const key = hk === 2 ? M.sym('key', KS.STRING) : hk === 3 ? M.sym('key', KS.NUMBER) : hk === 4 ? null : undefined;
    const args = hk === 0 ? [type, props] : [type, props, key];
    if (name === 'jsxDEV' && M.choose(2, 'debug arguments: absent / present')) { while (args.length < 3) args.push(undefined); args.push(true, M.plain({ fileName: 'x' }), M.plain({})); }
    const r = attempt(M, () => M.call(f, undefined, args));
    P('factory-does-not-throw', r.ok, () => `${name} throws ${show(r.error)}`);
    const e = M.fold(r.value);
    P('element-shape', isObj(e) && M.same(M.get(e, 'type'), type), `${name} changes the type`);
    const ep = M.fold(M.get(e, 'props'));
    P('props-copied', isObj(ep) && ep !== props, `${name} hands on the caller's props object`);
    const ch = M.fold(M.get(ep, 'children'));
    P('children-array', isObj(ch) && ch.cls === 'Array', `${name} does not give children as an array`);
    const wantKids = ck === 3 ? [a] : ck === 4 ? [a, b] : [];
    P('children-in-order', ch.slots.items.length === wantKids.length && ch.slots.items.every((x, i) => M.same(x, wantKids[i]) === 'eq'), `${name} gives the children ${show(ch)} instead of [${wantKids.map((x) => show(x)).join(', ')}]`);
    const keys = M.ownKeys(ep).map((k) => M.fold(k)).filter((k) => k !== 'children').sort().join();
    P('props-copied', keys === (pk === 2 ? 'x,y' : '') && (pk !== 2 || (M.same(M.get(ep, 'x'), val) === 'eq' && M.same(M.get(ep, 'y'), val) === 'eq')), `${name} gives the props {${keys}}`);
    const k2 = M.fold(M.get(e, 'key'));
    P('key', key === undefined ? k2 === null : M.same(k2, M.fold(key)), `${name} gives the key ${show(k2)} for ${show(key)}`);
    if (before) P('input-unchanged', props.props.size === before.length && before.every(([k, v]) => props.props.has(k) && deref(props.props.get(k).v) === v), `${name} modifies the props object it is given`);
    if (kb) P('input-unchanged', kids.slots.items.length === kb.length && kids.slots.items.every((x, i) => deref(x) === deref(kb[i])), `${name} modifies the children array it is given`);
    const F2 = I.exported(I.load('src/jsx/jsx-runtime.ts'), 'Fragment'), F3 = I.exported(I.load('src/jsx/jsx-dev-runtime.ts'), 'Fragment');
    P('one-fragment', M.same(frag, F2) === 'eq' && M.same(F2, F3) === 'eq', 'the development and production runtimes have different Fragments');
  });
}

export function runRenderer(prop, { ai, thorough }) {
  const T = thorough;
  if (prop === 'C14') {
    ai('children of every kind', (M) => childKinds(M, prop));
    ai('child lists at the root', (M) => listPairs(M, prop, { max: T ? 3 : 2, depth: 1 }));
    ai('child lists in an element', (M) => listPairs(M, prop, { max: T ? 3 : 2, depth: 1, wrap: true }));
    ai('longer lists of texts', (M) => listPairs(M, prop, { max: T ? 4 : 3, depth: 0 }));
    ai('histories', (M) => histories(M, prop, { n: T ? 4 : 3, max: T ? 2 : 1 }));
    ai('fragments, arrays, components', (M) => composition(M, prop, { n: 2 }));
    ai('view objects kept across renders', (M) => hoisted(M, prop, { n: T ? 3 : 2 }));
    ai('component props', (M) => componentProps(M, prop));
    ai('long lists, deep views', (M) => longLists(M, prop, { sizes: T ? [1, 2, 3, 4, 7, 12, 20, 30] : [3, 6, 20] }));
    ai('renders after a failed one', (M) => failing(M, prop, { max: 1 }));
  }
  if (prop === 'C15') {
    ai('one prop', (M) => propHistory(M, prop, { renders: T ? 3 : 2, keys: KEYS.filter((k) => k !== 'children?'), second: false, place: false }));
    ai('one prop, at every place', (M) => propHistory(M, prop, { renders: 2, keys: ['data-x', 'class', 'onClick', 'value'], second: false, place: true }));
    ai('two props', (M) => propHistory(M, prop, { renders: 2, keys: ['class', 'onClick', 'generic', 'value', 'id'], second: true, place: false }));
    ai('three renders', (M) => propHistory(M, prop, { renders: 3, keys: ['class', 'onClick', 'value', 'data-x'], second: false, place: false }));
    ai('spellings of one attribute', (M) => aliases(M, prop, { renders: T ? 3 : 2 }));
    ai('style objects changed in place', (M) => keptStyle(M, prop, { renders: T ? 4 : 3 }));
    ai('renders after a failed one', (M) => failedProps(M, prop));
    ai('listeners', (M) => listenerHistory(M, prop, { renders: T ? 4 : 3 }));
  }
  if (prop === 'C16') {
    ai('same shape or append only', (M) => identity(M, prop, { max: 2, depth: 1, renders: T ? 4 : 3 }));
    ai('same shape or append only, nested', (M) => identity(M, prop, { max: 1, depth: 2, renders: T ? 3 : 2 }));
    ai('same shape, other props', (M) => propIdentity(M, prop, { renders: T ? 3 : 2, both: T }));
    ai('many children appended', (M) => manyAppended(M, prop, { sizes: T ? [0, 1, 2, 3, 4, 5, 6, 12] : [0, 1, 12] }));
    ai('same shape, other texts', (M) => textIdentity(M, prop, { renders: T ? 4 : 3 }));
    ai('opting out', (M) => optOut(M, prop, { renders: 3 }));
    ai('denylisted element', (M) => denyElement(M, prop));
  }
  if (prop === 'C17') {
    ai('namespaces', (M) => namespaces(M, prop, { depth: T ? 3 : 2, renders: 1 }));
    ai('namespaces after a patch', (M) => namespaces(M, prop, { depth: T ? 2 : 1, renders: 2 }));
    ai('namespaces through groups', (M) => nsGroups(M, prop, { depth: T ? 3 : 2, renders: 1 }));
    ai('namespaces through groups after a patch', (M) => nsGroups(M, prop, { depth: T ? 2 : 1, renders: 2 }));
    ai('appending inside svg', (M) => nsAppend(M, prop));
    ai('svg attribute names', (M) => svgNames(M, prop));
    ai('event names', (M) => eventNames(M, prop));
    ai('values that are no children', (M) => childKinds(M, prop));
  }
}

// Abstract DOM: the part of the platform contract the library depends on.
import { AObj, Sym, K, KS, kindsOf, deref, isSym, isObj, isPrim, show } from './values.mjs';
import { Inconclusive, JsThrow, NOPE } from './machine.mjs';
import { builtins as B } from './builtins.mjs';

export const SVG = 'http://www.w3.org/2000/svg';
export const XHTML = 'http://www.w3.org/1999/xhtml';
import { DOM_NAMES } from './interp.mjs';
const { mk, def, nat, ctor, objectProto } = B;

const EventTargetP = mk('Object', objectProto), NodeP = mk('Object', EventTargetP), ElementP = mk('Object', NodeP), HTMLElementP = mk('Object', ElementP), SVGElementP = mk('Object', ElementP),
  TextP = mk('Object', NodeP), CommentP = mk('Object', NodeP), FragmentP = mk('Object', NodeP), ShadowRootP = mk('Object', FragmentP), DocumentP = mk('Object', NodeP),
  EventP = mk('Object', objectProto), CustomEventP = mk('Object', EventP), StyleP = mk('Object', objectProto), NodeListP = mk('Object', objectProto), RegistryP = mk('Object', objectProto), AbortP = mk('Object', objectProto);
NodeP.slots.hostNames = DOM_NAMES.methods; NodeP.slots.hostProps = DOM_NAMES.props; EventP.slots.hostNames = new Set(['initEvent', 'initCustomEvent', 'timeStamp', 'isTrusted', 'eventPhase', 'returnValue', 'srcElement', 'cancelBubble']);
for (const p of [EventTargetP, NodeP, ElementP, HTMLElementP, SVGElementP, TextP, CommentP, FragmentP, ShadowRootP, DocumentP, EventP, CustomEventP, StyleP, NodeListP, RegistryP, AbortP]) p.slots.builtinProto = true;

export const nodeOf = (M, v) => { v = M.fold(v); if (isObj(v) && v.slots.dom) return v; if (isSym(v)) throw new Inconclusive('DOM operation on an opaque node'); throw M.throwError('TypeError', `parameter is not of type 'Node': ${show(v)}`); };
const self = (M, t) => nodeOf(M, t);
function newNode(M, kind, proto, extra = {}) {
  const o = M.obj('Node', proto);
  Object.assign(o.slots, { dom: kind, kids: [], parent: null, lis: [], birth: (M.domBirth = (M.domBirth ?? 0) + 1) }, extra);
  return o;
}
export function newElement(M, tag, nsUri = XHTML, proto) {
  const o = newNode(M, 'element', proto ?? (nsUri === SVG ? SVGElementP : HTMLElementP), { tag, ns: nsUri, attrs: [], jsp: [], reflect: [], style: { base: '', e: [] } });
  if (!proto) o.slots.exotic = ELEMENT_EXOTIC;
  return o;
}
export function newShadow(M, host, name) { const s = newNode(M, 'shadow', ShadowRootP, { host }); s.name = name ?? null; if (host) host.slots.shadow = s; return s; }
export function newText(M, v) { return newNode(M, 'text', TextP, { text: v }); }
export function newComment(M, v) { return newNode(M, 'comment', CommentP, { text: v }); }
export function mkEvent(M, type, { custom = false, detail = null, bubbles = false, composed = false, cancelable = false } = {}) {
  const e = M.obj('Event', custom ? CustomEventP : EventP);
  M.put(e, 'type', type); if (custom) M.put(e, 'detail', detail); M.put(e, 'bubbles', bubbles); M.put(e, 'composed', composed); M.put(e, 'cancelable', cancelable); M.put(e, 'defaultPrevented', false); M.put(e, 'target', null); M.put(e, 'currentTarget', null);
  return e;
}

// ---- tree operations
export function detach(M, n) { const p = n.slots.parent; if (p) { const i = p.slots.kids.indexOf(n); if (i >= 0) p.slots.kids.splice(i, 1); n.slots.parent = null; M.log.push({ t: 'dom-remove', who: show(n), node: n, from: p, site: M.site }); } }
export function insert(M, p, n, before = null) {
  if (n.slots.dom === 'fragment') { for (const k of [...n.slots.kids]) insert(M, p, k, before); return; }
  for (let q = p; q; q = q.slots.parent) if (q === n) throw M.throwError('HierarchyRequestError', 'cycle');
  detach(M, n);
  const i = before ? p.slots.kids.indexOf(before) : p.slots.kids.length;
  if (i < 0) throw M.throwError('NotFoundError', 'reference node is not a child');
  p.slots.kids.splice(i, 0, n); n.slots.parent = p;
  M.log.push({ t: 'dom-insert', who: show(n), node: n, into: p, site: M.site });
}
function toNodes(M, args) { return args.map((a) => { const v = M.fold(a); if (isObj(v) && v.slots.dom) return v; return newText(M, M.toStr(v)); }); }
function clearKids(M, n) { for (const k of [...n.slots.kids]) detach(M, k); }
function textOf(M, n) {
  if (n.slots.dom === 'text' || n.slots.dom === 'comment') return n.slots.text;
  const ps = n.slots.kids.filter((k) => k.slots.dom !== 'comment').map((k) => textOf(M, k));
  return M.term('cat', ps);
}
const sib = (n, d) => { const p = n.slots.parent; if (!p) return null; return p.slots.kids[p.slots.kids.indexOf(n) + d] ?? null; };
function rootOf(n) { while (n.slots.parent) n = n.slots.parent; return n; }
function nodeList(M, n, elementsOnly) {
  const o = M.obj('NodeList', NodeListP);
  const items = () => (elementsOnly ? n.slots.kids.filter((k) => k.slots.dom === 'element') : n.slots.kids);
  o.slots.exotic = {
    get(M2, ob, key) { if (key === 'length') return items().length; if (typeof key === 'string' && /^\d+$/.test(key)) return items()[+key]; if (isSym(key)) throw new Inconclusive('symbolic node index'); return NOPE; },
    iter() { let i = 0; return () => (i < items().length ? items()[i++] : NOPE); },
  };
  o.slots.list = items;
  return o;
}
def(NodeListP, 'item', (M, t, [i]) => M.fold(t).slots.list()[M.fold(i)] ?? null);
def(NodeListP, 'forEach', (M, t, [f]) => { const l = M.fold(t).slots.list; for (let i = 0; i < l().length; i++) M.call(f, undefined, [l()[i], i, t]); });
for (const m of ['values', 'entries', 'keys']) def(NodeListP, m, (M, t) => B.iterFrom(M, M.interp.iter(t)));

// ---- attributes and style
function attrFind(M, list, k) { for (const a of list) { if (sameKey(M, a.k, k)) return a; } return null; }
function sameKey(M, a, b) { a = M.fold(a); b = M.fold(b); if (isPrim(a) && isPrim(b)) return a === b; return M.eq(a, b); }
const lowerAttr = (M, n, k) => { k = M.toStr(k); if (n.slots.ns === XHTML && typeof k === 'string') return k.toLowerCase(); return k; };
function setAttr(M, n, k, v) { const nm = M.fold(k); if (typeof nm === 'string' && (nm === '' || /[\s/>=]/.test(nm))) throw M.throwError('InvalidCharacterError', `${nm} is not a valid attribute name`); k = lowerAttr(M, n, k); const a = attrFind(M, n.slots.attrs, k); if (a) a.v = v; else n.slots.attrs.push({ k, v }); const r = attrFind(M, n.slots.reflect, k); if (r) n.slots.reflect.splice(n.slots.reflect.indexOf(r), 1); M.log.push({ t: 'attr-set', who: show(k), node: n, k, v, site: M.site }); }
function delAttr(M, n, k) {
  k = lowerAttr(M, n, k);
  const a = attrFind(M, n.slots.attrs, k); if (a) n.slots.attrs.splice(n.slots.attrs.indexOf(a), 1);
  const r = reflFind(M, n, k); if (r) n.slots.reflect.splice(n.slots.reflect.indexOf(r), 1);
  if (k === 'style') n.slots.style = { base: '', e: [] };
}
function reflFind(M, n, k) { for (const r of n.slots.reflect) { const rk = M.fold(r.k); if (isPrim(rk) && isPrim(k) ? rk.toLowerCase() === k : sameKey(M, r.k, k)) return r; } return null; }
function hasAttr(M, n, k) {
  k = lowerAttr(M, n, k);
  if (attrFind(M, n.slots.attrs, k)) return true;
  if (n.slots.attrOracle) { const r = n.slots.attrOracle(M, n, k); if (r !== undefined) return r; }
  if (k === 'style') { return n.slots.style.e.length > 0 || n.slots.style.base !== ''; }
  const r = reflFind(M, n, k);
  if (r) { // does this IDL property reflect a content attribute?
    if (M.choose(2, `property ${show(r.k)} reflects an attribute`) === 0) return true;
    n.slots.reflect.splice(n.slots.reflect.indexOf(r), 1); return false;
  }
  return false;
}
function getAttr(M, n, k) {
  k = lowerAttr(M, n, k);
  const a = attrFind(M, n.slots.attrs, k);
  if (a) return a.v;
  if (n.slots.attrOracle) { const r = n.slots.attrOracle(M, n, k); if (r !== undefined) return r ? '' : null; }
  const r = reflFind(M, n, k);
  if (r) return M.sym('reflected attribute', K.NULL | KS.STRING, { distinct: true });
  return null;
}
export const attrOf = (M, n, name) => { for (const a of n.slots.attrs) if (M.fold(a.k) === name) return a.v; for (const a of n.slots.jsp) { const k = M.fold(a.k); if (typeof k === 'string' && k.toLowerCase() === name) return a.v; } return undefined; };
function styleObj(M, n) {
  if (n.slots.styleObj) return n.slots.styleObj;
  const o = M.obj('CSSStyleDeclaration', StyleP); o.slots.el = n; n.slots.styleObj = o; return o;
}
const st = (M, t) => M.fold(t).slots.el.slots;
def(StyleP, 'setProperty', (M, t, [k, v, prio]) => { const s = st(M, t).style; k = M.toStr(k); v = M.fold(v); if (v === null || v === '') { rmStyle(M, s, k); return; } const e = attrFind(M, s.e, k); v = M.toStr(v); if (e) { e.v = v; e.prio = prio; } else s.e.push({ k, v, prio }); });
def(StyleP, 'removeProperty', (M, t, [k]) => { rmStyle(M, st(M, t).style, M.toStr(k)); return ''; });
function rmStyle(M, s, k) { const e = attrFind(M, s.e, k); if (e) s.e.splice(s.e.indexOf(e), 1); else if (s.base !== '') s.base = M.term('cssWithout', [s.base, k], KS.STRING); }
def(StyleP, 'getPropertyValue', (M, t, [k]) => { const s = st(M, t).style; const e = attrFind(M, s.e, M.toStr(k)); if (e) return e.v; return s.base === '' ? '' : M.sym('css value', KS.STRING, { distinct: true }); });
StyleP.slots.exotic = {
  get(M, o, key, recv) {
    const r = deref(recv); if (!isObj(r) || !r.slots.el) return NOPE;
    const s = r.slots.el.slots.style;
    if (key === 'cssText') { if (!s.e.length) return s.base; return M.sym('cssText', K.STR, { distinct: true }); }
    if (key === 'length') { if (s.base === '') return s.e.length; return M.sym('style.length', KS.NUMBER); }
    if (isSym(key) || typeof key === 'symbol') return isSym(key) ? styleGet(M, s, M.term('kebab', [key], KS.STRING)) : NOPE;
    if (StyleP.props.has(key)) return NOPE;
    return styleGet(M, s, kebab(key));
  },
  set(M, o, key, v) {
    if (!o.slots.el) return NOPE;
    const s = o.slots.el.slots.style;
    if (key === 'cssText') { s.e = []; v = M.fold(v); s.base = v === null ? '' : M.toStr(v); return true; }
    const k = isSym(key) ? M.term('kebab', [key], KS.STRING) : kebab(key);
    v = M.fold(v);
    if (v === '' || v === null) { rmStyle(M, s, k); return true; }
    const e = attrFind(M, s.e, k); if (e) e.v = M.toStr(v); else s.e.push({ k, v: M.toStr(v) });
    return true;
  },
};
function kebab(k) { return k.startsWith('--') ? k : k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase()); }
function styleGet(M, s, k) { const e = attrFind(M, s.e, k); return e ? e.v : s.base === '' ? '' : M.sym('css value', KS.STRING, { distinct: true }); }

// ---- listeners
function lisOpts(M, o) { o = M.fold(o); if (isObj(o)) { const sig = M.fold(M.get(o, 'signal')); return { cap: M.truthy(M.get(o, 'capture')), once: M.truthy(M.get(o, 'once')), signal: isObj(sig) ? sig : null }; } return { cap: o === undefined ? false : M.truthy(o), once: false, signal: null }; }
function sameLis(M, l, type, h, cap) { return l.cap === cap && sameKey(M, l.type, type) && (deref(l.h) === deref(h) || M.known(l.h, h) === true || (M.known(l.h, h) === null && M.eq(l.h, h))); }
def(EventTargetP, 'addEventListener', (M, t, [type, h, o]) => {
  const n = M.fold(t); if (!isObj(n) || !n.slots.lis) { if (isObj(n)) n.slots.lis ??= []; else throw new Inconclusive('addEventListener on ' + show(n)); }
  h = M.fold(h); if (h === null || h === undefined) return;
  const op = lisOpts(M, o); type = M.toStr(type);
  if (op.signal?.slots.aborted) return;
  M.log.push({ t: 'listen', node: n, type, h, who: show(type), site: M.site });
  if (n.slots.lis.some((l) => sameLis(M, l, type, h, op.cap))) return;
  const rec = { type, h, cap: op.cap, once: op.once };
  n.slots.lis.push(rec);
  if (op.signal) (op.signal.slots.onabort ??= []).push(() => { const i = n.slots.lis.indexOf(rec); if (i >= 0) n.slots.lis.splice(i, 1); });
});
def(EventTargetP, 'removeEventListener', (M, t, [type, h, o]) => {
  const n = M.fold(t); if (!isObj(n) || !n.slots.lis) return; h = M.fold(h); type = M.toStr(type);
  const op = lisOpts(M, o);
  const l = n.slots.lis.find((x) => sameLis(M, x, type, h, op.cap));
  M.log.push({ t: 'unlisten', node: n, type, h, who: show(type), site: M.site });
  if (l) n.slots.lis.splice(n.slots.lis.indexOf(l), 1);
});
export function dispatch(M, n, ev) {
  M.log.push({ t: 'dispatch', node: n, ev, who: show(M.get(ev, 'type')), site: M.site });
  if (ev.props.get('target') && deref(ev.props.get('target').v) === null) ev.props.get('target').v = n;
  for (const l of [...n.slots.lis]) {
    if (!n.slots.lis.includes(l)) continue;
    if (!sameKey(M, l.type, M.get(ev, 'type'))) continue;
    if (l.once) n.slots.lis.splice(n.slots.lis.indexOf(l), 1);
    const h = M.fold(l.h);
    if (isObj(h) && h.cls !== 'Function') M.callMethod(h, 'handleEvent', [ev]); else M.call(h, n, [ev]);
  }
  return true;
}
def(EventTargetP, 'dispatchEvent', (M, t, [ev]) => { const n = M.fold(t); ev = M.fold(ev); if (!isObj(n) || !n.slots.lis) throw new Inconclusive('dispatchEvent on ' + show(n)); if (!isObj(ev)) throw M.throwError('TypeError', 'not an Event'); return dispatch(M, n, ev); });
def(EventP, 'preventDefault', (M, t) => { M.put(M.fold(t), 'defaultPrevented', true); });
def(EventP, 'stopPropagation', (M, t) => { M.fold(t).slots.stopped = true; });
def(EventP, 'stopImmediatePropagation', (M, t) => { M.fold(t).slots.stopped = true; });
def(EventP, 'composedPath', (M, t) => M.arr([]));

// ---- node accessors
const ND = (f) => f;
const NODE_GET = {
  childNodes: (M, n) => (n.slots.listObj ??= nodeList(M, n, false)),
  children: (M, n) => nodeList(M, n, true),
  firstChild: (M, n) => n.slots.kids[0] ?? null, lastChild: (M, n) => n.slots.kids[n.slots.kids.length - 1] ?? null,
  firstElementChild: (M, n) => n.slots.kids.find((k) => k.slots.dom === 'element') ?? null,
  lastElementChild: (M, n) => [...n.slots.kids].reverse().find((k) => k.slots.dom === 'element') ?? null,
  childElementCount: (M, n) => n.slots.kids.filter((k) => k.slots.dom === 'element').length,
  nextSibling: (M, n) => sib(n, 1), previousSibling: (M, n) => { const p = n.slots.parent; if (!p) return null; const i = p.slots.kids.indexOf(n); return i > 0 ? p.slots.kids[i - 1] : null; },
  parentNode: (M, n) => n.slots.parent, parentElement: (M, n) => (n.slots.parent?.slots.dom === 'element' ? n.slots.parent : null),
  nodeType: (M, n) => ({ element: 1, text: 3, comment: 8, fragment: 11, shadow: 11, document: 9 })[n.slots.dom],
  nodeName: (M, n) => (n.slots.dom === 'element' ? tagName(M, n) : '#' + n.slots.dom),
  textContent: (M, n) => textOf(M, n),
  nodeValue: (M, n) => (n.slots.dom === 'text' || n.slots.dom === 'comment' ? n.slots.text : null),
  data: (M, n) => (n.slots.dom === 'text' || n.slots.dom === 'comment' ? n.slots.text : NOPE),
  isConnected: (M, n) => n.slots.connected ?? M.sym('isConnected', KS.BOOL),
  ownerDocument: (M, n) => M.globalObj.props.get('document')?.v,
  host: (M, n) => (n.slots.dom === 'shadow' ? n.slots.host : NOPE),
  mode: (M, n) => (n.slots.dom === 'shadow' ? 'open' : NOPE),
};
const EL_GET = {
  tagName: (M, n) => tagName(M, n),
  localName: (M, n) => n.slots.tag, namespaceURI: (M, n) => n.slots.ns,
  className: (M, n) => getAttr(M, n, 'class') ?? '', id: NOPE,
  style: (M, n) => styleObj(M, n),
  shadowRoot: (M, n) => n.slots.shadow ?? null,
  outerHTML: (M, n) => M.sym('outerHTML', KS.STRING), innerHTML: (M, n) => (n.slots.kids.length ? M.sym('innerHTML', KS.STRING) : ''),
  isComposing: () => undefined,
};
function tagName(M, n) { const t = M.fold(n.slots.tag); if (n.slots.ns !== XHTML) return t; return M.term('str.toUpperCase', [t], KS.STRING); }
NodeP.slots.exotic = {
  get(M, p, key, recv) { const n = deref(recv); if (!isObj(n) || !n.slots.dom || typeof key !== 'string') return NOPE; const g = NODE_GET[key]; if (g && Object.prototype.hasOwnProperty.call(NODE_GET, key)) return g(M, n); return NOPE; },
  set(M, o, key, v) { return nodeSet(M, o, key, v); },
  has(M, p, key) { return typeof key === 'string' && Object.prototype.hasOwnProperty.call(NODE_GET, key) && !['data', 'host', 'mode'].includes(key) ? true : NOPE; },
};
ElementP.slots.exotic = {
  get(M, p, key, recv) { const n = deref(recv); if (!isObj(n) || n.slots.dom !== 'element' || typeof key !== 'string') return NOPE; if (Object.prototype.hasOwnProperty.call(EL_GET, key)) { const g = EL_GET[key]; return g === NOPE ? NOPE : g(M, n); } return NOPE; },
  set(M, o, key, v) { return elSet(M, o, key, v); },
  has(M, p, key) { return typeof key === 'string' && key !== 'isComposing' && Object.prototype.hasOwnProperty.call(EL_GET, key) ? true : NOPE; },
};
function nodeSet(M, n, key, v) {
  if (!n.slots.dom) return NOPE;
  if (key === 'textContent' || ((key === 'nodeValue' || key === 'data') && (n.slots.dom === 'text' || n.slots.dom === 'comment'))) {
    const s = M.isNullish(v) ? '' : M.toStr(v);
    if (n.slots.dom === 'text' || n.slots.dom === 'comment') { n.slots.text = s; M.log.push({ t: 'text-set', node: n, v: s, who: show(s), site: M.site }); return true; }
    clearKids(M, n);
    if (s !== '') insert(M, n, newText(M, s));
    return true;
  }
  return NOPE;
}
function elSet(M, n, key, v) {
  if (n.slots.dom !== 'element' && n.slots.dom !== 'shadow') return NOPE;
  if (key === 'className') { setAttr(M, n, 'class', M.toStr(v)); return true; }
  if (key === 'innerHTML' || key === 'outerHTML') {
    v = M.fold(v);
    if (v === '' && key === 'innerHTML') { clearKids(M, n); return true; }
    M.log.push({ t: 'html-sink', who: key, node: n, args: [v], site: M.site });
    if (key === 'innerHTML') { clearKids(M, n); insert(M, n, newNode(M, 'raw', NodeP, { html: v })); }
    return true;
  }
  if (key === 'style') { n.slots.style = { base: M.toStr(v), e: [] }; return true; }
  return NOPE;
}
ShadowRootP.slots.exotic = { set: (M, o, key, v) => elSet(M, o, key, v) };

const UNIVERSAL = new Set(['id', 'title', 'lang', 'dir', 'hidden', 'tabIndex', 'className', 'textContent', 'innerHTML', 'style', 'accessKey', 'draggable', 'contentEditable', 'innerText', 'slot', 'dataset', 'nodeValue', 'onclick', 'part', 'classList', 'attributes', 'scrollTop', 'scrollLeft', 'translate', 'spellcheck', 'autofocus', 'inert', 'nonce', 'popover']);
const NEVER = new Set(['isComposing', 'class', 'for']);
/** read-only properties that reflect an attribute of the same name */
const READ_ONLY = { form: new Set(['input', 'button', 'select', 'textarea', 'label', 'fieldset', 'object', 'output']), list: new Set(['input']) };
const readOnly = (M, o, key) => typeof key === 'string' && Object.prototype.hasOwnProperty.call(READ_ONLY, key) && o.slots.ns !== SVG && READ_ONLY[key].has(M.fold(o.slots.tag));
const ELEMENT_EXOTIC = {
  get(M, o, key, recv) {
    if (typeof key === 'symbol') return NOPE;
    if (readOnly(M, o, key)) return null;
    if (!isSym(key)) {
      if (Object.prototype.hasOwnProperty.call(NODE_GET, key) || (Object.prototype.hasOwnProperty.call(EL_GET, key) && EL_GET[key] !== NOPE) || key === 'children') return NOPE;
      if (methodNames.has(key)) return NOPE;
    }
    const a = attrFind(M, o.slots.jsp, key);
    if (a) return a.v;
    if (!isSym(key) && (key === 'constructor' || key === 'isComposing')) return NOPE;
    return M.term('initProp', [o.slots.tag, key], KS.ANY);
  },
  set(M, o, key, v) {
    if (typeof key === 'symbol') return NOPE;
    if (readOnly(M, o, key)) throw M.throwError('TypeError', `Cannot set property ${key} of element which has only a getter`);
    if (!isSym(key)) { const r = nodeSet(M, o, key, v); if (r !== NOPE) return r; const r2 = elSet(M, o, key, v); if (r2 !== NOPE) return r2; }
    const a = attrFind(M, o.slots.jsp, key);
    if (a) a.v = v; else o.slots.jsp.push({ k: deref(key), v });
    if (!attrFind(M, o.slots.reflect, key)) o.slots.reflect.push({ k: deref(key) });
    M.log.push({ t: 'prop-set', node: o, k: key, v, who: show(key), site: M.site });
    return true;
  },
  has(M, o, key) {
    if (typeof key === 'symbol') return NOPE;
    if (!isSym(key)) {
      if (NEVER.has(key)) return false;
      if (readOnly(M, o, key)) return true;
      if (UNIVERSAL.has(key) || methodNames.has(key)) return true;
      if (/[-:\s]/.test(key)) return false;
      if (key in NODE_GET && !['data', 'host', 'mode'].includes(key)) return true;
      if (key in EL_GET) return true;
    }
    if (o.slots.ns === SVG) return M.term('hasIdl', [o.slots.tag, key], KS.BOOL);
    const t = M.term('hasIdl', [o.slots.tag, key], KS.BOOL);
    return M.truthy(t, `${show(key)} is an IDL property of <${show(o.slots.tag)}>`);
  },
};

// ---- node methods
const meth = {
  appendChild: (M, t, [c]) => { const n = self(M, t); const k = nodeOf(M, c); insert(M, n, k); return k; },
  removeChild: (M, t, [c]) => { const n = self(M, t); const k = nodeOf(M, c); if (k.slots.parent !== n) throw M.throwError('NotFoundError', 'The node to be removed is not a child of this node'); detach(M, k); return k; },
  replaceChild: (M, t, [nw, old]) => { const n = self(M, t); const a = nodeOf(M, nw), b = nodeOf(M, old); if (b.slots.parent !== n) throw M.throwError('NotFoundError', 'The node to be replaced is not a child of this node'); const i = n.slots.kids.indexOf(b); const ref = n.slots.kids[i + 1] ?? null; detach(M, b); insert(M, n, a, ref === a ? null : ref); return b; },
  insertBefore: (M, t, [c, ref]) => { const n = self(M, t); const r = M.fold(ref); insert(M, n, nodeOf(M, c), r === null || r === undefined ? null : nodeOf(M, r)); return c; },
  hasChildNodes: (M, t) => self(M, t).slots.kids.length > 0,
  contains: (M, t, [c]) => { const n = self(M, t); c = M.fold(c); for (let q = isObj(c) ? c : null; q; q = q.slots.parent) if (q === n) return true; return false; },
  getRootNode: (M, t) => rootOf(self(M, t)),
  cloneNode: () => { throw new Inconclusive('cloneNode'); },
  isSameNode: (M, t, [o]) => M.fold(t) === M.fold(o),
};
for (const [k, f] of Object.entries(meth)) def(NodeP, k, f);
for (const [k, v] of Object.entries({ ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_FRAGMENT_NODE: 11, DOCUMENT_NODE: 9 })) NodeP.props.set(k, { v, e: true, w: false, c: false });
const childNodeM = {
  remove: (M, t) => { detach(M, self(M, t)); },
  replaceWith: (M, t, a) => { const n = self(M, t); const p = n.slots.parent; if (!p) return; const ref = sib(n, 1); detach(M, n); for (const x of toNodes(M, a)) insert(M, p, x, ref); },
  after: (M, t, a) => { const n = self(M, t); const p = n.slots.parent; if (!p) return; const ref = sib(n, 1); for (const x of toNodes(M, a)) insert(M, p, x, ref); },
  before: (M, t, a) => { const n = self(M, t); const p = n.slots.parent; if (!p) return; for (const x of toNodes(M, a)) insert(M, p, x, n); },
};
for (const P of [ElementP, TextP, CommentP]) for (const [k, f] of Object.entries(childNodeM)) def(P, k, f);
const parentM = {
  append: (M, t, a) => { const n = self(M, t); for (const x of toNodes(M, a)) insert(M, n, x); },
  prepend: (M, t, a) => { const n = self(M, t); const ref = n.slots.kids[0] ?? null; for (const x of toNodes(M, a)) insert(M, n, x, ref); },
  replaceChildren: (M, t, a) => { const n = self(M, t); clearKids(M, n); for (const x of toNodes(M, a)) insert(M, n, x); },
  querySelector: (M, t, [s]) => query(M, self(M, t), M.fold(s))[0] ?? null,
  querySelectorAll: (M, t, [s]) => M.arr(query(M, self(M, t), M.fold(s))),
  getElementById: (M, t, [s]) => query(M, self(M, t), '#' + M.fold(s))[0] ?? null,
};
for (const P of [ElementP, FragmentP, DocumentP]) for (const [k, f] of Object.entries(parentM)) def(P, k, f);
function query(M, n, sel) {
  const holes = [];
  if (isSym(sel) && sel.op === 'cat') sel = sel.args.map((a) => { a = deref(a); return typeof a === 'string' ? a : `\u0001${holes.push(a) - 1}\u0001`; }).join('');
  if (typeof sel !== 'string') throw new Inconclusive('dynamic selector');
  const out = [];
  const tests = sel.split(',').map((s) => parseSel(s.trim(), holes));
  const visit = (x) => { for (const k of x.slots.kids) { if (k.slots.dom === 'element' && tests.some((ts) => ts(M, k))) out.push(k); visit(k); } };
  visit(n);
  // the page around the elements is unknown: it may hold a matching element
  if (n.slots.dom === 'document' && out.length === 0 && M.choose(2, `the page holds an element matching ${show(sel)}: no / yes`) === 1) { const m = sel.match(/^[a-zA-Z][\w-]*/); const e = newElement(M, m ? m[0].toLowerCase() : 'div'); e.slots.pageOwn = true; e.slots.connected = true; out.push(e); }
  return out;
}
function parseSel(s, holes = []) {
  const hole = (v) => { const h = /^\u0001(\d+)\u0001$/.exec(v); if (h) return holes[Number(h[1])]; if (v.includes('\u0001')) throw new Inconclusive('dynamic selector'); return v; };
  const m = s.match(/^([a-zA-Z][\w-]*|\*)?((?:\[[^\]]+\]|\.[\w-]+|#[\w-]+)*)$/);
  if (!m) throw new Inconclusive('selector ' + s);
  const attrs = [...(m[2] ?? '').matchAll(/\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]|\.([\w-]+)|#([\w-]+)/g)];
  return (M, n) => {
    if (m[1] && m[1] !== '*' && M.fold(n.slots.tag) !== m[1]) { const t = M.fold(n.slots.tag); if (isSym(t)) { if (!M.eq(t, m[1])) return false; } else return false; }
    for (const a of attrs) {
      if (a[1]) { const v = attrOf(M, n, a[1]); if (v === undefined || v === null) return false; if (a[2] !== undefined && !sameKey(M, v, hole(a[2]))) return false; } else if (a[3]) { const v = attrOf(M, n, 'class'); if (M.fold(v) !== a[3]) return false; } else if (a[4]) { const v = attrOf(M, n, 'id'); if (v === undefined || !sameKey(M, v, a[4])) return false; }
    }
    return true;
  };
}
const elM = {
  setAttribute: (M, t, [k, v]) => { const n = self(M, t); if (M.fold(k) === 'style') { n.slots.style = { base: M.toStr(v), e: [] }; return; } setAttr(M, n, k, M.toStr(v)); },
  setAttributeNS: (M, t, [nsu, k, v]) => setAttr(M, self(M, t), k, M.toStr(v)),
  getAttribute: (M, t, [k]) => getAttr(M, self(M, t), k),
  hasAttribute: (M, t, [k]) => hasAttr(M, self(M, t), k),
  removeAttribute: (M, t, [k]) => delAttr(M, self(M, t), k),
  toggleAttribute: (M, t, [k, f]) => { const n = self(M, t); const on = f === undefined ? !hasAttr(M, n, k) : M.truthy(f); if (on) setAttr(M, n, k, ''); else delAttr(M, n, k); return on; },
  getAttributeNames: (M, t) => M.arr(self(M, t).slots.attrs.map((a) => a.k)),
  attachShadow: (M, t, [o]) => { const n = self(M, t); if (n.slots.shadow) throw M.throwError('NotSupportedError', 'already has a shadow root'); M.log.push({ t: 'attachShadow', node: n, mode: M.get(o, 'mode'), site: M.site }); return newShadow(M, n); },
  insertAdjacentHTML: (M, t, a) => { M.log.push({ t: 'html-sink', who: 'insertAdjacentHTML', args: a, site: M.site }); },
  insertAdjacentElement: () => { throw new Inconclusive('insertAdjacentElement'); },
  matches: (M, t, [s]) => parseSel(M.fold(s))(M, self(M, t)),
  closest: () => { throw new Inconclusive('closest'); },
  focus: () => undefined, blur: () => undefined, click: () => undefined,
};
for (const [k, f] of Object.entries(elM)) def(ElementP, k, f);
for (const P of [TextP, CommentP]) for (const [k, f] of Object.entries({ appendData: (M, t, [s]) => { const n = self(M, t); n.slots.text = M.term('cat', [n.slots.text, M.toStr(s)]); }, replaceData: () => { throw new Inconclusive('replaceData'); } })) def(P, k, f);
const methodNames = new Set(); for (const P of [EventTargetP, NodeP, ElementP]) for (const k of P.props.keys()) methodNames.add(k);

// ---- constructors
const illegal = (n) => ({ construct: (M) => { throw M.throwError('TypeError', 'Illegal constructor ' + n); } });
const elementCtor = (name, P) => ctor(name, P, { construct: (M, a, nt) => { const o = newElement(M, (M.ceNames?.get(deref(nt))) ?? M.sym('custom-element-name', K.STR), XHTML, M.interp.protoOf(nt)); o.slots.custom = true; return o; } });
const HTMLElementC = elementCtor('HTMLElement', HTMLElementP);
const nodeTest = (pred) => (M, v) => { v = M.fold(v); if (isObj(v) && v.slots.dom && !v.slots.custom) return pred(v); return NOPE; };
const ElementC = ctor('Element', ElementP, illegal('Element')); const NodeC = ctor('Node', NodeP, illegal('Node'));
for (const [k, d] of NodeP.props) if (typeof d.v === 'number') NodeC.props.set(k, d);
const SVGElementC = ctor('SVGElement', SVGElementP, illegal('SVGElement'));
SVGElementC.slots.instanceTest = nodeTest((n) => n.slots.dom === 'element' && n.slots.ns === SVG);
HTMLElementC.slots.instanceTest = nodeTest((n) => n.slots.dom === 'element' && n.slots.ns === XHTML);
const TextC = ctor('Text', TextP, { construct: (M, [v]) => newText(M, M.toStr(v ?? '')) }); const CommentC = ctor('Comment', CommentP, { construct: (M, [v]) => newComment(M, M.toStr(v ?? '')) });
const ShadowRootC = ctor('ShadowRoot', ShadowRootP, illegal('ShadowRoot')); const FragC = ctor('DocumentFragment', FragmentP, { construct: (M) => newNode(M, 'fragment', FragmentP) });
const EventC = ctor('Event', EventP, { construct: (M, [type, o], nt) => buildEvent(M, type, o, false, nt) });
const CustomEventC = ctor('CustomEvent', CustomEventP, { construct: (M, [type, o], nt) => buildEvent(M, type, o, true, nt) });
function buildEvent(M, type, o, custom, nt) {
  o = M.fold(o);
  const g = (k, d) => { if (o === undefined || o === null) return d; const v = M.get(o, k); return M.fold(v) === undefined ? d : v; };
  const e = mkEvent(M, M.toStr(type), { custom, detail: custom ? g('detail', null) : null, bubbles: g('bubbles', false), composed: g('composed', false), cancelable: g('cancelable', false) });
  const p = M.interp.protoOf(nt); if (p !== objectProto) e.proto = p;
  M.log.push({ t: 'event-created', ev: e, who: show(type), site: M.site });
  return e;
}
const EventTargetC = ctor('EventTarget', EventTargetP, { construct: (M, a, nt) => { const o = M.obj('Object', M.interp.protoOf(nt)); o.slots.lis = []; return o; } });
const AbortControllerC = ctor('AbortController', AbortP, { construct: (M) => { const o = M.obj('AbortController', AbortP); const s = M.obj('Object'); s.slots.aborted = false; M.put(s, 'aborted', false); M.put(o, 'signal', s); return o; } });
def(AbortP, 'abort', (M, t) => { const s = M.fold(M.get(t, 'signal')); if (s.slots.aborted) return; s.slots.aborted = true; M.put(s, 'aborted', true); for (const f of s.slots.onabort ?? []) f(); });

// ---- customElements
def(RegistryP, 'define', (M, t, [name, cls]) => {
  const r = M.fold(t); cls = M.fold(cls);
  const ex = r.slots.defs.find((d) => sameKey(M, d.name, name));
  M.log.push({ t: 'define', name, cls, who: show(name), site: M.site });
  if (ex) throw M.throwError('NotSupportedError', 'the name has already been used with this registry');
  r.slots.defs.push({ name: deref(name), cls }); (M.ceNames ??= new Map()).set(cls, name);
});
def(RegistryP, 'get', (M, t, [name]) => M.fold(t).slots.defs.find((d) => sameKey(M, d.name, name))?.cls);
def(RegistryP, 'whenDefined', (M, t, [name]) => B.promiseResolved(M, undefined));
def(RegistryP, 'upgrade', () => undefined);
def(RegistryP, 'getName', () => null);

// ---- document
const docM = {
  createElement: (M, t, [tag]) => { tag = M.toStr(tag); if (typeof tag === 'string') tag = tag.toLowerCase(); const e = newElement(M, tag, XHTML); M.log.push({ t: 'createElement', who: show(tag), node: e, site: M.site }); return e; },
  createElementNS: (M, t, [nsu, tag]) => { nsu = M.fold(nsu); if (isSym(nsu)) throw new Inconclusive('dynamic namespace'); return newElement(M, M.toStr(tag), nsu ?? ''); },
  createTextNode: (M, t, [v]) => newText(M, M.toStr(v)), createComment: (M, t, [v]) => newComment(M, M.toStr(v)),
  createDocumentFragment: (M) => newNode(M, 'fragment', FragmentP),
  write: (M, t, a) => { M.log.push({ t: 'html-sink', who: 'document.write', args: a, site: M.site }); },
  createRange: () => { throw new Inconclusive('createRange'); }, importNode: () => { throw new Inconclusive('importNode'); },
};
for (const [k, f] of Object.entries(docM)) def(DocumentP, k, f);

export const DOM_GLOBALS = { HTMLElement: HTMLElementC, Element: ElementC, Node: NodeC, SVGElement: SVGElementC, Text: TextC, Comment: CommentC, ShadowRoot: ShadowRootC, DocumentFragment: FragC, Event: EventC, CustomEvent: CustomEventC, EventTarget: EventTargetC, AbortController: AbortControllerC };
export function installDom(M) {
  M.domInstalled = true;
  const g = M.globalObj;
  for (const [k, v] of Object.entries(DOM_GLOBALS)) M.put(g, k, v, false);
  const doc = newNode(M, 'document', DocumentP); doc.name = 'document';
  M.put(g, 'document', doc, false);
  const ce = M.obj('CustomElementRegistry', RegistryP); ce.slots.defs = []; ce.name = 'customElements';
  M.put(g, 'customElements', ce, false);
  M.put(g, 'window', g, false); M.put(g, 'self', g, false);
  M.registry = ce; M.document = doc;
}
export { HTMLElementP, ShadowRootP, dispatch as dispatchEvent };

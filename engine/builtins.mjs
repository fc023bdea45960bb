// Abstract semantics of the ECMAScript library used by the analysed code.
import { AObj, Sym, K, KS, kindsOf, deref, isSym, isObj, isPrim, show, canonKey } from './values.mjs';
import { Machine, Inconclusive, JsThrow, NOPE, STRING_METHODS, reConst, joinParts } from './machine.mjs';

let nid = -1;
function mk(cls, proto) { return new AObj(nid--, cls, proto); }
const objectProto = mk('Object', null);
const functionProto = mk('Object', objectProto);
const arrayProto = mk('Object', objectProto);
const protos = { Object: objectProto, Function: functionProto, Array: arrayProto };
for (const n of ['Map', 'Set', 'WeakMap', 'WeakSet', 'Promise', 'RegExp', 'Iterator', 'Date', 'Symbol', 'String', 'Number', 'Boolean', 'WeakRef']) protos[n] = mk('Object', objectProto);
protos.Error = mk('Object', objectProto);
const errorProtos = { Error: protos.Error };
for (const n of ['TypeError', 'RangeError', 'ReferenceError', 'SyntaxError', 'EvalError', 'URIError', 'AggregateError']) errorProtos[n] = mk('Object', protos.Error);
for (const p of [...Object.values(protos), ...Object.values(errorProtos)]) p.slots.builtinProto = true;

function nat(name, fn, extra) { const o = mk('Function', functionProto); o.slots.native = fn; o.slots.nname = name; if (extra) Object.assign(o.slots, extra); return o; }
function def(o, name, fn) { o.props.set(name, { v: typeof fn === 'function' ? nat(String(name), fn) : fn, e: false, w: true, c: true }); }
function ns(name, table) { const o = mk('Object', objectProto); o.name = name; for (const [k, f] of Object.entries(table)) def(o, k, f); return o; }
function ctor(name, proto, { call, construct, statics = {} }) {
  const f = nat(name, call ?? ((M) => { throw M.throwError('TypeError', `${name} requires new`); }), { construct, fname: name });
  f.props.set('prototype', { v: proto, e: false, w: false, c: false });
  proto.props.set('constructor', { v: f, e: false, w: true, c: true });
  for (const [k, v] of Object.entries(statics)) def(f, k, v);
  return f;
}
const protoFromNewTarget = (M, nt, dflt) => { const p = nt ? M.get(nt, 'prototype') : null; return isObj(p) ? p : dflt; };

// ---- Object
function descOf(M, d) { // attribute object -> internal descriptor
  d = M.fold(d);
  if (isSym(d)) throw new Inconclusive('opaque property descriptor');
  const out = {};
  const has = (k) => M.truthy(M.has(d, k));
  if (has('get') || has('set')) { out.get = has('get') ? M.fold(M.get(d, 'get')) : undefined; out.set = has('set') ? M.fold(M.get(d, 'set')) : undefined; if (out.get === undefined) delete out.get; if (out.set === undefined) delete out.set; if (!out.get && !out.set) out.get = undefined; } else out.v = has('value') ? M.get(d, 'value') : undefined;
  out.e = has('enumerable') ? M.truthy(M.get(d, 'enumerable')) : false;
  out.c = has('configurable') ? M.truthy(M.get(d, 'configurable')) : false;
  if ('v' in out) out.w = has('writable') ? M.truthy(M.get(d, 'writable')) : false;
  return out;
}
function defineProp(M, o, key, d) {
  o = M.fold(o); key = M.toKey(key);
  if (!isObj(o)) { if (isSym(o)) { M.log.push({ t: 'opaque-write', obj: o, key, v: d.v, site: M.site }); return; } throw M.throwError('TypeError', 'Object.defineProperty called on non-object'); }
  if (o.cls === 'Array' && /^\d+$/.test(String(key)) && 'v' in d) { M.set(o, key, d.v); return; }
  const ex = M.findOwn(o, key);
  if (ex) {
    if (ex.d.c === false) {
      // redefinition of a non-configurable property
      const same = 'v' in ex.d && 'v' in d ? (ex.d.w !== false || M.same(ex.d.v, d.v) === 'eq') : ex.d.get === d.get && ex.d.set === d.set;
      if (!same || d.c) throw M.throwError('TypeError', `Cannot redefine property: ${show(key)}`);
    }
    o.props.set(ex.k, d); if (isSym(ex.k)) o.hasSym = true; return;
  }
  if (!o.ext) throw M.throwError('TypeError', `Cannot define property ${show(key)}, object is not extensible`);
  if (isSym(key)) o.hasSym = true;
  o.props.set(key, d);
}
function needObj(M, o, what) { o = M.fold(o); if (isSym(o)) throw new Inconclusive(what + ' of an opaque object'); if (o === undefined || o === null) throw M.throwError('TypeError', 'Cannot convert undefined or null to object'); return o; }
function descToObj(M, d) {
  const o = M.obj('Object');
  if ('v' in d) { M.put(o, 'value', d.v); M.put(o, 'writable', d.w !== false); } else { M.put(o, 'get', d.get); M.put(o, 'set', d.set); }
  M.put(o, 'enumerable', d.e !== false); M.put(o, 'configurable', d.c !== false);
  return o;
}
function freeze(M, o) {
  o = M.fold(o);
  if (!isObj(o)) return o;
  o.ext = false;
  for (const d of o.props.values()) { d.c = false; if ('v' in d) d.w = false; }
  if (o.slots.items) o.slots.frozen = true;
  return o;
}
const ObjectCtor = ctor('Object', objectProto, {
  call: (M, t, a) => { const v = M.fold(a[0]); return v === undefined || v === null ? M.obj('Object') : v; },
  construct: (M, a) => { const v = M.fold(a[0]); return isObj(v) || isSym(v) ? v : M.obj('Object'); },
  statics: {
    keys: (M, t, [o]) => { o = needObj(M, o, 'Object.keys'); if (isPrim(o)) return M.arr([]); if (o.spreads) throw new Inconclusive('keys of an object with opaque spread'); return M.arr(M.ownKeys(o)); },
    values: (M, t, [o]) => { o = needObj(M, o, 'Object.values'); if (isPrim(o)) return M.arr([]); if (o.spreads) throw new Inconclusive('values of an object with opaque spread'); return M.arr(M.ownKeys(o).map((k) => M.get(o, k))); },
    entries: (M, t, [o]) => { o = needObj(M, o, 'Object.entries'); if (isPrim(o)) return M.arr([]); if (o.spreads) throw new Inconclusive('entries of an object with opaque spread'); return M.arr(M.ownKeys(o).map((k) => M.arr([k, M.get(o, k)]))); },
    fromEntries: (M, t, [it]) => { const o = M.obj('Object'); for (const e of M.interp.iterateAll(it)) M.interp.defOwn(o, M.get(e, '0'), M.get(e, '1')); return o; },
    assign: (M, t, [o, ...srcs]) => { const to = M.fold(o); for (const s0 of srcs) { const s = M.fold(s0); if (s === undefined || s === null) continue; if (isSym(s)) { if (isObj(to)) M.interp.copyProps(to, s); else throw new Inconclusive('assign'); continue; } if (isPrim(s)) continue; for (const k of M.ownKeys(s)) M.set(to, k, M.get(s, k)); if (s.spreads && isObj(to)) (to.spreads ??= []).push(...s.spreads); } return to; },
    create: (M, t, [p, props]) => { p = M.fold(p); const o = M.obj('Object', p === null ? null : isObj(p) ? p : undefined); if (props !== undefined && props !== null) defProps(M, o, props); return o; },
    freeze: (M, t, [o]) => freeze(M, o),
    seal: (M, t, [o]) => { o = M.fold(o); if (isObj(o)) { o.ext = false; for (const d of o.props.values()) d.c = false; } return o; },
    preventExtensions: (M, t, [o]) => { o = M.fold(o); if (isObj(o)) o.ext = false; return o; },
    isFrozen: (M, t, [o]) => { o = M.fold(o); return !isObj(o) || (!o.ext && [...o.props.values()].every((d) => d.c === false && d.w !== true)); },
    isSealed: (M, t, [o]) => { o = M.fold(o); return !isObj(o) || (!o.ext && [...o.props.values()].every((d) => d.c === false)); },
    groupBy: (M, t, [it, f]) => { const r = M.obj('Object', null); let i = 0; for (const x of M.interp.iterateAll(it)) { const k = M.call(f, undefined, [x, i++]); if (!M.truthy(hasOwn(M, r, k))) M.interp.defOwn(r, k, M.arr([])); M.callMethod(M.get(r, k), 'push', [x]); } return r; },
    isExtensible: (M, t, [o]) => { o = M.fold(o); return isObj(o) && o.ext; },
    defineProperty: (M, t, [o, k, d]) => { defineProp(M, o, k, descOf(M, d)); return o; },
    defineProperties: (M, t, [o, ps]) => { defProps(M, o, ps); return o; },
    getOwnPropertyDescriptor: (M, t, [o, k]) => { o = M.fold(o); if (isSym(o)) return M.term('ownDesc', [o, M.toKey(k)], K.UNDEF | K.OBJ); if (!isObj(o)) return undefined; const f = M.findOwn(o, M.toKey(k)); return f ? descToObj(M, f.d) : undefined; },
    getOwnPropertyDescriptors: (M, t, [o]) => { o = needObj(M, o, 'getOwnPropertyDescriptors'); const r = M.obj('Object'); if (!isObj(o)) return r; if (o.spreads) throw new Inconclusive('descriptors of an object with opaque spread'); for (const [k, d] of o.props) M.put(r, k, descToObj(M, d)); return r; },
    getOwnPropertyNames: (M, t, [o]) => { o = needObj(M, o, 'getOwnPropertyNames'); if (isPrim(o)) return M.arr([]); return M.arr([...(o.slots.items ? o.slots.items.map((_, i) => String(i)) : []), ...[...o.props.keys()].filter((k) => typeof k !== 'symbol').map(deref)]); },
    getOwnPropertySymbols: (M, t, [o]) => { o = needObj(M, o, 'getOwnPropertySymbols'); return M.arr(isObj(o) ? [...o.props.keys()].filter((k) => typeof k === 'symbol') : []); },
    getPrototypeOf: (M, t, [o]) => { o = M.fold(o); if (isSym(o)) return M.term('protoOf', [o], K.NULL | K.OBJ); return isObj(o) ? o.proto : objectProto; },
    setPrototypeOf: (M, t, [o, p]) => { o = M.fold(o); p = M.fold(p); if (isObj(o) && (isObj(p) || p === null)) o.proto = p; return o; },
    is: (M, t, [a, b]) => { a = M.fold(a); b = M.fold(b); if (isPrim(a) && isPrim(b)) return Object.is(a, b); return M.eq(a, b); },
    hasOwn: (M, t, [o, k]) => hasOwn(M, o, k),
  },
});
function defProps(M, o, ps) {
  ps = needObj(M, ps, 'defineProperties');
  const list = [];
  for (const [k, d] of ps.props) if (d.e !== false) list.push([deref(k), descOf(M, M.get(ps, k))]);
  for (const [k, d] of list) defineProp(M, o, k, d);
}
function hasOwn(M, o, k) {
  o = M.fold(o); k = M.toKey(k);
  if (o === undefined || o === null) throw M.throwError('TypeError', 'Cannot convert undefined or null to object');
  if (isSym(o)) { if (o.onHas) { const r = o.onHas(M, o, k, true); if (r !== NOPE) return r; } return M.term('hasOwn', [o, k], KS.BOOL); }
  if (!isObj(o)) return false;
  if (o.slots.items && /^\d+$/.test(String(k))) return +k < o.slots.items.length;
  if (o.slots.exotic?.hasOwn) { const r = o.slots.exotic.hasOwn(M, o, k); if (r !== NOPE) return r; }
  if (M.findOwn(o, k)) return true;
  if (o.spreads) for (const s of o.spreads) if (!(!isSym(k) && s.except.has(k)) && M.truthy(hasOwn(M, s.src, k))) return true;
  return false;
}
def(objectProto, 'hasOwnProperty', (M, t, [k]) => hasOwn(M, t, k));
def(objectProto, 'propertyIsEnumerable', (M, t, [k]) => hasOwn(M, t, k));
def(objectProto, 'isPrototypeOf', (M, t, [o]) => { o = M.fold(o); if (!isObj(o)) return false; for (let p = o.proto; p; p = p.proto) if (p === deref(t)) return true; return false; });
def(objectProto, 'toString', (M, t) => M.term('String', [`[object ${isObj(deref(t)) ? deref(t).cls : 'Object'}]`]));
def(objectProto, 'toLocaleString', (M, t) => M.toStr(t));
def(objectProto, 'valueOf', (M, t) => t);

// ---- Function
def(functionProto, 'call', (M, f, [t, ...a], node) => M.call(f, t, a, node));
def(functionProto, 'apply', (M, f, [t, a], node) => { const av = M.fold(a); return M.call(f, t, av === undefined || av === null ? [] : isSym(av) ? [new SpreadArg(av)] : M.interp.iterateAll(av), node); });
def(functionProto, 'bind', (M, f, [t, ...a]) => { const g = M.obj('Function'); g.slots.bound = M.fold(f); g.slots.boundThis = t; g.slots.boundArgs = a; return g; });
def(functionProto, 'toString', (M, f) => M.term('fnText', [M.fold(f)], K.STR));
functionProto.props.set(Symbol.hasInstance, { v: nat('hasInstance', (M, t, [v]) => M.interp.instanceOf(v, t)), e: false, w: false, c: false });
functionProto.slots.exotic = {
  get(M, o, key, receiver) {
    if (key === 'name') { const f = deref(receiver); return isObj(f) ? f.slots.fname ?? f.slots.nname ?? '' : ''; }
    if (key === 'length') { const f = deref(receiver); if (isObj(f) && f.slots.arity !== undefined) return f.slots.arity; if (isObj(f) && f.slots.native) return 0; }
    return NOPE;
  },
};
/** an opaque argument list applied with Function.prototype.apply */
export class SpreadArg extends Sym { constructor(src) { super(-1000000 - src.id, 'args of ' + show(src), KS.ANY); this.spreadOf = src; } }

// ---- Array
const A = (M, t) => { const v = M.fold(t); if (!isObj(v) || !v.slots.items) { if (isObj(v) && v.cls === 'Object' && !v.slots.exotic) { const n = M.fold(M.get(v, 'length')); if (typeof n === 'number') return { slots: { items: Array.from({ length: n }, (_, i) => M.get(v, String(i))) } }; } if (isObj(v) && v.slots.exotic?.iter) return { slots: { items: M.interp.iterateAll(v) } }; throw new Inconclusive('array method on ' + show(v)); } if (v.slots.frozen) return v; return v; };
const mut = (M, t) => { const a = A(M, t); if (a.slots.frozen) throw M.throwError('TypeError', 'Cannot modify a frozen array'); if (a.slots.onMutate) a.slots.onMutate(M, a); return a; };
const cb = (M, f, thisArg) => (x, i, arr) => M.call(f, thisArg, [x, i, arr]);
const idx = (M, n, len, d) => { n = M.fold(n); if (n === undefined) return d; if (typeof n !== 'number') throw new Inconclusive('symbolic index'); n = Math.trunc(n); return n < 0 ? Math.max(0, len + n) : Math.min(n, len); };
function flatten(M, items, depth) { const out = []; for (const x of items) { const v = M.fold(x); if (depth > 0 && isArrayDecide(M, v)) { if (!isObj(v)) throw new Inconclusive('flatten opaque'); out.push(...flatten(M, v.slots.items, depth - 1)); } else out.push(x); } return out; }
function isArrayDecide(M, v) { v = M.fold(v); if (isObj(v)) return v.cls === 'Array'; if (isSym(v)) return M.hasKind(v, K.ARR, `Array.isArray(${show(v)})`); return false; }
const arrFns = {
  push: (M, t, a) => { const x = mut(M, t); x.slots.items.push(...a); return x.slots.items.length; },
  pop: (M, t) => mut(M, t).slots.items.pop(),
  shift: (M, t) => mut(M, t).slots.items.shift(),
  unshift: (M, t, a) => { const x = mut(M, t); x.slots.items.unshift(...a); return x.slots.items.length; },
  slice: (M, t, [s, e]) => { const i = A(M, t).slots.items; return M.arr(i.slice(idx(M, s, i.length, 0), idx(M, e, i.length, i.length))); },
  splice: (M, t, [s, n, ...ins]) => { const i = mut(M, t).slots.items; const st = idx(M, s, i.length, 0); const c = n === undefined ? i.length - st : M.fold(n); return M.arr(i.splice(st, c, ...ins)); },
  concat: (M, t, a) => { const out = [...A(M, t).slots.items]; for (const x of a) { const v = M.fold(x); if (isArrayDecide(M, v)) { if (!isObj(v)) throw new Inconclusive('concat opaque'); out.push(...v.slots.items); } else out.push(x); } return M.arr(out); },
  map: (M, t, [f, th]) => { const a = A(M, t); const c = cb(M, f, th); const out = []; for (let i = 0; i < a.slots.items.length; i++) out.push(c(a.slots.items[i], i, t)); return M.arr(out); },
  forEach: (M, t, [f, th]) => { const a = A(M, t); const c = cb(M, f, th); for (let i = 0; i < a.slots.items.length; i++) c(a.slots.items[i], i, t); },
  filter: (M, t, [f, th]) => { const a = A(M, t); const c = cb(M, f, th); const out = []; for (let i = 0; i < a.slots.items.length; i++) { const x = a.slots.items[i]; if (M.truthy(c(x, i, t))) out.push(x); } return M.arr(out); },
  flatMap: (M, t, [f, th]) => { const a = A(M, t); const c = cb(M, f, th); const out = []; for (let i = 0; i < a.slots.items.length; i++) out.push(c(a.slots.items[i], i, t)); return M.arr(flatten(M, out, 1)); },
  flat: (M, t, [d]) => M.arr(flatten(M, A(M, t).slots.items, d === undefined ? 1 : d)),
  reduce: (M, t, a) => { const i = A(M, t).slots.items; let k = 0, acc; if (a.length > 1) acc = a[1]; else { if (!i.length) throw M.throwError('TypeError', 'Reduce of empty array'); acc = i[k++]; } for (; k < i.length; k++) acc = M.call(a[0], undefined, [acc, i[k], k, t]); return acc; },
  reduceRight: (M, t, a) => { const i = A(M, t).slots.items; let k = i.length - 1, acc; if (a.length > 1) acc = a[1]; else acc = i[k--]; for (; k >= 0; k--) acc = M.call(a[0], undefined, [acc, i[k], k, t]); return acc; },
  some: (M, t, [f, th]) => { const i = A(M, t).slots.items; for (let k = 0; k < i.length; k++) if (M.truthy(M.call(f, th, [i[k], k, t]))) return true; return false; },
  every: (M, t, [f, th]) => { const i = A(M, t).slots.items; for (let k = 0; k < i.length; k++) if (!M.truthy(M.call(f, th, [i[k], k, t]))) return false; return true; },
  find: (M, t, [f, th]) => { const i = A(M, t).slots.items; for (let k = 0; k < i.length; k++) if (M.truthy(M.call(f, th, [i[k], k, t]))) return i[k]; return undefined; },
  findIndex: (M, t, [f, th]) => { const i = A(M, t).slots.items; for (let k = 0; k < i.length; k++) if (M.truthy(M.call(f, th, [i[k], k, t]))) return k; return -1; },
  findLastIndex: (M, t, [f, th]) => { const i = A(M, t).slots.items; for (let k = i.length - 1; k >= 0; k--) if (M.truthy(M.call(f, th, [i[k], k, t]))) return k; return -1; },
  toSpliced: (M, t, [s, n, ...ins]) => { const i = [...A(M, t).slots.items]; const st = idx(M, s, i.length, 0); i.splice(st, n === undefined ? i.length - st : M.fold(n), ...ins); return M.arr(i); },
  findLast: (M, t, [f, th]) => { const i = A(M, t).slots.items; for (let k = i.length - 1; k >= 0; k--) if (M.truthy(M.call(f, th, [i[k], k, t]))) return i[k]; return undefined; },
  includes: (M, t, [x]) => { for (const y of A(M, t).slots.items) if (sameValue(M, x, y)) return true; return false; },
  indexOf: (M, t, [x]) => { const i = A(M, t).slots.items; for (let k = 0; k < i.length; k++) if (sameValue(M, x, i[k])) return k; return -1; },
  lastIndexOf: (M, t, [x]) => { const i = A(M, t).slots.items; for (let k = i.length - 1; k >= 0; k--) if (sameValue(M, x, i[k])) return k; return -1; },
  join: (M, t, [sep]) => { const i = A(M, t).slots.items; const s = sep === undefined ? ',' : M.toStr(sep); const a = A(M, t); const ps = i.map((x) => (M.isNullish(x) ? '' : M.toStr(x))); if (a.slots.multiset) return M.term('sortedjoin', [s, ...[...ps].sort((p, q) => (canonKey(p) < canonKey(q) ? -1 : 1))], KS.STRING); return M.term('cat', joinParts(ps, s)); },
  reverse: (M, t) => { const a = mut(M, t); a.slots.items.reverse(); return t; },
  toReversed: (M, t) => M.arr([...A(M, t).slots.items].reverse()),
  sort: (M, t, [f]) => { const a = mut(M, t); sortItems(M, a, f); return t; },
  toSorted: (M, t, [f]) => { const a = M.arr([...A(M, t).slots.items]); sortItems(M, a, f); return a; },
  fill: (M, t, [v]) => { const a = mut(M, t); a.slots.items.fill(v); return t; },
  at: (M, t, [n]) => { const i = A(M, t).slots.items; n = M.fold(n); if (typeof n !== 'number') throw new Inconclusive('symbolic index'); return i.at(n); },
  keys: (M, t) => iterOf(M, A(M, t).slots.items.map((_, i) => i)),
  values: (M, t) => iterFrom(M, M.interp.iter(t)),
  entries: (M, t) => { const it = M.interp.iter(t); let i = 0; return iterFrom(M, () => { const x = it(); return x === NOPE ? NOPE : M.arr([i++, x]); }); },
  toString: (M, t) => M.toStr(t),
  with: (M, t, [i, v]) => { const a = [...A(M, t).slots.items]; a[M.fold(i)] = v; return M.arr(a); },
};
function sortItems(M, a, f) {
  const items = a.slots.items;
  if (items.length < 2) return;
  if (f === undefined && items.every((x) => isPrim(M.fold(x)))) { items.sort((x, y) => { x = String(M.fold(x)); y = String(M.fold(y)); return x < y ? -1 : x > y ? 1 : 0; }); return; }
  if (f !== undefined) { // insertion sort with decided comparisons
    for (let i = 1; i < items.length; i++) for (let j = i; j > 0; j--) { const r = M.call(f, undefined, [items[j - 1], items[j]]); if (M.truthy(M.term('lt', [0, r], KS.BOOL))) { const t = items[j]; items[j] = items[j - 1]; items[j - 1] = t; } else break; }
    return;
  }
  a.slots.multiset = true; // order abstracted: only the multiset is known
}
for (const [k, f] of Object.entries(arrFns)) def(arrayProto, k, f);
arrayProto.props.set(Symbol.iterator, { v: nat('values', arrFns.values), e: false, w: true, c: true });
function sameValue(M, x, y) { x = M.fold(x); y = M.fold(y); if (isPrim(x) && isPrim(y)) return x === y || (x !== x && y !== y); return M.eq(x, y); }
const ArrayCtor = ctor('Array', arrayProto, {
  call: (M, t, a) => mkArr(M, a), construct: (M, a) => mkArr(M, a),
  statics: {
    isArray: (M, t, [v]) => isArrayDecide(M, v),
    of: (M, t, a) => M.arr([...a]),
    from: (M, t, [src, f]) => { const v = M.fold(src); let items; if (isObj(v) && !v.slots.items && !v.slots.entries && !v.slots.iterNext && !v.slots.exotic?.iter && v.cls === 'Object') { const n = M.fold(M.get(v, 'length')); if (typeof n !== 'number') throw new Inconclusive('Array.from'); items = Array.from({ length: n }, (_, i) => M.get(v, String(i))); } else items = M.interp.iterateAll(v); if (f !== undefined) items = items.map((x, i) => M.call(f, undefined, [x, i])); return M.arr(items); },
  },
});
function mkArr(M, a) { if (a.length === 1 && typeof M.fold(a[0]) === 'number') return M.arr(new Array(M.fold(a[0])).fill(undefined)); return M.arr([...a]); }

// ---- iterators
function iterFrom(M, next) { const o = M.obj('Iterator'); o.slots.iterNext = next; return o; }
function iterOf(M, items) { let i = 0; return iterFrom(M, () => (i < items.length ? items[i++] : NOPE)); }
def(protos.Iterator, 'next', (M, t) => { const x = M.fold(t).slots.iterNext(); return x === NOPE ? M.plain({ value: undefined, done: true }) : M.plain({ value: x, done: false }); });
protos.Iterator.props.set(Symbol.iterator, { v: nat('iterator', (M, t) => t), e: false, w: true, c: true });
for (const m of ['forEach', 'some', 'every', 'find', 'reduce']) def(protos.Iterator, m, (M, t, a) => arrFns[m](M, M.arr(M.interp.iterateAll(t)), a));
def(protos.Iterator, 'map', (M, t, [f]) => { const it = M.fold(t); let i = 0; return iterFrom(M, () => { const x = it.slots.iterNext(); return x === NOPE ? NOPE : M.call(f, undefined, [x, i++]); }); });
def(protos.Iterator, 'filter', (M, t, [f]) => { const it = M.fold(t); let i = 0; return iterFrom(M, () => { for (;;) { const x = it.slots.iterNext(); if (x === NOPE || M.truthy(M.call(f, undefined, [x, i++]))) return x; } }); });
def(protos.Iterator, 'take', (M, t, [n]) => { const it = M.fold(t); let c = M.fold(n); return iterFrom(M, () => (c-- > 0 ? it.slots.iterNext() : NOPE)); });
def(protos.Iterator, 'drop', (M, t, [n]) => { const it = M.fold(t); let c = M.fold(n); return iterFrom(M, () => { while (c > 0) { c--; if (it.slots.iterNext() === NOPE) return NOPE; } return it.slots.iterNext(); }); });
def(protos.Iterator, 'return', (M, t, [v]) => { const it = M.fold(t); it.slots.iterNext = () => NOPE; return M.plain({ value: v, done: true }); });
def(protos.Iterator, 'flatMap', (M, t, a) => arrFns.values(M, arrFns.flatMap(M, M.arr(M.interp.iterateAll(t)), a)));
def(protos.Iterator, 'toArray', (M, t) => M.arr(M.interp.iterateAll(t)));

// ---- Map / Set / WeakMap / WeakSet
function findE(M, o, k) { k = M.fold(k); for (const e of o.slots.entries) { if (e.dead) continue; if (sameValue(M, e.k, k)) return e; } return null; }
const coll = (M, t, what) => { const o = M.fold(t); if (!isObj(o) || !o.slots.entries) { if (isSym(o)) throw new Inconclusive(what + ' on opaque'); throw M.throwError('TypeError', `incompatible receiver for ${what}`); } return o; };
function live(o) { return o.slots.entries.filter((e) => !e.dead); }
function collection(name, weak, isMap) {
  const p = protos[name];
  def(p, 'has', (M, t, [k]) => Boolean(findE(M, coll(M, t, 'has'), k)));
  def(p, 'delete', (M, t, [k]) => { const o = coll(M, t, 'delete'); const e = findE(M, o, k); if (!e) return false; e.dead = true; if (!o.slots.iterating) { /* entries stay tombstoned so that live iterators remain valid */ } return true; });
  if (isMap) {
    def(p, 'get', (M, t, [k]) => findE(M, coll(M, t, 'get'), k)?.v);
    def(p, 'set', (M, t, [k, v]) => { const o = coll(M, t, 'set'); if (weak && isPrim(M.fold(k)) ) throw M.throwError('TypeError', 'Invalid value used as weak map key'); const e = findE(M, o, k); if (e) e.v = v; else o.slots.entries.push({ k: deref(k), v }); return t; });
  } else {
    def(p, 'add', (M, t, [k]) => { const o = coll(M, t, 'add'); if (weak && isPrim(M.fold(k))) throw M.throwError('TypeError', 'Invalid value used in weak set'); if (!findE(M, o, k)) o.slots.entries.push({ k: deref(k), v: k }); return t; });
  }
  if (!weak) {
    def(p, 'clear', (M, t) => { for (const e of coll(M, t, 'clear').slots.entries) e.dead = true; });
    p.slots.exotic = { get(M, o, key, recv) { if (key === 'size') { const r = deref(recv); return isObj(r) && r.slots.entries ? live(r).length : undefined; } return NOPE; } };
    const iterKV = (sel) => (M, t) => { const o = coll(M, t, 'iterate'); let i = 0; return iterFrom(M, () => { const es = o.slots.entries; while (i < es.length && es[i].dead) i++; return i < es.length ? sel(M, es[i++]) : NOPE; }); };
    def(p, 'keys', iterKV((M, e) => e.k)); def(p, 'values', iterKV((M, e) => (isMap ? e.v : e.k))); def(p, 'entries', iterKV((M, e) => M.arr([e.k, isMap ? e.v : e.k])));
    p.props.set(Symbol.iterator, { v: nat('iterator', iterKV((M, e) => (isMap ? M.arr([e.k, e.v]) : e.k))), e: false, w: true, c: true });
    def(p, 'forEach', (M, t, [f]) => { const o = coll(M, t, 'forEach'); for (let i = 0; i < o.slots.entries.length; i++) { const e = o.slots.entries[i]; if (!e.dead) M.call(f, undefined, [isMap ? e.v : e.k, e.k, t]); } });
  }
  return ctor(name, p, {
    construct: (M, [src], nt) => {
      const o = M.obj(name, protoFromNewTarget(M, nt, p)); o.slots.entries = [];
      const s = M.fold(src);
      if (s !== undefined && s !== null) for (const x of M.interp.iterateAll(s)) { if (isMap) M.callMethod(o, 'set', [M.get(x, '0'), M.get(x, '1')]); else M.callMethod(o, 'add', [x]); }
      return o;
    },
  });
}
const setOp = (name, f) => def(protos.Set, name, (M, t, [o]) => { const a = live(coll(M, t, name)).map((e) => e.k), other = M.fold(o); if (!isObj(other) || !other.slots.entries) throw new Inconclusive('set operation'); return f(M, a, (x) => Boolean(findE(M, other, x)), live(other).map((e) => e.k), (x) => Boolean(findE(M, M.fold(t), x))); });
const newSet = (M, items) => M.construct(SetCtor, [M.arr(items)]);
setOp('union', (M, a, inB, b) => newSet(M, [...a, ...b])); setOp('intersection', (M, a, inB) => newSet(M, a.filter(inB))); setOp('difference', (M, a, inB) => newSet(M, a.filter((x) => !inB(x))));
setOp('symmetricDifference', (M, a, inB, b, inA) => newSet(M, [...a.filter((x) => !inB(x)), ...b.filter((x) => !inA(x))])); setOp('isSubsetOf', (M, a, inB) => a.every(inB)); setOp('isSupersetOf', (M, a, inB, b, inA) => b.every(inA)); setOp('isDisjointFrom', (M, a, inB) => !a.some(inB));
const MapCtor = collection('Map', false, true), SetCtor = collection('Set', false, false), WeakMapCtor = collection('WeakMap', true, true), WeakSetCtor = collection('WeakSet', true, false);
def(MapCtor, 'groupBy', (M, t, [it, f]) => { const r = M.construct(MapCtor, []); let i = 0; for (const x of M.interp.iterateAll(it)) { const k = M.call(f, undefined, [x, i++]); const e = findE(M, r, k); if (e) M.callMethod(e.v, 'push', [x]); else M.callMethod(r, 'set', [k, M.arr([x])]); } return r; });
const WeakRefCtor = ctor('WeakRef', protos.WeakRef, { construct: (M, [v]) => { const o = M.obj('WeakRef'); o.slots.ref = v; return o; } });
def(protos.WeakRef, 'deref', (M, t) => M.fold(t).slots.ref);

// ---- Promise (settled eagerly: asynchronous code is analysed in program order)
function promiseResolved(M, v) { const w = M.fold(v); if (isObj(w) && w.cls === 'Promise') return w; const p = M.obj('Promise'); p.slots.state = 'ok'; p.slots.value = v; return p; }
function promiseRejected(M, v) { const p = M.obj('Promise'); p.slots.state = 'err'; p.slots.value = v; return noted(M, p); }
/** rejections nobody handles end a Node process with a failure */
function noted(M, p, ...from) { for (const q of from) if (q?.slots) q.slots.handled = true; if (p.slots.state === 'err') (M.rejections ??= []).push(p); return p; }
/** obligations that are met only once the promise has been awaited */
function carry(p, ...from) { const t = new Set(p.slots.tokens ?? []); for (const q of from) for (const x of q?.slots?.tokens ?? []) t.add(x); if (t.size) p.slots.tokens = t; return p; }
function pendingWork(M, p, label) { const tok = { label, done: false, site: M.site }; (M.work ??= []).push(tok); p.slots.tokens = new Set([...(p.slots.tokens ?? []), tok]); return p; }
/** thrown by an await in code whose caller goes on before it resumes: unwinds to the async function */
export class Suspend extends Error {}
function drain(M, p) { for (let i = 0; p.slots.state === 'pending' && M.deferred?.length && i < 20; i++) { const f = M.deferred.shift(); M.call(f, undefined, []); } }
function awaitValue(M, v) {
  v = M.fold(v);
  if (M.suspend) throw new Suspend();
  if (isObj(v) && v.cls === 'Promise' && v.slots.state === 'pending') drain(M, v);
  if (isObj(v) && v.cls === 'Object' && !v.slots.exotic) { const th = M.fold(M.get(v, 'then')); if (isObj(th) && th.cls === 'Function') { const p = M.obj('Promise'); p.slots.state = 'pending'; M.call(th, v, [M.native('resolve', (M2, t, [x]) => { if (p.slots.state === 'pending') { p.slots.state = 'ok'; p.slots.value = x; } }), M.native('reject', (M2, t, [x]) => { if (p.slots.state === 'pending') { p.slots.state = 'err'; p.slots.value = x; } })]); v = p; } }
  if (isObj(v) && v.cls === 'Promise') for (const t of v.slots.tokens ?? []) { t.done = true; M.asyncFrame?.add(t); }
  if (isObj(v) && v.cls === 'Promise') { if (v.slots.state === 'ok') return v.slots.value; if (v.slots.state === 'err') { v.slots.handled = true; throw new JsThrow(v.slots.value, M.site); } throw new Inconclusive('await of a pending promise'); }
  if (isSym(v) && v.flags?.promise) return v.flags.promise;
  return v;
}
def(protos.Promise, 'then', (M, t, [ok, bad]) => { const p = M.fold(t); if (M.suspend) return later(M, [ok, bad]); if (p.slots.state === 'pending') { drain(M, p); if (p.slots.state === 'pending') throw new Inconclusive('then of a pending promise'); } const f = p.slots.state === 'ok' ? ok : bad; if (M.fold(f) === undefined || M.fold(f) === null) return p; p.slots.handled = true; try { return chained(M, p, M.call(f, undefined, [p.slots.value])); } catch (e) { if (e instanceof JsThrow) return carry(promiseRejected(M, e.value), p); throw e; } });
function chained(M, p, v) { const w = M.fold(v); const r = M.obj('Promise'); if (isObj(w) && w.cls === 'Promise') { r.slots.state = w.slots.state; r.slots.value = w.slots.value; return noted(M, carry(r, p, w), w); } r.slots.state = 'ok'; r.slots.value = v; return carry(r, p); }
/** the promise of an async function: whoever wants its work done has to await it */
function asyncResult(M, frame, p) { const r = M.obj('Promise'); r.slots.state = p.slots.state; r.slots.value = p.slots.value; noted(M, carry(r, p), p); if (frame.size) { r.slots.tokens = new Set([...(r.slots.tokens ?? []), ...frame]); for (const t of frame) t.done = false; } return r; }
function later(M, fs) { const r = M.obj('Promise'); r.slots.state = 'pending'; M.log.push({ t: 'deferred', who: 'promise', site: M.site }); (M.deferred ??= []).push(M.native('continuation', () => { throw new Inconclusive('work deferred to a microtask'); })); return r; }
def(protos.Promise, 'catch', (M, t, [bad]) => { const p = M.fold(t); if (M.suspend) return later(M, [bad]); if (p.slots.state === 'pending') drain(M, p); if (p.slots.state !== 'err') return p; p.slots.handled = true; try { return chained(M, p, M.call(bad, undefined, [p.slots.value])); } catch (e) { if (e instanceof JsThrow) return carry(promiseRejected(M, e.value), p); throw e; } });
def(protos.Promise, 'finally', (M, t, [f]) => { const p = M.fold(t); if (M.suspend) return later(M, [f]); if (p.slots.state === 'pending') drain(M, p); p.slots.handled = true; const r = M.obj('Promise'); try { awaitValue(M, M.call(f, undefined, [])); } catch (e) { if (e instanceof JsThrow) return carry(promiseRejected(M, e.value), p); throw e; } r.slots.state = p.slots.state; r.slots.value = p.slots.value; return noted(M, carry(r, p), p); });
const PromiseCtor = ctor('Promise', protos.Promise, {
  construct: (M, [exec]) => { const p = M.obj('Promise'); p.slots.state = 'pending'; const res = M.native('resolve', (M2, t, [v]) => { if (p.slots.state === 'pending') { const w = M2.fold(v); if (isObj(w) && w.cls === 'Promise') { p.slots.state = w.slots.state; p.slots.value = w.slots.value; noted(M2, carry(p, w), w); } else { p.slots.state = 'ok'; p.slots.value = v; } } }); const rej = M.native('reject', (M2, t, [v]) => { if (p.slots.state === 'pending') { p.slots.state = 'err'; p.slots.value = v; noted(M2, p); } }); M.call(exec, undefined, [res, rej]); return p; },
  statics: {
    resolve: (M, t, [v]) => promiseResolved(M, v), reject: (M, t, [v]) => promiseRejected(M, v),
    all: (M, t, [it]) => { const ps = M.interp.iterateAll(it); const vs = []; for (const x of ps) { const w = M.fold(x); if (isObj(w) && w.cls === 'Promise') { if (w.slots.state === 'err') { w.slots.handled = true; return carry(promiseRejected(M, w.slots.value), w); } if (w.slots.state !== 'ok') throw new Inconclusive('Promise.all of a pending promise'); vs.push(w.slots.value); } else vs.push(x); } const r = M.obj('Promise'); r.slots.state = 'ok'; r.slots.value = M.arr(vs); return carry(r, ...ps.map((x) => M.fold(x)).filter(isObj)); },
    race: (M, t, [it]) => { for (const x of M.interp.iterateAll(it)) { const w = M.fold(x); if (!(isObj(w) && w.cls === 'Promise') || w.slots.state !== 'pending') return chained(M, M.obj('Promise'), x); } throw new Inconclusive('Promise.race of pending promises'); },
    any: (M, t, [it]) => { const errs = []; for (const x of M.interp.iterateAll(it)) { const w = M.fold(x); if (!(isObj(w) && w.cls === 'Promise') || w.slots.state === 'ok') return chained(M, M.obj('Promise'), x); if (w.slots.state !== 'err') throw new Inconclusive('Promise.any of pending promises'); w.slots.handled = true; errs.push(w.slots.value); } return promiseRejected(M, M.mkError('AggregateError', 'All promises were rejected')); },
    withResolvers: (M) => { let res, rej; const p = M.construct(PromiseCtor, [M.native('executor', (M2, t, a) => { [res, rej] = a; })]); return M.plain({ promise: p, resolve: res, reject: rej }); },
    try: (M, t, [f, ...a]) => { try { return promiseResolved(M, M.call(f, undefined, a)); } catch (e) { if (e instanceof JsThrow) return promiseRejected(M, e.value); throw e; } },
    allSettled: (M, t, [it]) => promiseResolved(M, M.arr(M.interp.iterateAll(it).map((x) => { try { return M.plain({ status: 'fulfilled', value: awaitValue(M, x) }); } catch (e) { if (e instanceof JsThrow) return M.plain({ status: 'rejected', reason: e.value }); throw e; } }))),
  },
});

// ---- Error
function errCtor(name) {
  const p = errorProtos[name];
  const build = (M, a, nt) => { const e = M.obj('Error', protoFromNewTarget(M, nt, p)); e.slots.ename = name; if (a[0] !== undefined) M.put(e, 'message', M.toStr(a[0]), false); else M.put(e, 'message', '', false); const opt = M.fold(a[1]); if (isObj(opt) && opt.props.has('cause')) M.put(e, 'cause', M.get(opt, 'cause'), false); M.put(e, 'stack', M.term('stack', [e], K.STR), false); return e; };
  p.props.set('name', { v: name, e: false, w: true, c: true });
  return ctor(name, p, { call: (M, t, a) => build(M, a, null), construct: (M, a, nt) => build(M, a, nt) });
}
def(protos.Error, 'toString', (M, t) => M.toStr(t));
const errCtors = Object.fromEntries(Object.keys(errorProtos).map((n) => [n, errCtor(n)]));

// ---- RegExp (constant patterns)
function regexp(M, src, flags) { const r = M.obj('RegExp'); M.put(r, 'lastIndex', 0, false); r.slots.re = reConst(src, flags); return r; }
const reOf = (M, v) => { v = M.fold(v); if (isObj(v) && v.cls === 'RegExp') return v.slots.re; return v; };
def(protos.RegExp, 'test', (M, t, [s]) => M.term('re.test', [reOf(M, t), M.toStr(s)], KS.BOOL));
def(protos.RegExp, 'exec', (M, t, [s]) => matchRes(M, t, s, true));
protos.RegExp.slots.exotic = { get(M, o, key, recv) { const r = deref(recv); if (!isObj(r) || !r.slots.re || typeof key !== 'string') return NOPE; const i = r.slots.re.lastIndexOf('/'); if (key === 'source') return r.slots.re.slice(4, i); if (key === 'flags') return r.slots.re.slice(i + 1); if (key === 'global') return r.slots.re.slice(i + 1).includes('g'); return NOPE; } };
function matchRes(M, re, s, exec = false) {
  const r = reOf(M, re), v = M.toStr(s), ro = M.fold(re);
  if (isPrim(v) && typeof r === 'string' && isPrim(r)) {
    const i = r.startsWith('\u0000re:') ? r.lastIndexOf('/') : -1; const rx = i >= 0 ? new RegExp(r.slice(4, i), r.slice(i + 1)) : new RegExp(r);
    if (exec && rx.global) { const li = M.fold(M.get(ro, 'lastIndex')); if (typeof li !== 'number') throw new Inconclusive('lastIndex'); rx.lastIndex = li; }
    const m = exec ? rx.exec(v) : v.match(rx);
    if (exec && rx.global) M.set(ro, 'lastIndex', rx.lastIndex);
    return m && mkMatch(M, m);
  }
  if (exec && /g[a-z]*$/.test(String(r))) throw new Inconclusive('repeated match of an opaque string');
  return M.term('match', [r, v], K.NULL | K.OBJ);
}
function mkMatch(M, m) { const a = M.arr([...m]); if (m.index !== undefined) { M.put(a, 'index', m.index); M.put(a, 'input', m.input); M.put(a, 'groups', m.groups ? M.plain({ ...m.groups }) : undefined); } return a; }
const RegExpCtor = ctor('RegExp', protos.RegExp, { call: (M, t, [s, f]) => mkRe(M, s, f), construct: (M, [s, f]) => mkRe(M, s, f) });
function mkRe(M, s, f) { s = M.fold(s); if (isObj(s)) return s; if (typeof s !== 'string') throw new Inconclusive('dynamic regexp'); return regexp(M, s, f === undefined ? '' : M.fold(f)); }

// ---- String
const strRecv = (M, t) => M.toStr(t);
const strFns = {};
for (const m of STRING_METHODS) strFns[m] = (M, t, a) => M.term('str.' + m, [strRecv(M, t), ...a.map((x) => { x = M.fold(x); return isObj(x) ? (x.cls === 'RegExp' ? x.slots.re : M.toStr(x)) : x; })]);
const repl = (op) => (M, t, [re, f]) => {
  const s = strRecv(M, t); const r = reOf(M, re); const fv = M.fold(f);
  if (isObj(fv) && fv.cls === 'Function') {
    if (isPrim(s) && isPrim(r)) { const i = String(r).startsWith('\u0000re:') ? r.lastIndexOf('/') : -1; const rx = i >= 0 ? new RegExp(r.slice(4, i), r.slice(i + 1)) : r; const out = s[op](rx, (...a) => { const rv = M.fold(M.toStr(M.call(fv, undefined, a.filter((x) => typeof x !== 'object')))); if (!isPrim(rv)) throw new Inconclusive('replace callback'); return rv; }); return out; }
    return M.term('str.replacefn', [s, r, fv.slots.node ? 'fn@' + fv.slots.node.getText().replace(/\s+/g, ' ') : fv], KS.STRING);
  }
  return M.term('str.' + op, [s, r, M.toStr(fv)], KS.STRING);
};
strFns.replace = repl('replace'); strFns.replaceAll = repl('replaceAll');
strFns.search = (M, t, [re]) => M.term('str.search', [strRecv(M, t), reOf(M, re)], KS.NUMBER);
strFns.match = (M, t, [re]) => matchRes(M, re, t);
strFns.matchAll = (M, t, [re]) => { const s = strRecv(M, t); const r = reOf(M, re); if (!isPrim(s)) throw new Inconclusive('matchAll'); const i = r.lastIndexOf('/'); return iterOf(M, [...s.matchAll(new RegExp(r.slice(4, i), r.slice(i + 1)))].map((m) => mkMatch(M, m))); };
strFns.split = (M, t, [sep, lim]) => {
  const s = strRecv(M, t); const sp = reOf(M, sep);
  if (isPrim(s) && isPrim(sp)) { const i = String(sp).startsWith('\u0000re:') ? sp.lastIndexOf('/') : -1; return M.arr(s.split(i >= 0 ? new RegExp(sp.slice(4, i), sp.slice(i + 1)) : sp, M.fold(lim))); }
  const a = M.obj('Array'); // symbolic pieces: only piece 0 / join are meaningful
  a.slots.exotic = {
    get(M2, o, key) {
      if (key === '0') return M2.term('splitHead', [s, sp], KS.STRING);
      if (key === 'join') return nat('join', (M3, t3, [j]) => { const jj = M3.toStr(j); if (typeof jj === 'string' && typeof sp === 'string' && jj === sp) return s; return M3.term('str.replaceAll', [s, sp, jj], KS.STRING); });
      if (key === 'length') return M2.term('splitLen', [s, sp], KS.NUMBER);
      if (isSym(key) || typeof key === 'symbol') return NOPE;
      if (key === 'at' || key === 'pop' || key === 'shift' || key === 'slice' || key === 'map' || key === 'filter') throw new Inconclusive('pieces of a split opaque string');
      if (/^\d+$/.test(key)) return M2.term('splitPiece', [s, sp, key], K.UNDEF | KS.STRING);
      return NOPE;
    },
    iter() { throw new Inconclusive('pieces of a split opaque string'); },
  };
  return a;
};
strFns.toString = (M, t) => strRecv(M, t); strFns.valueOf = (M, t) => t;
const strNat = Object.fromEntries(Object.entries(strFns).map(([k, f]) => [k, nat(k, f)]));
for (const [k, f] of Object.entries(strNat)) protos.String.props.set(k, { v: f, e: false, w: true, c: true });
const StringCtor = ctor('String', protos.String, { call: (M, t, a) => (a.length ? (typeof M.fold(a[0]) === 'symbol' ? String(M.fold(a[0])) : M.toStr(a[0])) : ''), construct: (M, a) => M.toStr(a[0]), statics: { fromCharCode: (M, t, a) => { if (a.every((x) => isPrim(M.fold(x)))) return String.fromCharCode(...a.map((x) => M.fold(x))); throw new Inconclusive('fromCharCode'); }, raw: () => { throw new Inconclusive('String.raw'); } } });
const numFns = { toString: (M, t, [r]) => { const v = M.fold(t), x = M.fold(r); return typeof v === 'number' && typeof x === 'number' ? v.toString(x) : x === undefined || x === 10 ? M.toStr(t) : M.term('toRadix', [v, x], K.STR); }, toLocaleString: (M, t) => M.term('toLocale', [t], K.STR), toFixed: (M, t, [n]) => { const v = M.fold(t), x = M.fold(n) ?? 0; return isPrim(v) && isPrim(x) ? v.toFixed(x) : M.term('toFixed', [t, x], K.STR); }, valueOf: (M, t) => t };
const numNat = Object.fromEntries(Object.entries(numFns).map(([k, f]) => [k, nat(k, f)]));
const NumberCtor = ctor('Number', protos.Number, { call: (M, t, [v]) => { v = M.fold(v); return isPrim(v) ? Number(v) : M.term('Number', [v], KS.NUMBER); }, construct: (M, [v]) => v, statics: { isInteger: (M, t, [v]) => M.term('isInteger', [v], KS.BOOL), isNaN: (M, t, [v]) => M.term('isNaN', [v], KS.BOOL), isFinite: (M, t, [v]) => { v = M.fold(v); return isPrim(v) ? Number.isFinite(v) : M.term('isFinite', [v], KS.BOOL); }, parseInt: (M, t, [a, b]) => M.term('parseInt', [a, b ?? 10], KS.NUMBER), parseFloat: (M, t, [a]) => M.term('parseFloat', [a], KS.NUMBER), isSafeInteger: (M, t, [v]) => { v = M.fold(v); return isPrim(v) ? Number.isSafeInteger(v) : M.term('isInteger', [v], KS.BOOL); }, MAX_SAFE_INTEGER: Number.MAX_SAFE_INTEGER, MIN_SAFE_INTEGER: Number.MIN_SAFE_INTEGER, MAX_VALUE: Number.MAX_VALUE, EPSILON: Number.EPSILON, NEGATIVE_INFINITY: -Infinity, NaN: NaN, POSITIVE_INFINITY: Infinity } });
const BooleanCtor = ctor('Boolean', protos.Boolean, {
  call: (M, t, [v]) => { v = M.fold(v); if (isPrim(v)) return Boolean(v); if (isObj(v)) return true; if (!(v.kinds & KS.FALSY)) return true; if (!(v.kinds & KS.TRUTHY)) return false; if ((v.kinds & ~KS.BOOL) === 0) return v; return M.term('not', [M.term('not', [v], KS.BOOL)], KS.BOOL); },
  construct: (M, [v]) => v,
});
const SymbolCtor = nat('Symbol', (M, t, [d]) => Symbol(M.fold(d)));
def(SymbolCtor, 'for', (M, t, [k]) => { k = M.fold(k); if (typeof k !== 'string') throw new Inconclusive('Symbol.for of unknown'); return Symbol.for(k); });
def(SymbolCtor, 'keyFor', (M, t, [k]) => { k = M.fold(k); if (typeof k !== 'symbol') throw new Inconclusive('Symbol.keyFor'); return Symbol.keyFor(k); });
for (const w of ['iterator', 'asyncIterator', 'hasInstance', 'toStringTag', 'toPrimitive', 'observable']) SymbolCtor.props.set(w, { v: Symbol[w] ?? Symbol.for('@@' + w), e: false, w: false, c: false });

// ---- misc namespaces
const mathFns = {};
for (const m of ['max', 'min', 'floor', 'ceil', 'round', 'abs', 'trunc', 'sign', 'sqrt', 'pow', 'hypot', 'log2', 'log10', 'log', 'exp', 'cbrt']) mathFns[m] = (M, t, a) => (a.every((x) => isPrim(M.fold(x))) ? Math[m](...a.map((x) => M.fold(x))) : M.term('Math.' + m, a, KS.NUMBER));
mathFns.random = (M) => M.sym('random', KS.NUMBER);
const MathNs = ns('Math', { ...mathFns, PI: Math.PI, E: Math.E });
function jsonTerm(M, v, d = 0) {
  v = M.fold(v);
  if (isPrim(v)) return v === undefined || typeof v === 'symbol' ? undefined : JSON.stringify(v);
  if (isSym(v)) return M.term('jsonstr', [v], KS.STRING);
  if (v.cls === 'Function') return undefined;
  if (d > 6) throw new Inconclusive('json depth');
  if (v.cls === 'Array') return M.term('cat', ['[', ...joinParts(v.slots.items.map((x) => jsonTerm(M, x, d + 1) ?? 'null'), ','), ']']);
  if (v.spreads) return M.term('jsonstr', [v], KS.STRING);
  const ps = [];
  for (const k of M.ownKeys(v)) { const x = jsonTerm(M, M.get(v, k), d + 1); if (x === undefined) continue; if (ps.length) ps.push(','); ps.push(isPrim(k) ? JSON.stringify(k) + ':' : M.term('cat', [M.term('jsonstr', [k], K.STR), ':']), x); }
  return M.term('cat', ['{', ...ps, '}']);
}
const JSONNs = ns('JSON', { stringify: (M, t, [v]) => jsonTerm(M, v), parse: (M, t, [s, f]) => { const v = M.fold(s); if (typeof v === 'string' && f === undefined) { let j; try { j = JSON.parse(v); } catch (e) { throw M.throwError('SyntaxError', e.message); } return fromJson(M, j); } return M.term('JSON.parse', [v], KS.ANY); } });
function fromJson(M, j) { if (j === null || typeof j !== 'object') return j; if (Array.isArray(j)) return M.arr(j.map((x) => fromJson(M, x))); const o = M.obj('Object'); for (const [k, x] of Object.entries(j)) M.put(o, k, fromJson(M, x)); return o; }
const ReflectNs = ns('Reflect', {
  get: (M, t, [o, k, r]) => M.get(o, k, r ?? o), set: (M, t, [o, k, v]) => { try { M.set(o, k, v); return true; } catch (e) { if (e instanceof JsThrow && !e.fromSetter) return false; throw e; } }, has: (M, t, [o, k]) => M.has(o, k),
  ownKeys: (M, t, [o]) => { o = needObj(M, o, 'ownKeys'); return M.arr([...(o.slots.items ? o.slots.items.map((_, i) => String(i)) : []), ...[...o.props.keys()].map(deref)]); },
  apply: (M, t, [f, th, a], node) => M.call(f, th, M.interp.iterateAll(a), node), construct: (M, t, [f, a, nt], node) => M.construct(f, M.interp.iterateAll(a), nt ?? f, node),
  defineProperty: (M, t, [o, k, d]) => { defineProp(M, o, k, descOf(M, d)); return true; }, deleteProperty: (M, t, [o, k]) => M.del(o, k),
  getPrototypeOf: (M, t, [o]) => { o = M.fold(o); return isObj(o) ? o.proto : null; }, getOwnPropertyDescriptor: (M, t, a) => M.call(M.get(ObjectCtor, 'getOwnPropertyDescriptor'), undefined, a),
});
const consoleNs = ns('console', Object.fromEntries(['log', 'warn', 'error', 'info', 'debug', 'trace', 'group', 'groupEnd', 'groupCollapsed', 'dir', 'table', 'assert', 'time', 'timeEnd', 'count'].map((m) => [m, (M, t, a) => { M.log.push({ t: 'console', level: m, args: a, who: m, site: M.site }); }])));
const timers = {};
for (const n of ['queueMicrotask', 'setTimeout', 'setInterval', 'requestAnimationFrame', 'setImmediate']) timers[n] = nat(n, (M, t, [f]) => { M.log.push({ t: 'deferred', who: n, site: M.site, f }); (M.deferred ??= []).push(f); return 1; });
for (const n of ['clearTimeout', 'clearInterval', 'cancelAnimationFrame']) timers[n] = nat(n, () => undefined);
const globalFns = {
  encodeURIComponent: nat('encodeURIComponent', (M, t, [s]) => M.term('encodeURIComponent', [M.toStr(s)], KS.STRING)),
  decodeURIComponent: nat('decodeURIComponent', (M, t, [s]) => M.term('decodeURIComponent', [M.toStr(s)], KS.STRING)),
  parseInt: nat('parseInt', (M, t, [a, b]) => M.term('parseInt', [a, b ?? 10], KS.NUMBER)), parseFloat: nat('parseFloat', (M, t, [a]) => M.term('parseFloat', [a], KS.NUMBER)),
  encodeURI: nat('encodeURI', (M, t, [s]) => { s = M.toStr(s); return isPrim(s) ? encodeURI(s) : M.term('encodeURI', [s], KS.STRING); }), decodeURI: nat('decodeURI', (M, t, [s]) => { s = M.toStr(s); return isPrim(s) ? decodeURI(s) : M.term('decodeURI', [s], KS.STRING); }),
  isFinite: nat('isFinite', (M, t, [v]) => { v = M.fold(v); return isPrim(v) ? isFinite(v) : M.term('isFinite', [v], KS.BOOL); }),
  isNaN: nat('isNaN', (M, t, [v]) => M.term('isNaN', [v], KS.BOOL)),
  structuredClone: nat('structuredClone', (M, t, [v]) => clone(M, v)),
  ...timers,
};
function clone(M, v) { v = M.fold(v); if (isPrim(v)) return v; if (isSym(v)) return M.term('clone', [v], v.kinds); if (v.cls === 'Array') return M.arr(v.slots.items.map((x) => clone(M, x))); if (v.cls !== 'Object') throw new Inconclusive('structuredClone'); const o = M.obj('Object'); for (const k of M.ownKeys(v)) M.put(o, k, clone(M, M.get(v, k))); return o; }
/** Proxy: the traps below; an operation without a trap goes to the target */
const ProxyCtor = nat('Proxy', (M) => { throw M.throwError('TypeError', 'Constructor Proxy requires new'); }, { construct: (M, [tgt0, h0]) => {
  const tgt = M.fold(tgt0), h = M.fold(h0);
  if (!isObj(tgt) || !isObj(h)) throw new Inconclusive('Proxy of an opaque object');
  if (tgt.slots.items || tgt.slots.entries) throw new Inconclusive('Proxy of a collection');
  const p = tgt.cls === 'Function' ? M.native('proxy', (M2, t, a) => { const f = M2.fold(M2.get(h, 'apply')); return f === undefined ? M2.call(tgt, t, a) : M2.call(f, h, [tgt, t, M2.arr(a)]); }) : M.obj(tgt.cls, tgt.proto);
  for (const k of M.ownKeys(h)) if (isSym(k) || !['get', 'set', 'has', 'deleteProperty', 'ownKeys', 'apply'].includes(k)) throw new Inconclusive('Proxy trap ' + show(k));
  const trap = (n) => { const f = M.fold(M.get(h, n)); return f === undefined ? null : f; };
  p.slots.exotic = {
    get: (M2, o, key, recv) => { const f = trap('get'); return f ? M2.call(f, h, [tgt, key, recv ?? p]) : M2.get(tgt, key); },
    set: (M2, o, key, v) => { const f = trap('set'); if (!f) { M2.set(tgt, key, v); return true; } if (!M2.truthy(M2.call(f, h, [tgt, key, v, p]))) throw M2.throwError('TypeError', "'set' on proxy returned falsish"); return true; },
    has: (M2, o, key) => { const f = trap('has'); return f ? M2.truthy(M2.call(f, h, [tgt, key])) : M2.has(tgt, key); },
    hasOwn: (M2, o, key) => hasOwn(M2, tgt, key),
    ownKeys: (M2) => (trap('ownKeys') ? M2.interp.iterateAll(M2.call(trap('ownKeys'), h, [tgt])) : M2.ownKeys(tgt)),
    delete: (M2, o, key) => (trap('deleteProperty') ? M2.call(trap('deleteProperty'), h, [tgt, key]) : M2.del(tgt, key)),
  };
  return p;
} });
const DateCtor = ctor('Date', protos.Date, { call: (M) => M.sym('date', K.STR), construct: (M) => M.sym('date', K.OBJ), statics: { now: (M) => M.sym('now', K.NUM) } });

const GLOBALS = { Object: ObjectCtor, Function: ctor('Function', functionProto, { call: () => { throw new Inconclusive('Function()'); }, construct: () => { throw new Inconclusive('new Function'); } }), Array: ArrayCtor, Map: MapCtor, Set: SetCtor, WeakMap: WeakMapCtor, WeakSet: WeakSetCtor, WeakRef: WeakRefCtor, Promise: PromiseCtor, RegExp: RegExpCtor, String: StringCtor, Number: NumberCtor, Boolean: BooleanCtor, Symbol: SymbolCtor, Math: MathNs, JSON: JSONNs, Reflect: ReflectNs, Proxy: ProxyCtor, console: consoleNs, Date: DateCtor, ...errCtors, ...globalFns };

// members the platform has but this model does not: reading one makes the path undecided instead of `undefined`
for (const [n, p] of Object.entries({ ...protos, ...errorProtos })) if (globalThis[n]?.prototype) p.slots.hostObj = globalThis[n].prototype;
for (const [n, f] of Object.entries(GLOBALS)) if (isObj(f) && (typeof globalThis[n] === 'function' || typeof globalThis[n] === 'object') && !f.slots.hostObj) f.slots.hostObj = globalThis[n];
const STRING_MEMBERS = new Set([...Object.keys(strFns), 'length']);
export const builtins = {
  objectProto, functionProto, arrayProto, protos, freeze,
  protoFor: (cls) => protos[cls] ?? objectProto,
  errorProto: (n) => errorProtos[n] ?? protos.Error,
  isStringMember: (k) => typeof k === 'string' && STRING_MEMBERS.has(k),
  getPrim(M, v, key) {
    const k = kindsOf(v);
    if ((k & ~KS.STRING) === 0) {
      if (key === 'length') return isPrim(v) ? v.length : M.term('strlen', [v], KS.NUMBER);
      if (typeof key === 'string' && /^\d+$/.test(key)) return isPrim(v) ? v[key] : M.term('str.charAt', [v, Number(key)], KS.STRING);
      if (key === Symbol.iterator) return undefined;
      if (isSym(key)) return M.term('get', [v, key], KS.ANY);
      return strNat[key] ?? M.getObj(objectProto, key, v);
    }
    if ((k & ~KS.NUMBER) === 0 || (k & ~KS.BOOL) === 0) { if (isSym(key)) return undefined; return numNat[key] ?? M.getObj(objectProto, key, v); }
    if (typeof v === 'symbol') { if (key === 'description') return v.description; if (key === 'toString') return nat('toString', () => String(v)); return undefined; }
    if (isSym(v)) { // mixed primitives
      if (key === 'toString') return numNat.toString;
      if (key === 'length') return M.term('get', [v, key], KS.ANY);
      if (typeof key === 'string' && strNat[key] && (k & KS.STRING)) { if (M.hasKind(v, KS.STRING)) return strNat[key]; return undefined; }
      return M.term('get', [v, key], KS.ANY);
    }
    return undefined;
  },
  global(M, name) { return Object.prototype.hasOwnProperty.call(GLOBALS, name) ? GLOBALS[name] : NOPE; },
  promiseResolved, promiseRejected, awaitValue, Suspend, pendingWork, asyncResult, regexp, iterOf, iterFrom, defineProp, hasOwn, nat, mk, def, ctor, ns, GLOBALS, jsonTerm,
};

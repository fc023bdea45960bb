// The abstract machine: path-local facts, branch exploration, property access,
// calls.  One Machine = one abstract path; explore() enumerates all of them.
import { AObj, Sym, K, KS, kindsOf, deref, isSym, isObj, isPrim, canonKey, show, typeofKinds, typeofOf, TYPEOF_NAMES } from './values.mjs';

export class PathEnd extends Error { constructor(why) { super(why); this.why = why; } }
export class Pruned extends PathEnd {}
export class Inconclusive extends PathEnd {}
export class ViolationEnd extends PathEnd {}
export class JsThrow { constructor(value, site) { this.value = value; this.site = site; } }

// evaluators of pure builtin operations when every operand is a program constant
export const OPS = {
  not: (a) => !a, typeof: (a) => typeof a, String: (a) => String(a), Number: (a) => Number(a),
  add: (a, b) => a + b, sub: (a, b) => a - b, mul: (a, b) => a * b, div: (a, b) => a / b, mod: (a, b) => a % b,
  lt: (a, b) => a < b, le: (a, b) => a <= b, eq: (a, b) => a === b, looseeq: (a, b) => a == b,
  bitor: (a, b) => a | b, bitand: (a, b) => a & b, bitxor: (a, b) => a ^ b, shl: (a, b) => a << b, shr: (a, b) => a >> b, ushr: (a, b) => a >>> b, pow: (a, b) => a ** b,
  neg: (a) => -a, plus: (a) => +a, bitnot: (a) => ~a,
  cat: (...p) => p.join(''),
  strlen: (s) => s.length,
  isInteger: (a) => Number.isInteger(a), isNaN: (a) => Number.isNaN(a), parseInt: (a, b) => parseInt(a, b), parseFloat: (a) => parseFloat(a),
  encodeURIComponent: (a) => encodeURIComponent(a), decodeURIComponent: (a) => decodeURIComponent(a), jsonstr: (a) => JSON.stringify(a),
};
const STR_METHODS = ['startsWith', 'endsWith', 'includes', 'indexOf', 'lastIndexOf', 'slice', 'substring', 'substr', 'toLowerCase', 'toUpperCase', 'trim', 'trimStart', 'trimEnd', 'charAt', 'charCodeAt', 'codePointAt', 'at', 'padStart', 'padEnd', 'repeat', 'normalize', 'localeCompare', 'concat', 'toLocaleLowerCase', 'toLocaleUpperCase'];
for (const m of STR_METHODS) OPS['str.' + m] = (s, ...a) => s[m](...a);
OPS['str.replace'] = (s, re, rep) => s.replace(toRe(re), rep);
OPS['str.replaceAll'] = (s, re, rep) => s.replaceAll(toRe(re), rep);
OPS['str.search'] = (s, re) => s.search(toRe(re));
OPS['re.test'] = (re, s) => toRe(re).test(s);
function toRe(x) { if (typeof x === 'string' && x.startsWith('\u0000re:')) { const i = x.lastIndexOf('/'); return new RegExp(x.slice(4, i), x.slice(i + 1)); } return x; }
export const reConst = (src, flags) => '\u0000re:' + src + '/' + flags;
export const STRING_METHODS = STR_METHODS;

export const OP_KINDS = {
  not: KS.BOOL, typeof: K.STR, String: KS.STRING, Number: KS.NUMBER, lt: KS.BOOL, le: KS.BOOL, eq: KS.BOOL, looseeq: KS.BOOL,
  sub: KS.NUMBER, mul: KS.NUMBER, div: KS.NUMBER, mod: KS.NUMBER, cat: KS.STRING, strlen: KS.NUMBER, neg: KS.NUMBER, plus: KS.NUMBER,
  'str.startsWith': KS.BOOL, 'str.endsWith': KS.BOOL, 'str.includes': KS.BOOL, 'str.indexOf': KS.NUMBER, 'str.lastIndexOf': KS.NUMBER,
  'str.charCodeAt': KS.NUMBER, 'str.search': KS.NUMBER, 're.test': KS.BOOL, isInteger: KS.BOOL, isNaN: KS.BOOL, jsonstr: KS.STRING, encodeURIComponent: KS.STRING,
  'str.localeCompare': KS.NUMBER, parseInt: KS.NUMBER, parseFloat: KS.NUMBER,
};
// operations that are not the identity on an unconstrained operand (used when two abstract results are compared)
const NON_IDENTITY = new Set(['str.toLowerCase', 'str.toUpperCase', 'str.trim', 'str.trimStart', 'str.trimEnd', 'str.slice', 'str.substring', 'str.substr', 'str.replace', 'str.replaceAll', 'cat', 'encodeURIComponent', 'decodeURIComponent', 'jsonstr', 'neg', 'add', 'sub', 'mul', 'div', 'str.concat', 'str.charAt', 'str.at', 'str.padStart', 'str.padEnd', 'str.repeat', 'get', 'Number', 'strlen', 'not', 'typeof', 'bitor']);

export class Machine {
  constructor(script, opts = {}) {
    this.script = script; this.pos = 0; this.trace = [];
    this.nextId = 1; this.steps = 0; this.depth = 0;
    this.terms = new Map(); this.decided = [];
    this.log = []; this.obl = Object.create(null); this.decisions = [];
    this.opts = opts; this.maxSteps = opts.maxSteps ?? 400000;
    this.site = null; this.cov = opts.cov ?? null;
    this.globals = null; this.interp = null;
    this.stack = [];
    this.bounded = 0;
  }
  // ---- creation
  obj(cls = 'Object', proto = undefined, name = null) {
    const o = new AObj(this.nextId++, cls, proto === undefined ? this.protoFor(cls) : proto);
    o.name = name; return o;
  }
  protoFor(cls) { return this.builtins ? this.builtins.protoFor(cls) : null; }
  sym(name, kinds = KS.ANY, flags = null) {
    const s = new Sym(this.nextId++, name, kinds); s.flags = flags; return s;
  }
  arr(items) { const o = this.obj('Array'); o.slots.items = items; return o; }
  plain(entries = {}) {
    const o = this.obj('Object');
    for (const [k, v] of entries instanceof Map ? entries : Object.entries(entries)) this.put(o, k, v);
    return o;
  }
  put(o, key, v, enumerable = true) {
    key = deref(key);
    if (isSym(key)) o.hasSym = true;
    o.props.set(key, { v, e: enumerable, w: true, c: true });
  }
  native(name, fn, extra = null) {
    const o = this.obj('Function'); o.slots.native = fn; o.slots.nname = name;
    if (extra) Object.assign(o.slots, extra);
    return o;
  }
  term(op, args, kinds) {
    args = args.map(deref);
    const f = OPS[op];
    if (f && args.every(isPrim)) {
      try { return f(...args); } catch (e) { throw this.throwError('TypeError', String(e.message)); }
    }
    // rewrites that keep equivalent spellings equal
    const a0 = args[0];
    if (op === 'String') {
      if (isSym(a0) && (a0.kinds & ~KS.STRING) === 0) return a0;
      if (isObj(a0)) return this.toStr(a0);
    }
    if (op === 'not' && isSym(a0) && a0.op === 'not' && (kindsOf(a0.args[0]) & ~KS.BOOL) === 0) return a0.args[0];
    if ((op === 'str.toLowerCase' || op === 'str.toUpperCase') && isSym(a0) && (a0.op === 'str.toLowerCase' || a0.op === 'str.toUpperCase')) return this.term(op, [a0.args[0]]);
    if (op === 'cat') {
      const parts = [];
      for (let a of args) {
        a = deref(a);
        if (isSym(a) && a.op === 'cat') parts.push(...a.args.map(deref)); else if (a !== '') parts.push(a);
      }
      const merged = [];
      for (const p of parts) {
        if (typeof p === 'string' && typeof merged[merged.length - 1] === 'string') merged[merged.length - 1] += p; else merged.push(p);
      }
      if (merged.length === 0) return '';
      if (merged.length === 1) return merged[0];
      args = merged;
      if (args.some((a) => typeof a === 'string' ? a !== '' : (kindsOf(a) & ~K.STR) === 0)) kinds = K.STR;
    }
    if (op === 'str.slice' && isSym(a0) && a0.op === 'cat' && args.length === 2 && typeof args[1] === 'number' && args[1] >= 0 && typeof a0.args[0] === 'string' && a0.args[0].length >= args[1]) {
      return this.term('cat', [a0.args[0].slice(args[1]), ...a0.args.slice(1)]);
    }
    if (op === 'str.startsWith' && isSym(a0) && a0.op === 'cat' && typeof a0.args[0] === 'string' && typeof args[1] === 'string' && args.length === 2) {
      const h = a0.args[0];
      if (h.length >= args[1].length) return h.startsWith(args[1]);
      if (!args[1].startsWith(h)) return false;
    }
    if (op === 'str.endsWith' && isSym(a0) && a0.op === 'cat' && typeof args[1] === 'string' && args.length === 2) {
      const t = a0.args[a0.args.length - 1];
      if (typeof t === 'string') { if (t.length >= args[1].length) return t.endsWith(args[1]); if (!args[1].endsWith(t)) return false; }
    }
    if (op === 'str.includes' && isSym(a0) && a0.op === 'cat' && typeof args[1] === 'string' && a0.args.some((p) => typeof p === 'string' && p.includes(args[1]))) return true;
    if ((op === 'lt' || op === 'le') && typeof a0 === 'number' && isSym(args[1]) && args[1].op === 'strlen') { const m = minLen(args[1].args[0]); if (op === 'lt' ? a0 < m : a0 <= m) return true; }
    if ((op === 'lt' || op === 'le') && typeof args[1] === 'number' && isSym(a0) && a0.op === 'strlen') { const m = minLen(a0.args[0]); if (op === 'lt' ? m >= args[1] : m > args[1]) return false; }
    const key = op + '(' + args.map((a) => canonKey(a)).join(',') + ')';
    const hit = this.terms.get(key);
    if (hit) return deref(hit);
    const s = new Sym(this.nextId++, op, kinds ?? OP_KINDS[op] ?? (op.startsWith('str.') ? KS.STRING : KS.ANY));
    s.op = op; s.args = args;
    if (op === 'eq' && !args.some(isSym)) s.kinds = KS.BOOL;
    this.terms.set(key, s);
    // congruent to an already decided term?
    for (const t of this.decided) if (t.op === op && t !== s && canonKey2(t) === key) { s.linked = true; s.link = t.link; return deref(s); }
    return s;
  }
  evalTermNow(t) { // constant value of a term whose operands became constants, else undefined marker
    const f = OPS[t.op];
    if (!f) return NOPE;
    const args = t.args.map((a) => this.fold(a));
    if (!args.every(isPrim)) return NOPE;
    try { return f(...args); } catch { return NOPE; }
  }
  fold(v) { // deref + fold terms
    v = deref(v);
    if (isSym(v) && v.op) {
      const r = this.evalTermNow(v);
      if (r !== NOPE) { v.linked = true; v.link = r; return r; }
    }
    return v;
  }
  // ---- choices
  choose(n, label = '') {
    if (n <= 1) return 0;
    let c;
    if (this.pos < this.script.length) c = this.script[this.pos]; else c = 0;
    this.pos++;
    this.trace.push({ n, c });
    this.decisions.push({ label, c, n, site: this.where() });
    return c;
  }
  get fresh() { return this.pos >= this.script.length; }
  where() {
    const s = this.site;
    if (!s) return null;
    return s;
  }
  siteStr(node = this.site) { return node ? this.interp.loc(node) : '?'; }
  // ---- facts
  refine(s, kinds) {
    s = deref(s);
    if (!isSym(s)) { if (!(kindsOf(s) & kinds)) throw new Pruned('refine'); return; }
    const nk = s.kinds & kinds;
    if (!nk) throw new Pruned('infeasible');
    if (nk !== s.kinds) {
      s.kinds = nk;
      let cv = NOPE;
      if (nk === K.UNDEF) cv = undefined; else if (nk === K.NULL) cv = null; else if (nk === K.TRUE) cv = true;
      else if (nk === K.FALSE) cv = false; else if (nk === K.ESTR) cv = '';
      const x = s.op === 'String' ? deref(s.args[0]) : null; // String(x) is empty exactly for '' (objects aside)
      if (isSym(x) && !(x.kinds & (K.OBJ | K.ARR))) { if (nk === K.ESTR) this.refine(x, K.ESTR); else if (nk === K.STR && x.kinds & K.ESTR) this.refine(x, ~K.ESTR); }
      if (cv !== NOPE) this.linkTo(s, cv);
    }
  }
  linkTo(s, v) {
    s = deref(s); v = deref(v);
    if (s === v) return;
    if (!isSym(s)) { const t = s; s = v; v = t; }
    if (!isSym(s)) { if (!Object.is(s, v)) throw new Pruned('conflict'); return; }
    if (isSym(v)) {
      const nk = s.kinds & v.kinds;
      if (!nk) throw new Pruned('infeasible');
      if (s.op && !v.op) { const t = s; s = v; v = t; }
      if (occurs(s, v)) { return; }
      v.kinds = nk;
      for (const n of s.neq) v.neq.push(n);
      if (s.flags) v.flags = { ...v.flags, ...s.flags };
      if (s.op) this.decided.push(s);
      s.linked = true; s.link = v;
    } else {
      if (!(kindsOf(v) & s.kinds)) throw new Pruned('infeasible');
      if (s.op) this.decided.push(s);
      s.linked = true; s.link = v;
    }
    this.scan();
  }
  scan() {
    for (let i = 0; i < this.decided.length; i++) {
      const t = this.decided[i];
      const r = this.evalTermNow(t);
      if (r !== NOPE) {
        const d = deref(t.link);
        if (isPrim(d)) { if (!Object.is(d, r) && d !== r) throw new Pruned('infeasible'); }
      }
    }
    // congruence of decided boolean terms
    const seen = new Map();
    for (const t of this.decided) {
      const key = canonKey2(t);
      const d = deref(t.link);
      if (!isPrim(d)) continue;
      if (seen.has(key)) { if (seen.get(key) !== d) throw new Pruned('infeasible'); } else seen.set(key, d);
    }
    for (const s of this.neqSyms ?? []) {
      const d = this.fold(s);
      for (const n of s.neq) { const m = this.fold(n); if (isPrim(d) && isPrim(m) ? Object.is(d, m) : d === m) throw new Pruned('infeasible'); }
    }
  }
  truthy(v, label) {
    v = this.fold(v);
    if (isPrim(v)) return Boolean(v);
    if (isObj(v)) return true;
    const t = v.kinds & KS.TRUTHY, f = v.kinds & KS.FALSY;
    if (!f) return true;
    if (!t) return false;
    if (v.op === 'not') return !this.truthy(v.args[0], label);
    const c = this.choose(2, label ?? show(v));
    if (c === 0) { this.refine(v, t); return true; }
    this.refine(v, f); return false;
  }
  isNullish(v, label) {
    v = this.fold(v);
    if (isPrim(v)) return v === undefined || v === null;
    if (isObj(v)) return false;
    const n = v.kinds & KS.NULLISH;
    if (!n) return false;
    if (!(v.kinds & ~KS.NULLISH)) return true;
    const c = this.choose(2, (label ?? show(v)) + ' is nullish');
    if (c === 1) { this.refine(v, n); return true; }
    this.refine(v, ~KS.NULLISH); return false;
  }
  hasKind(v, mask, label) { // decide whether v's kind is inside mask
    v = this.fold(v);
    const k = kindsOf(v);
    if (!(k & mask)) return false;
    if (!(k & ~mask)) return true;
    const c = this.choose(2, label ?? show(v));
    if (c === 0) { this.refine(v, mask); return true; }
    this.refine(v, ~mask); return false;
  }
  /** three-valued equality without splitting: true / false / null(unknown) */
  known(a, b) {
    a = this.fold(a); b = this.fold(b);
    if (isPrim(a) && isPrim(b)) return a === b;
    if (a === b) return (kindsOf(a) & K.ZERO) && isSym(a) && !a.op ? true : true;
    if (isObj(a) && isObj(b)) return false;
    if (isObj(a) || isObj(b)) {
      const o = isObj(a) ? a : b, x = isObj(a) ? b : a;
      if (isPrim(x)) return false;
      if (x.flags?.mayAlias) return null;
      return false;
    }
    if (!(kindsOf(a) & kindsOf(b))) return false;
    if (isSym(a) && a.flags?.distinct && !(isSym(b) && b === a)) { if (isSym(b) ? true : true) return false; }
    if (isSym(b) && b.flags?.distinct) return false;
    if (canonKey(a) === canonKey(b)) return true;
    if (isSym(a) && a.neq.some((n) => sameV(this.fold(n), b))) return false;
    if (isSym(b) && b.neq.some((n) => sameV(this.fold(n), a))) return false;
    if (isSym(a) && isSym(b) && a.flags?.uniq && b.flags?.uniq) return false;
    // strings built from literals and generic (pairwise distinct) atoms are equal only if built alike
    if (isSym(a) && isSym(b) && a.op === b.op && GROUND.has(a.op) && ground(a) && ground(b)) return false;
    // string shape
    const pa = parts(a), pb = parts(b);
    if (pa && pb) {
      const ha = typeof pa[0] === 'string' ? pa[0] : '', hb = typeof pb[0] === 'string' ? pb[0] : '';
      if (ha && hb) { const n = Math.min(ha.length, hb.length); if (ha.slice(0, n) !== hb.slice(0, n)) return false; }
      const ta = typeof pa[pa.length - 1] === 'string' ? pa[pa.length - 1] : '', tb = typeof pb[pb.length - 1] === 'string' ? pb[pb.length - 1] : '';
      if (ta && tb) { const n = Math.min(ta.length, tb.length); if (ta.slice(-n) !== tb.slice(-n)) return false; }
      if (isPrim(b) && pa.filter((x) => typeof x === 'string').join('').length > b.length) return false;
      if (isPrim(a) && pb.filter((x) => typeof x === 'string').join('').length > a.length) return false;
    }
    if (isSym(a) && a.op === 'typeof' && isPrim(b)) { const m = typeofKinds(b); const k = kindsOf(a.args[0]); if (!(k & m)) return false; if (!(k & ~m)) return true; }
    if (isSym(b) && b.op === 'typeof' && isPrim(a)) return this.known(b, a);
    return null;
  }
  eq(a, b, label) { // decides a === b, splitting if needed
    a = this.fold(a); b = this.fold(b);
    const k = this.known(a, b);
    if (k !== null) return k;
    if (isPrim(a)) { const t = a; a = b; b = t; }
    if (isSym(a) && a.op === 'typeof' && isPrim(b)) return this.hasKind(a.args[0], typeofKinds(b), `typeof ${show(a.args[0])} === ${show(b)}`);
    if (isSym(a) && (kindsOf(a) & ~KS.BOOL) === 0 && (b === true || b === false)) return this.truthy(a) === b;
    if (b === undefined || b === null || b === true || b === false || b === '') return this.hasKind(a, kindsOf(b), label ?? `${show(a)} === ${show(b)}`);
    const c = this.choose(2, label ?? `${show(a)} === ${show(b)}`);
    if (c === 1) { // equal
      if (isSym(a) && isSym(b) && a.op && b.op && (occurs(a, b) || occurs(b, a))) { const t = this.term('eq', [a, b], KS.BOOL); if (isSym(t)) this.linkTo(t, true); return true; }
      this.linkTo(a, b);
      return true;
    }
    if (isSym(a)) { a.neq.push(b); (this.neqSyms ??= new Set()).add(a); }
    if (isSym(b)) { b.neq.push(a); (this.neqSyms ??= new Set()).add(b); }
    return false;
  }
  /** comparison of two results: 'eq' | 'ne' | 'unk' (never splits) */
  same(a, b) {
    a = this.fold(a); b = this.fold(b);
    const k = this.known(a, b);
    if (k === true) return 'eq';
    if (k === false) return 'ne';
    const simple = (x) => isPrim(x) || isObj(x) || !x.op;
    if (simple(a) && simple(b)) return 'ne';
    const free = (x) => isSym(x) && !x.op;
    if (isSym(a) && isSym(b) && a.op === b.op && a.args.length === b.args.length) {
      if (a.op === 'String' || a.op === 'toJS' || a.op === 'get' || a.op === 'viewOf') {
        const r = a.args.map((x, i) => this.same(x, b.args[i]));
        if (r.every((x) => x === 'eq')) return 'eq';
        if (r.some((x) => x === 'ne')) return 'ne';
        return 'unk';
      }
    }
    if (simple(a) && isSym(b) && NON_IDENTITY.has(b.op)) return 'ne';
    if (simple(b) && isSym(a) && NON_IDENTITY.has(a.op)) return 'ne';
    if (isSym(a) && isSym(b) && NON_IDENTITY.has(a.op) && b.op === 'String' && occurs2(a, b)) return 'ne';
    if (isSym(a) && isSym(b) && NON_IDENTITY.has(b.op) && a.op === 'String' && occurs2(b, a)) return 'ne';
    if (isPrim(a) && isSym(b) && b.op === 'String') return 'ne';
    if (isPrim(b) && isSym(a) && a.op === 'String') return 'ne';
    if (isSym(a) && isSym(b) && a.op === 'cat' && b.op === 'cat') return 'ne';
    return 'unk';
  }
  toStr(v) {
    v = this.fold(v);
    if (isPrim(v)) { if (typeof v === 'symbol') throw this.throwError('TypeError', 'Cannot convert a Symbol value to a string'); return String(v); }
    if (isObj(v)) {
      if (v.cls === 'Array') return this.term('cat', joinParts(v.slots.items.map((x) => (this.isNullish(x) ? '' : this.toStr(x))), ','));
      if (v.cls === 'Error') { const m = v.props.get('message')?.v ?? ''; return this.term('cat', [(v.slots.ename ?? 'Error') + ': ', this.toStr(m)]); }
      const tp = this.get(v, Symbol.toPrimitive);
      if (isObj(tp) && tp.slots.node) return this.toStr(this.call(tp, v, ['string']));
      const ts = this.get(v, 'toString');
      if (isObj(ts) && ts.slots.node) return this.call(ts, v, []);
      return this.term('String', [objTag(this, v)]);
    }
    return this.term('String', [v], v.kinds & (K.ESTR | K.OBJ | K.ARR) ? KS.STRING : K.STR);
  }
  throwError(name, msg) { return new JsThrow(this.mkError(name, msg), this.site); }
  mkError(name, msg) {
    const e = this.obj('Error', this.builtins.errorProto(name));
    e.slots.ename = name;
    this.put(e, 'message', msg, false);
    return e;
  }
  // ---- property access
  toKey(k) {
    k = this.fold(k);
    if (isPrim(k)) return typeof k === 'symbol' ? k : String(k);
    if (isObj(k)) return this.toStr(k);
    if ((k.kinds & ~(KS.STRING | K.SYMB)) === 0) return k;
    return this.term('String', [k], KS.STRING);
  }
  findOwn(o, key) { // -> {k, d} or null, deciding symbolic key equality
    if (!isSym(key)) {
      const d = o.props.get(key);
      if (d) return { k: key, d };
      if (o.hasSym) for (const [k, d2] of o.props) if (isSym(k) && this.eq(k, key)) return { k, d: d2 };
      return null;
    }
    const d = o.props.get(key);
    if (d) return { k: key, d };
    for (const [k, d2] of [...o.props]) if (this.eq(key, k)) return { k, d: d2 };
    return null;
  }
  get(o, key, receiver = o) {
    o = this.fold(o); key = this.toKey(key);
    if (isObj(o)) return this.getObj(o, key, receiver);
    if (isSym(o)) return this.getSym(o, key);
    if (o === undefined || o === null) throw this.throwError('TypeError', `Cannot read properties of ${o} (reading '${show(key)}')`);
    return this.builtins.getPrim(this, o, key);
  }
  getObj(o, key, receiver) {
    for (let p = o; p; p = p.proto) {
      const ex = p.slots.exotic;
      if (ex?.get) { const r = ex.get(this, p, key, receiver); if (r !== NOPE) return r; }
      if (p.cls === 'Array' && p.slots.items && !isSym(key) && typeof key === 'string') {
        if (key === 'length') return p.slots.items.length;
        if (/^\d+$/.test(key)) { if (+key < p.slots.items.length) return p.slots.items[+key]; continue; }
      } else if (p.cls === 'Array' && p.slots.items && isSym(key)) {
        throw new Inconclusive('symbolic array index');
      }
      if (p === this.builtins.objectProto && isSym(key)) return this.isProtoKey(key) ? this.term('inherited', [key], KS.OBJECT) : undefined;
      if (p.slots.builtinProto && isSym(key)) continue;
      const f = this.findOwn(p, key);
      if (f) {
        const d = f.d;
        if ('v' in d) return d.v;
        return d.get ? this.call(d.get, receiver, []) : undefined;
      }
      if (p.spreads) {
        const cands = [];
        for (let i = p.spreads.length - 1; i >= 0; i--) {
          const s = p.spreads[i];
          if (!isSym(key) && s.except.has(key)) continue;
          cands.push(this.getSym(s.src, key));
        }
        if (cands.length === 1) return cands[0];
        if (cands.length) return this.term('merge', cands, KS.ANY);
      }
    }
    if (typeof key === 'string') this.unmodelled(o, key);
    return undefined;
  }
  unmodelled(o, key) {
    for (let p = o; p; p = p.proto) {
      const h = p.slots.hostObj;
      if (h && Object.prototype.hasOwnProperty.call(h, key) && !(p.cls === 'Function' && (key === 'length' || key === 'name' || key === 'prototype' || key === 'caller' || key === 'arguments'))) throw new Inconclusive('unmodelled member ' + key);
      if (p.slots.hostNames?.has(key) || p.slots.hostProps?.has(key)) throw new Inconclusive('unmodelled DOM member ' + key);
    }
    if (o === this.globalObj) this.interp.unmodelledGlobal(key);
  }
  isProtoKey(key) {
    if (key.flags?.plain) return false;
    if (key.op === 'cat' && typeof key.args[0] === 'string' && !PROTO_NAMES.some((n) => n.startsWith(key.args[0]) || key.args[0].startsWith(n))) return false;
    const t = this.term('isObjectPrototypeKey', [key], KS.BOOL);
    return this.truthy(t, `${show(key)} is a name inherited from Object.prototype`);
  }
  getSym(o, key) {
    if (o.onGet) { const r = o.onGet(this, o, key); if (r !== NOPE) return r; }
    if (o.props) for (const [k, v] of o.props) if (this.eq(key, k)) return v;
    const k = o.kinds;
    if ((k & ~KS.STRING) === 0) return this.builtins.getPrim(this, o, key);
    if (k & KS.NULLISH) {
      if (!o.op && !o.flags?.optimistic) { if (this.isNullish(o)) throw this.throwError('TypeError', `Cannot read properties of ${show(o)}`); } else this.refine(o, ~KS.NULLISH);
    }
    const o2 = this.fold(o);
    if (!isSym(o2)) return this.get(o2, key);
    if ((o2.kinds & ~(KS.STRING | KS.NUMBER | KS.BOOL)) === 0 && !isSym(key)) return this.builtins.getPrim(this, o2, key);
    if (o2.kinds & (KS.STRING) && !isSym(key) && this.builtins.isStringMember(key) && !(o2.kinds & KS.OBJECT)) return this.builtins.getPrim(this, o2, key);
    const t = this.term('get', [o2, key], KS.ANY);
    return t;
  }
  set(o, key, v, receiver) {
    o = this.fold(o); key = this.toKey(key);
    if (isSym(o)) {
      if (o.onSet) { const r = o.onSet(this, o, key, v); if (r !== NOPE) return true; }
      if (o.kinds & KS.NULLISH && !o.op && this.isNullish(o)) throw this.throwError('TypeError', 'Cannot set properties of nullish');
      this.log.push({ t: 'opaque-write', obj: o, key, v, site: this.site });
      (o.props ??= new Map()).set(key, v);
      return true;
    }
    if (!isObj(o)) { if (o === undefined || o === null) throw this.throwError('TypeError', `Cannot set properties of ${o} (setting '${show(key)}')`); return true; }
    for (let p = o; p; p = p.proto) {
      const ex = p.slots.exotic;
      if (ex?.set) { const r = ex.set(this, o, key, v, p); if (r !== NOPE) return true; }
      if (p === o && o.cls === 'Array' && o.slots.items && !isSym(key) && typeof key === 'string') {
        if (key === 'length') { if (typeof deref(v) === 'number') { o.slots.items.length = deref(v); return true; } throw new Inconclusive('symbolic length'); }
        if (/^\d+$/.test(key)) { while (o.slots.items.length < +key) o.slots.items.push(undefined); o.slots.items[+key] = v; return true; }
      }
      if (p.props.size === 0) continue;
      if (p.slots.builtinProto && isSym(key)) continue;
      const f = this.findOwn(p, key);
      if (f) {
        const d = f.d;
        if (!('v' in d)) { if (d.set) { this.call(d.set, o, [v]); return true; } throw this.throwError('TypeError', `Cannot set property ${show(key)} which has only a getter`); }
        if (p === o) {
          if (d.w === false || o.slots.frozen) throw this.throwError('TypeError', `Cannot assign to read only property '${show(key)}'`);
          d.v = v;
          if (o.slots.onWrite) o.slots.onWrite(this, o, key, v);
          return true;
        }
        if (d.w === false) throw this.throwError('TypeError', `Cannot assign to read only property '${show(key)}'`);
        break;
      }
    }
    if (!o.ext) throw this.throwError('TypeError', `Cannot add property ${show(key)}, object is not extensible`);
    if (isSym(key)) o.hasSym = true;
    o.props.set(key, { v, e: true, w: true, c: true });
    if (o.slots.onWrite) o.slots.onWrite(this, o, key, v);
    return true;
  }
  del(o, key) {
    o = this.fold(o); key = this.toKey(key);
    if (isSym(o)) { this.log.push({ t: 'opaque-write', obj: o, key, v: undefined, del: true, site: this.site }); return true; }
    if (!isObj(o)) return true;
    if (o.slots.exotic?.delete) return o.slots.exotic.delete(this, o, key);
    if (o.cls === 'Array' && /^\d+$/.test(String(key))) { o.slots.items[+key] = undefined; return true; }
    const f = this.findOwn(o, key);
    if (f) {
      if (f.d.c === false || o.slots.frozen) throw this.throwError('TypeError', `Cannot delete property '${show(key)}'`);
      o.props.delete(f.k);
      if (o.slots.onWrite) o.slots.onWrite(this, o, key, undefined);
    }
    return true;
  }
  has(o, key) { // `key in o`
    o = this.fold(o); key = this.toKey(key);
    if (isSym(o)) {
      if (o.kinds & ~KS.OBJECT) {
        if (o.kinds & KS.OBJECT && (o.op || o.flags?.optimistic)) this.refine(o, KS.OBJECT);
        else if (!this.hasKind(o, KS.OBJECT)) throw this.throwError('TypeError', `Cannot use 'in' operator on ${show(o)}`);
      }
      if (o.onHas) { const r = o.onHas(this, o, key); if (r !== NOPE) return r; }
      return this.term('has', [o, key], KS.BOOL);
    }
    if (!isObj(o)) throw this.throwError('TypeError', `Cannot use 'in' operator to search for '${show(key)}' in ${show(o)}`);
    let unk = null;
    for (let p = o; p; p = p.proto) {
      const ex = p.slots.exotic;
      if (ex?.has) { const r = ex.has(this, p, key); if (r !== NOPE) return r; }
      if (p.cls === 'Array' && p.slots.items && !isSym(key)) { if (key === 'length') return true; if (/^\d+$/.test(String(key))) { if (+key < p.slots.items.length) return true; continue; } }
      if (p.slots.builtinProto && isSym(key)) { if (p === this.builtins.objectProto) return this.isProtoKey(key); continue; }
      if (this.findOwn(p, key)) return true;
      if (p.spreads) for (const s of p.spreads) { if (!isSym(key) && s.except.has(key)) continue; const h = this.has(s.src, key); if (this.truthy(h)) return true; }
    }
    return unk ?? false;
  }
  ownKeys(o) { // own enumerable string keys (values may be Sym)
    const out = [];
    if (o.cls === 'Array' && o.slots.items) for (let i = 0; i < o.slots.items.length; i++) out.push(String(i));
    const ex = o.slots.exotic;
    if (ex?.ownKeys) out.push(...ex.ownKeys(this, o));
    for (const [k, d] of o.props) if (typeof k !== 'symbol' && d.e !== false) out.push(deref(k));
    return out;
  }
  // ---- calls
  call(f, thisV, args, node = null) {
    f = this.fold(f);
    if (isObj(f)) {
      if (f.slots.native) {
        const saved = this.site; if (node) this.site = node;
        try { return f.slots.native(this, thisV, args, node); } finally { this.site = saved; }
      }
      if (f.slots.bound) return this.call(f.slots.bound, f.slots.boundThis, [...f.slots.boundArgs, ...args], node);
      if (f.slots.node) return this.interp.callFunction(f, thisV, args, node);
      throw this.throwError('TypeError', `${show(f)} is not a function`);
    }
    if (isSym(f)) {
      if (!(f.kinds & K.FUNC)) throw this.throwError('TypeError', `${show(f)} is not a function`);
      if (f.kinds !== K.FUNC) {
        if (f.op || f.flags?.optimistic) this.refine(f, K.FUNC);
        else if (!this.hasKind(f, K.FUNC)) throw this.throwError('TypeError', `${show(f)} is not a function`);
      }
      if (f.onCall) return f.onCall(this, thisV, args, node);
      if (f.op === 'initProp') throw new Inconclusive('unmodelled DOM method ' + show(f));
      const r = this.sym(`result of ${show(f)}`, KS.ANY, { optimistic: true });
      this.log.push({ t: 'opaque-call', f, this: thisV, args, ret: r, site: node ?? this.site });
      if (this.opts.onOpaqueCall) { const q = this.opts.onOpaqueCall(this, f, thisV, args, r); if (q !== undefined) return q; }
      return r;
    }
    throw this.throwError('TypeError', `${show(f)} is not a function`);
  }
  construct(f, args, newTarget = f, node = null) {
    f = this.fold(f);
    if (isObj(f)) {
      if (f.slots.construct) { const saved = this.site; if (node) this.site = node; try { return f.slots.construct(this, args, newTarget, node); } finally { this.site = saved; } }
      if (f.slots.bound) return this.construct(f.slots.bound, [...f.slots.boundArgs, ...args], f.slots.bound, node);
      if (f.slots.node) return this.interp.constructFunction(f, args, newTarget, node);
      throw this.throwError('TypeError', `${show(f)} is not a constructor`);
    }
    if (isSym(f)) {
      const r = this.sym(`new ${show(f)}`, K.OBJ);
      this.log.push({ t: 'opaque-new', f, args, ret: r, site: node ?? this.site });
      return r;
    }
    throw this.throwError('TypeError', `${show(f)} is not a constructor`);
  }
  callMethod(o, name, args, node) { return this.call(this.get(o, name), o, args, node); }
  event(t, data = {}) { const e = { t, site: this.site, ...data }; this.log.push(e); return e; }
  // ---- obligations
  check(rule, ok, msg, site) {
    const o = (this.obl[rule] ??= { n: 0, unk: 0 });
    o.n++;
    if (ok === null || ok === 'unk') { o.unk++; return; }
    if (ok === true || ok === 'eq') return;
    this.fail(rule, typeof msg === 'function' ? msg() : msg, site);
  }
  fail(rule, msg, site) {
    const st = typeof site === 'string' ? site : this.siteStr(site ?? this.site);
    this.violation = { rule, msg, site: st, decisions: this.describe(), log: this.logTail(14) };
    throw new ViolationEnd(msg);
  }
  describe() { return this.decisions.filter((d) => d.label).map((d) => `${d.label}${d.n === 2 ? (d.c === 0 ? ' [branch 1]' : ' [branch 2]') : ` [${d.c}]`}${d.site ? ' @ ' + this.interp.loc(d.site) : ''}`); }
  logTail(n) { return this.log.slice(-n).map((e) => `${e.t} ${e.who ?? ''} ${e.args ? e.args.map((a) => show(a)).join(', ') : ''}${e.site ? ' @ ' + this.siteStr(e.site) : ''}`); }
  tick(node) {
    if (++this.steps > this.maxSteps) throw new Inconclusive('step budget exceeded');
  }
}
const PROTO_NAMES = Object.getOwnPropertyNames(Object.prototype);
const minLen = (v) => { v = deref(v); if (typeof v === 'string') return v.length; if (isSym(v) && v.op === 'cat') return v.args.reduce((n, a) => n + minLen(a), 0); return isSym(v) && (v.kinds & ~K.STR) === 0 ? 1 : 0; };
export const NOPE = Symbol('nope');
function canonKey2(t) { return t.op + '(' + t.args.map((a) => canonKey(a)).join(',') + ')'; }
function occurs(s, v, d = 0) { v = deref(v); if (v === s) return true; if (isSym(v) && v.op && d < 30) return v.args.some((a) => occurs(s, a, d + 1)); return false; }
function occurs2(a, b) { // a contains b or b's operand
  return occurs(b, a) || b.args.some((x) => occurs(deref(x), a));
}
const GROUND = new Set(['cat', 'sortedjoin', 'String']);
function ground(v, d = 0) { v = deref(v); if (isPrim(v)) return true; if (!isSym(v) || d > 20) return false; if (v.op) return GROUND.has(v.op) && v.args.every((x) => ground(x, d + 1)); return Boolean(v.flags?.distinct); }
function sameV(a, b) { return isPrim(a) && isPrim(b) ? Object.is(a, b) : a === b; }
function parts(v) { if (typeof v === 'string') return v === '' ? null : [v]; if (isSym(v) && v.op === 'cat') return v.args.map(deref); return null; }
export function joinParts(items, sep) { const out = []; items.forEach((x, i) => { if (i) out.push(sep); out.push(x); }); return out; }
function objTag(m, v) { return m.plainTag ? '[object Object]' : v.cls === 'Object' ? '[object Object]' : `[object ${v.cls}]`; }

// ---- exploration
export function explore(body, opts = {}) {
  const t0 = Date.now();
  const res = { paths: 0, completed: 0, pruned: 0, inconclusive: 0, violations: [], obl: Object.create(null), inconclusiveWhy: Object.create(null), truncated: false, states: 0, transitions: 0, thrown: 0 };
  const visited = new Set();
  const vioKeys = new Set();
  let script = [];
  const cov = opts.cov;
  for (;;) {
    const M = new Machine(script, { ...opts, cov });
    M.visited = visited; M.res = res;
    let end = 'ok';
    try { body(M); } catch (e) {
      if (e instanceof ViolationEnd) {
        end = 'violation';
        const v = M.violation; const key = v.rule + '|' + v.site;
        if (!vioKeys.has(key)) { vioKeys.add(key); res.violations.push(v); }
      } else if (e instanceof Inconclusive) { end = 'inconclusive'; res.inconclusiveWhy[e.why] = (res.inconclusiveWhy[e.why] ?? 0) + 1; if (process.env.VERIF_DEBUG === '2') console.error('INC', e.why, M.siteStr()); }
      else if (e instanceof Pruned) end = 'pruned';
      else if (e instanceof JsThrow && opts.throwRule !== null) {
        end = 'violation';
        const st = M.siteStr(e.site);
        const key = 'throws|' + st;
        if (!vioKeys.has(key)) { vioKeys.add(key); res.violations.push({ rule: 'operation-does-not-throw', msg: 'an operation that must complete raises ' + show(e.value), site: st, decisions: M.describe(), log: M.logTail(14) }); }
      } else if (e instanceof JsThrow) { end = 'thrown'; res.inconclusiveWhy['uncaught exception in analysed code: ' + show(e.value)] = (res.inconclusiveWhy['uncaught exception in analysed code: ' + show(e.value)] ?? 0) + 1; if (process.env.VERIF_DEBUG) console.error('THROW', show(e.value), M.siteStr(e.site), M.describe().slice(-5)); }
      else if (e instanceof RangeError && /call stack/i.test(e.message)) { end = 'inconclusive'; res.inconclusiveWhy['recursion too deep'] = (res.inconclusiveWhy['recursion too deep'] ?? 0) + 1; }
      else { if (opts.strict || process.env.VERIF_DEBUG) throw e; end = 'inconclusive'; const w = 'engine: ' + String(e.message).slice(0, 120); res.inconclusiveWhy[w] = (res.inconclusiveWhy[w] ?? 0) + 1; }
    }
    res.paths++;
    if (end === 'ok') res.completed++; else if (end === 'pruned') res.pruned++; else if (end === 'inconclusive') res.inconclusive++; else if (end === 'thrown') { res.thrown++; res.inconclusive++; }
    if (end !== 'inconclusive') for (const [r, o] of Object.entries(M.obl)) { const x = (res.obl[r] ??= { n: 0, unk: 0 }); x.n += o.n; x.unk += o.unk; }
    if (opts.onPath) opts.onPath(M, end);
    // backtrack
    const tr = M.trace;
    let i = tr.length - 1;
    while (i >= 0 && tr[i].c + 1 >= tr[i].n) i--;
    if (i < 0) break;
    script = tr.slice(0, i).map((x) => x.c); script.push(tr[i].c + 1);
    if (res.violations.length >= (opts.maxViolations ?? 5)) { res.truncated = true; break; }
    if (res.paths >= (opts.maxPaths ?? 200000) || Date.now() - t0 > (opts.maxMs ?? 600000)) { res.truncated = true; break; }
  }
  res.states = visited.size;
  res.ms = Date.now() - t0;
  return res;
}

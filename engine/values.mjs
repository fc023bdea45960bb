// Abstract values: program constants are host primitives; heap objects are AObj;
// everything the analysed code does not fix itself is a Sym (a set of kinds plus
// the facts the current path has established about it).  Pure operations on Syms
// are value-numbered terms (same operation, same operands => same Sym).

export const K = {
  UNDEF: 1, NULL: 2, TRUE: 4, FALSE: 8, ZERO: 16, NUM: 32, ESTR: 64, STR: 128,
  OBJ: 256, ARR: 512, FUNC: 1024, SYMB: 2048, BIG: 4096,
};
export const KS = {
  ANY: 8191,
  NULLISH: K.UNDEF | K.NULL,
  BOOL: K.TRUE | K.FALSE,
  NUMBER: K.ZERO | K.NUM,
  STRING: K.ESTR | K.STR,
  OBJECT: K.OBJ | K.ARR | K.FUNC,
  FALSY: K.UNDEF | K.NULL | K.FALSE | K.ZERO | K.ESTR,
  TRUTHY: K.TRUE | K.NUM | K.STR | K.OBJ | K.ARR | K.FUNC | K.SYMB | K.BIG,
  PRIM: K.UNDEF | K.NULL | K.TRUE | K.FALSE | K.ZERO | K.NUM | K.ESTR | K.STR,
};
const TYPEOF = {
  undefined: K.UNDEF, object: K.NULL | K.OBJ | K.ARR, boolean: KS.BOOL,
  number: KS.NUMBER, string: KS.STRING, function: K.FUNC, symbol: K.SYMB, bigint: K.BIG,
};
export const typeofKinds = (t) => TYPEOF[t] ?? 0;
export const TYPEOF_NAMES = Object.keys(TYPEOF);

export class Sym {
  constructor(id, name, kinds) {
    this.id = id; this.name = name; this.kinds = kinds;
    this.link = undefined; this.linked = false;
    this.neq = []; this.op = null; this.args = null; this.flags = null;
    this.props = null; // program writes to an opaque object
    this.onCall = null; this.onGet = null; this.onSet = null;
  }
}

export class AObj {
  constructor(id, cls, proto) {
    this.id = id; this.cls = cls; this.proto = proto;
    this.props = new Map(); // key (string | symbol | Sym) -> {v}|{get,set}, plus e/w/c flags
    this.hasSym = false;    // some key is a Sym
    this.spreads = null;    // opaque sources spread into this object: [{src, except:Set}]
    this.slots = {};
    this.ext = true;
    this.name = null;
  }
}

export const isSym = (v) => v instanceof Sym;
export const isObj = (v) => v instanceof AObj;
export const isPrim = (v) => !(v instanceof Sym) && !(v instanceof AObj);

export function deref(v) {
  while (v instanceof Sym && v.linked) v = v.link;
  return v;
}

export function kindsOf(v) {
  v = deref(v);
  if (v instanceof Sym) return v.kinds;
  if (v instanceof AObj) return v.cls === 'Array' ? K.ARR : v.cls === 'Function' ? K.FUNC : K.OBJ;
  if (v === undefined) return K.UNDEF;
  if (v === null) return K.NULL;
  switch (typeof v) {
    case 'boolean': return v ? K.TRUE : K.FALSE;
    case 'number': return v ? K.NUM : K.ZERO;
    case 'string': return v === '' ? K.ESTR : K.STR;
    case 'symbol': return K.SYMB;
    case 'bigint': return K.BIG;
  }
  throw new Error('host value leaked into the abstract domain: ' + typeof v);
}

export function typeofOf(kinds) { // single typeof name or null
  for (const n of TYPEOF_NAMES) if ((kinds & ~TYPEOF[n]) === 0) return n;
  return null;
}

export function canonKey(v, depth = 0) {
  v = deref(v);
  if (v instanceof Sym) {
    if (v.op && depth < 40) return `${v.op}(${v.args.map((a) => canonKey(a, depth + 1)).join(',')})`;
    return '$' + v.id;
  }
  if (v instanceof AObj) return '#' + v.id;
  if (typeof v === 'string') return JSON.stringify(v);
  if (typeof v === 'symbol') return String(v);
  if (Object.is(v, -0)) return '-0';
  return String(v) + (typeof v === 'bigint' ? 'n' : '');
}

export function show(v, depth = 0) {
  v = deref(v);
  if (v instanceof Sym) {
    if (v.op && depth < 6) return `${v.op}(${v.args.map((a) => show(a, depth + 1)).join(', ')})`;
    return '‹' + v.name + '›';
  }
  if (v instanceof AObj) {
    if (v.name) return v.name;
    if (v.cls === 'Array' && depth < 3) return '[' + v.slots.items.map((x) => show(x, depth + 1)).join(', ') + ']';
    if (v.cls === 'Function') return 'function ' + (v.slots.fname || v.slots.nname || '');
    if (v.cls === 'Error') return 'Error(' + show(v.props.get('message')?.v, depth + 1) + ')';
    if (depth < 2 && v.cls === 'Object') {
      const ps = [];
      for (const [k, d] of v.props) ps.push(`${k instanceof Sym ? '[' + show(k) + ']' : String(k)}: ${'v' in d ? show(d.v, depth + 1) : '<accessor>'}`);
      if (v.spreads) for (const s of v.spreads) ps.push('...' + show(s.src, depth + 1));
      return '{' + ps.slice(0, 8).join(', ') + '}';
    }
    return v.cls + '#' + v.id;
  }
  if (typeof v === 'string') return JSON.stringify(v);
  return String(v);
}

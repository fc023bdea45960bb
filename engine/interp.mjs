// Abstract transfer functions over the TypeScript syntax tree.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
import { AObj, Sym, K, KS, kindsOf, deref, isSym, isObj, isPrim, show, typeofOf, canonKey } from './values.mjs';
import { Machine, Inconclusive, Pruned, JsThrow, NOPE, reConst, joinParts } from './machine.mjs';

const req = createRequire(import.meta.url);
export const ts = req('/opt/veriftools/node/node_modules/typescript');
const SK = ts.SyntaxKind;
export const REPO = process.env.VERIF_REPO || '/repo';

// ---------- program (shared by all paths, read-only)
const parsed = new Map();
export function parse(file) {
  let r = parsed.get(file);
  if (!r) {
    const text = fs.readFileSync(file, 'utf8');
    const kind = file.endsWith('.tsx') ? ts.ScriptKind.TSX : /\.(m|c)?js$/.test(file) ? ts.ScriptKind.JS : ts.ScriptKind.TS;
    const sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true, kind);
    const errs = sf.parseDiagnostics ?? [];
    r = { file, sf, errs };
    parsed.set(file, r);
  }
  return r;
}
const RES = new Map();
export function resolveModule(from, spec) { const k = from + '\0' + spec; if (!RES.has(k)) RES.set(k, resolveModule0(from, spec)); return RES.get(k); }
function resolveModule0(from, spec) {
  if (!spec.startsWith('.')) return null;
  const base = path.resolve(path.dirname(from), spec);
  const cands = [base, base + '.ts', base + '.tsx', base + '.mts', base + '.js', base + '.mjs', base + '/index.ts', base + '/index.tsx', base.replace(/\.js$/, '.ts'), base.replace(/\.jsx$/, '.tsx')];
  for (const c of cands) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
  return undefined;
}
const TXT = new WeakMap();
const text = (n) => { let t = TXT.get(n); if (t === undefined) { t = n.getText(); TXT.set(n, t); } return t; };
const LOC = new WeakMap();
export function loc(node) {
  if (!node) return '?';
  let l = LOC.get(node);
  if (l === undefined) { l = loc0(node); LOC.set(node, l); }
  return l;
}
function loc0(node) {
  const sf = node.getSourceFile();
  const { line } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
  return path.relative(REPO, sf.fileName) + ':' + (line + 1);
}

/** imported local names of a file that are used as values (type-only imports are erased by the compiler) */
export function valueUses(sf) {
  if (sf.__valueUses) return sf.__valueUses;
  const uses = new Set();
  const visit = (n) => {
    if (ts.isTypeNode(n) && n.kind !== SK.ExpressionWithTypeArguments) return;
    if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
    if (ts.isImportDeclaration(n)) return;
    if (ts.isHeritageClause(n) && n.token === SK.ImplementsKeyword) return;
    if (n.modifiers?.some((m) => m.kind === SK.DeclareKeyword)) return;
    if (n.kind === SK.ExpressionWithTypeArguments) { visit(n.expression); return; }
    if (ts.isTypeParameterDeclaration(n)) return;
    if (ts.isIdentifier(n)) {
      const p = n.parent;
      if (ts.isPropertyAccessExpression(p) && p.name === n) return;
      if (ts.isPropertyAssignment(p) && p.name === n) return;
      if ((ts.isMethodDeclaration(p) || ts.isPropertyDeclaration(p) || ts.isGetAccessor(p) || ts.isSetAccessor(p)) && p.name === n) return;
      if (ts.isExportSpecifier(p)) { if (p.isTypeOnly || p.parent.parent.isTypeOnly || p.parent.parent.moduleSpecifier) return; uses.add((p.propertyName ?? p.name).text); return; }
      uses.add(n.text);
      return;
    }
    ts.forEachChild(n, visit);
  };
  ts.forEachChild(sf, visit);
  sf.__valueUses = uses;
  return uses;
}

class Cell { constructor(v, kind, tdz = false) { this.v = v; this.kind = kind; this.tdz = tdz; } }
export class Scope {
  constructor(parent, fr) { this.parent = parent; this.vars = new Map(); this.fr = fr ?? parent?.fr ?? null; }
  find(name) { for (let s = this; s; s = s.parent) { const c = s.vars.get(name); if (c) return c; } return null; }
  declare(name, v, kind, tdz = false) { const c = new Cell(v, kind, tdz); this.vars.set(name, c); return c; }
}
class ImportRef { constructor(mod, name) { this.mod = mod; this.name = name; } }

const RET = 1, BRK = 2, CONT = 3;

const dn = JSON.parse(fs.readFileSync(new URL('./domnames.json', import.meta.url), 'utf8'));
export const DOM_NAMES = { methods: new Set(dn.methods), props: new Set(dn.props), globals: new Set(dn.globals) };
const NODE_GLOBALS = new Set(Object.getOwnPropertyNames(globalThis).filter((n) => !DOM_NAMES.globals.has(n) && !['global', 'process', 'GLOBAL', 'root'].includes(n)));
for (const n of ['URL', 'URLSearchParams', 'TextEncoder', 'TextDecoder', 'AbortController', 'AbortSignal', 'structuredClone', 'queueMicrotask', 'performance', 'Blob', 'fetch', 'Headers', 'Request', 'Response', 'MessageChannel', 'BroadcastChannel', 'setTimeout', 'clearTimeout', 'crypto']) NODE_GLOBALS.add(n);

export class Interp {
  constructor(M, env) {
    this.M = M; M.interp = this; this.env = env; // env: {externals(spec, M), globals(M) -> Map}
    this.modules = new Map();
    this.globalScope = new Scope(null, null);
    this.loc = loc;
  }
  // ---------- modules
  load(file) {
    if (!path.isAbsolute(file)) file = path.join(REPO, file);
    let m = this.modules.get(file);
    if (m) return m;
    if (!parsed.has(file) && !fs.existsSync(file)) throw new AnchorMissing(file);
    const { sf } = parse(file);
    m = { file, sf, scope: new Scope(this.globalScope, { thisV: undefined, fn: null }), exports: new Map(), stars: [], state: 0 };
    this.modules.set(file, m);
    this.M.log.push({ t: 'module', who: path.relative(REPO, file), file });
    const uses = valueUses(sf);
    const importsOf = [];
    // first pass: bind imports/exports
    for (const st of sf.statements) {
      if (ts.isImportDeclaration(st)) {
        const spec = st.moduleSpecifier.text;
        const ic = st.importClause;
        if (ic?.isTypeOnly) continue;
        const names = [];
        if (ic) {
          if (ic.name && uses.has(ic.name.text)) names.push([ic.name.text, 'default']);
          if (ic.namedBindings) {
            if (ts.isNamespaceImport(ic.namedBindings)) { if (uses.has(ic.namedBindings.name.text)) names.push([ic.namedBindings.name.text, '*']); } else {
              for (const el of ic.namedBindings.elements) if (!el.isTypeOnly && uses.has(el.name.text)) names.push([el.name.text, (el.propertyName ?? el.name).text]);
            }
          }
          if (!names.length) continue; // erased
        }
        importsOf.push({ spec, names, st });
      } else if (ts.isExportDeclaration(st) && st.moduleSpecifier && !st.isTypeOnly) {
        if (st.exportClause && ts.isNamedExports(st.exportClause) && st.exportClause.elements.every((e) => e.isTypeOnly)) continue;
        importsOf.push({ spec: st.moduleSpecifier.text, exp: st, st });
      }
    }
    for (const i of importsOf) {
      const dep = this.loadSpec(file, i.spec, i.st);
      if (i.names) for (const [local, imported] of i.names) m.scope.vars.set(local, new ImportRef(dep, imported));
      if (i.exp) {
        const ec = i.exp.exportClause;
        if (!ec) m.stars.push(dep);
        else if (ts.isNamespaceExport(ec)) m.exports.set(ec.name.text, new ImportRef(dep, '*'));
        else for (const el of ec.elements) if (!el.isTypeOnly) m.exports.set(el.name.text, new ImportRef(dep, (el.propertyName ?? el.name).text));
      }
    }
    m.state = 1;
    this.M.log.push({ t: 'module-exec', who: path.relative(REPO, file), file });
    const sc = m.scope; sc.isFn = true;
    this.hoist(sf.statements, sc, sc);
    for (const st of sf.statements) {
      this.exec(st, sc);
    }
    m.state = 2;
    return m;
  }
  loadSpec(from, spec, node) {
    const f = resolveModule(from, spec);
    if (f) return this.load(f);
    if (f === undefined) throw this.M.throwError('Error', 'Cannot resolve ' + spec);
    return this.external(spec, node);
  }
  external(spec, node) {
    let m = this.modules.get('ext:' + spec);
    if (!m) {
      this.M.log.push({ t: 'external', who: spec, site: node });
      m = { ext: spec, ns: this.env.externals?.(spec, this.M) ?? this.M.sym('module ' + spec, K.OBJ) };
      this.modules.set('ext:' + spec, m);
    }
    return m;
  }
  exportOf(mod, name, seen = new Set()) {
    if (mod.ext) return name === '*' ? mod.ns : name === 'default' && isObj(mod.ns) && !mod.ns.props.has('default') ? mod.ns : this.M.get(mod.ns, name);
    if (name === '*') return this.namespace(mod);
    if (seen.has(mod)) return NOPE; seen.add(mod);
    const e = mod.exports.get(name);
    if (e instanceof ImportRef) return this.exportOf(e.mod, e.name);
    if (e instanceof Cell) { if (e.tdz) throw this.M.throwError('ReferenceError', `Cannot access '${name}' before initialization`); return e.v; }
    if (name !== 'default') for (const s of mod.stars) { const r = this.exportOf(s, name, seen); if (r !== NOPE && r !== undefined) return r; }
    return NOPE;
  }
  exported(mod, name) {
    const r = this.exportOf(mod, name);
    if (r === NOPE) throw new AnchorMissing(`${path.relative(REPO, mod.file)}#${name}`);
    return r;
  }
  namespace(mod) {
    if (mod.nsObj) return mod.nsObj;
    const o = this.M.obj('Object', null); mod.nsObj = o;
    const self = this;
    o.slots.exotic = { get(M, ob, key) { if (isSym(key) || typeof key === 'symbol') return undefined; const r = self.exportOf(mod, key); return r === NOPE ? undefined : r; }, has(M, ob, key) { return !isSym(key) && self.exportOf(mod, String(key)) !== NOPE; }, ownKeys() { return [...mod.exports.keys()]; } };
    return o;
  }
  // ---------- declarations
  hoist(stmts, sc, fnScope) {
    for (const st0 of stmts) {
      let st = st0;
      if (ts.isFunctionDeclaration(st) && st.name && st.body) { const f = this.makeFn(st, sc); f.slots.fname = st.name.text; sc.declare(st.name.text, f, 'fn'); } 
      else if (ts.isFunctionDeclaration(st) && !st.name && st.body) { const f = this.makeFn(st, sc); st.__anon = true; sc.declare('*default*', f, 'fn'); }
      else if (ts.isClassDeclaration(st)) { sc.declare(st.name ? st.name.text : '*default*', undefined, 'class', true); }
      else if (ts.isEnumDeclaration(st)) sc.declare(st.name.text, undefined, 'const', true);
      else if (ts.isVariableStatement(st)) this.hoistDecls(st.declarationList, sc, fnScope, st);
    }
    // module exports
    for (const st of stmts) {
      if (!ts.isSourceFile(st.parent)) break;
      const m = this.modules.get(st.getSourceFile().fileName);
      if (!m) break;
      const isExp = st.modifiers?.some((x) => x.kind === SK.ExportKeyword), isDef = st.modifiers?.some((x) => x.kind === SK.DefaultKeyword);
      if (isExp && (ts.isFunctionDeclaration(st) ? st.body : ts.isClassDeclaration(st) || ts.isEnumDeclaration(st))) {
        const nm = st.name ? st.name.text : '*default*';
        m.exports.set(isDef ? 'default' : nm, sc.vars.get(nm));
      } else if (isExp && ts.isVariableStatement(st)) {
        for (const d of st.declarationList.declarations) for (const n of bindingNames(d.name)) m.exports.set(n, sc.vars.get(n));
      } else if (ts.isExportDeclaration(st) && !st.moduleSpecifier && !st.isTypeOnly && st.exportClause && ts.isNamedExports(st.exportClause)) {
        for (const el of st.exportClause.elements) { if (el.isTypeOnly) continue; const c = sc.vars.get((el.propertyName ?? el.name).text); if (c) m.exports.set(el.name.text, c); }
      } else if (ts.isExportAssignment(st)) {
        m.exports.set('default', ts.isIdentifier(st.expression) && sc.vars.get(st.expression.text) ? sc.vars.get(st.expression.text) : sc.declare('*default*', undefined, 'const', true));
      }
    }
    this.hoistVars(stmts, fnScope);
  }
  hoistDecls(list, sc, fnScope) {
    const isVar = !(list.flags & ts.NodeFlags.BlockScoped);
    for (const d of list.declarations) for (const n of bindingNames(d.name)) {
      if (isVar) { if (!fnScope.vars.has(n)) fnScope.declare(n, undefined, 'var'); } else sc.declare(n, undefined, (list.flags & ts.NodeFlags.Const) ? 'const' : 'let', true);
    }
  }
  hoistVars(stmts, fnScope) {
    for (const st of stmts) {
      let names = st.__vars;
      if (!names) {
        names = [];
        const visit = (n) => {
          if (ts.isFunctionLike(n) || ts.isClassLike(n)) return;
          if (ts.isVariableDeclarationList(n) && !(n.flags & ts.NodeFlags.BlockScoped)) for (const d of n.declarations) names.push(...bindingNames(d.name));
          ts.forEachChild(n, visit);
        };
        visit(st);
        st.__vars = names;
      }
      for (const n of names) if (!fnScope.vars.has(n)) fnScope.declare(n, undefined, 'var');
    }
  }
  makeFn(node, sc, fr = sc.fr, kind) {
    const M = this.M;
    const f = M.obj('Function');
    f.slots.node = node; f.slots.scope = sc;
    f.slots.arrow = node.kind === SK.ArrowFunction;
    f.slots.fr = fr;
    f.slots.async = node.modifiers?.some((m) => m.kind === SK.AsyncKeyword) ?? false;
    f.slots.gen = Boolean(node.asteriskToken);
    if (!f.slots.arrow && (node.kind === SK.FunctionDeclaration || node.kind === SK.FunctionExpression) && !f.slots.async) f.slots.lazyProto = true;
    f.slots.exotic = FN_EXOTIC;
    return f;
  }
  // ---------- functions
  callFunction(f, thisV, args, node) {
    const M = this.M;
    if (f.slots.isClass) throw M.throwError('TypeError', 'Class constructor cannot be invoked without new');
    const fn = f.slots.node;
    const fr = f.slots.arrow ? f.slots.fr : { thisV, fn: f, home: f.slots.home, newTarget: undefined, args };
    return this.invoke(f, fn, fr, args, node);
  }
  invoke(f, fn, fr, args, node) {
    const M = this.M;
    if (++M.depth > 160) { M.depth--; throw new Inconclusive('call depth'); }
    if (M.cov) M.cov.fn(fn);
    const savedSite = M.site;
    const sc = new Scope(f.slots.scope, f.slots.arrow ? f.slots.fr : fr); sc.isFn = true;
    M.stack.push(fn);
    let yields = null;
    try {
      const run = () => {
        if (fn.name && fn.kind === SK.FunctionExpression) { const s2 = sc.declare(fn.name.text, f, 'const'); }
        this.bindParams(fn.parameters, args, sc);
        if (!fn.body) return undefined;
        if (fn.body.kind !== SK.Block) { return this.ev(fn.body, sc); }
        this.hoist(fn.body.statements, sc, sc);
        const c = this.execList(fn.body.statements, sc);
        return c && c.t === RET ? c.v : undefined;
      };
      if (f.slots.gen) { yields = []; sc.yields = yields; const r = run(); return M.builtins.iterOf(M, yields); }
      if (f.slots.async) {
        const outer = M.asyncFrame, frame = M.asyncFrame = new Set();
        try { return M.builtins.asyncResult(M, frame, M.builtins.promiseResolved(M, run())); } catch (e) { if (e instanceof JsThrow) return M.builtins.asyncResult(M, frame, M.builtins.promiseRejected(M, e.value)); if (e instanceof M.builtins.Suspend) { const p = M.obj('Promise'); p.slots.state = 'pending'; M.log.push({ t: 'deferred', who: 'await', site: M.site }); (M.deferred ??= []).push(M.native('continuation', () => { throw new Inconclusive('code after an await'); })); return p; } throw e; } finally { M.asyncFrame = outer; }
      }
      return run();
    } finally { M.depth--; M.stack.pop(); M.site = savedSite; }
  }
  bindParams(params, args, sc) {
    let i = 0;
    for (const p of params) {
      if (ts.isIdentifier(p.name) && p.name.text === 'this') continue;
      if (p.dotDotDotToken) { this.bindPattern(p.name, this.M.arr(args.slice(i)), sc, 'param', true); break; }
      let v = args[i++];
      if (p.initializer) { if (this.isUndef(v, p)) v = this.ev(p.initializer, sc); }
      this.bindPattern(p.name, v, sc, 'param', true);
      if (p.modifiers?.some((m) => [SK.PrivateKeyword, SK.PublicKeyword, SK.ProtectedKeyword, SK.ReadonlyKeyword].includes(m.kind)) && sc.fr) {
        (sc.paramProps ??= []).push([p.name.text, v]);
      }
    }
  }
  isUndef(v, node) {
    v = this.M.fold(v);
    if (!isSym(v)) return v === undefined;
    if (!(v.kinds & K.UNDEF)) return false;
    this.M.site = node;
    return this.M.hasKind(v, K.UNDEF, show(v) + ' is undefined');
  }
  bindPattern(name, v, sc, kind, decl) {
    if (ts.isIdentifier(name)) {
      if (decl) { const c = sc.vars.get(name.text); if (c instanceof Cell && kind !== 'param' ) { c.v = v; c.tdz = false; c.kind = kind; } else sc.declare(name.text, v, kind); }
      return;
    }
    const M = this.M;
    if (ts.isObjectBindingPattern(name)) {
      if (M.isNullish(v)) throw M.throwError('TypeError', 'Cannot destructure nullish');
      const used = [];
      for (const el of name.elements) {
        if (el.dotDotDotToken) { this.bindPattern(el.name, this.restObj(v, used), sc, kind, decl); continue; }
        const key = el.propertyName ? (ts.isComputedPropertyName(el.propertyName) ? this.ev(el.propertyName.expression, sc) : el.propertyName.text) : el.name.text;
        used.push(key);
        M.site = el;
        let x = M.get(v, key);
        if (el.initializer && this.isUndef(x, el)) x = this.ev(el.initializer, sc);
        this.bindPattern(el.name, x, sc, kind, decl);
      }
    } else {
      const items = this.iterateAll(v);
      let i = 0;
      for (const el of name.elements) {
        if (ts.isOmittedExpression(el)) { i++; continue; }
        if (el.dotDotDotToken) { this.bindPattern(el.name, M.arr(items.slice(i)), sc, kind, decl); break; }
        let x = items[i++];
        if (el.initializer && this.isUndef(x, el)) x = this.ev(el.initializer, sc);
        this.bindPattern(el.name, x, sc, kind, decl);
      }
    }
  }
  restObj(v, used) {
    const M = this.M;
    v = M.fold(v);
    const o = M.obj('Object');
    if (isSym(v)) { o.spreads = [{ src: v, except: new Set(used) }]; return o; }
    this.copyProps(o, v, used);
    return o;
  }
  copyProps(o, v, except = []) { // {...v}
    const M = this.M;
    v = M.fold(v);
    if (isSym(v)) {
      if (!(v.kinds & KS.OBJECT)) return;
      if (v.kinds & ~KS.OBJECT) {
        if (v.op || v.flags?.optimistic) { /* a primitive contributes nothing visible */ } else if (!M.hasKind(v, KS.OBJECT)) return;
      }
      if (v.onSpread) { v.onSpread(M, o); return; }
      // later opaque source may override what is already there
      for (const [k, d] of o.props) if ('v' in d) { if (v.flags?.noOverride?.(k)) continue; d.v = M.term('override', [v, isSym(k) ? k : String(k), d.v], KS.ANY); }
      (o.spreads ??= []).push({ src: v, except: new Set(except) });
      return;
    }
    if (!isObj(v)) { if (typeof v === 'string') [...v].forEach((c, i) => M.put(o, String(i), c)); return; }
    for (const k of M.ownKeys(v)) {
      if (!isSym(k) && except.includes(k)) continue;
      if (isSym(k) && except.length) { let hit = false; for (const e of except) if (M.eq(k, e)) { hit = true; break; } if (hit) continue; }
      const val = M.get(v, k);
      this.defOwn(o, k, val);
    }
    for (const [k, d] of v.props) if (typeof k === 'symbol' && d.e !== false) this.defOwn(o, k, M.get(v, k));
    if (v.spreads) for (const s of v.spreads) {
      const ex = new Set(s.except); for (const k of except) ex.add(k);
      (o.spreads ??= []).push({ src: s.src, except: ex });
    }
  }
  defOwn(o, key, val) {
    const M = this.M;
    key = M.toKey(key);
    const f = M.findOwn(o, key);
    if (f) { f.d.v = val; delete f.d.get; delete f.d.set; return; }
    M.put(o, key, val);
  }
  // ---------- construct
  constructFunction(f, args, newTarget, node) {
    const M = this.M;
    if (f.slots.arrow) throw M.throwError('TypeError', 'not a constructor');
    if (!f.slots.isClass) {
      const o = M.obj('Object', this.protoOf(newTarget));
      const r = this.invoke(f, f.slots.node, { thisV: o, fn: f, newTarget, args }, args, node);
      const rr = deref(r);
      return isObj(rr) ? rr : o;
    }
    const cls = f.slots.node;
    const ctor = cls.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
    const fr = { thisV: NOPE, fn: f, home: f.slots.protoObj, newTarget, args, cls: f };
    if (!f.slots.parent) {
      fr.thisV = M.obj('Object', this.protoOf(newTarget));
      this.initFields(f, fr.thisV);
    }
    if (!ctor) {
      if (f.slots.parent) { fr.thisV = M.construct(f.slots.parent, args, newTarget, node); this.initFields(f, fr.thisV); }
      return fr.thisV;
    }
    if (++M.depth > 160) { M.depth--; throw new Inconclusive('call depth'); }
    if (M.cov) M.cov.fn(ctor);
    M.stack.push(ctor);
    try {
      const sc = new Scope(f.slots.scope, fr); sc.isFn = true;
      this.bindParams(ctor.parameters, args, sc);
      fr.paramProps = sc.paramProps;
      if (!f.slots.parent && sc.paramProps) for (const [n, v] of sc.paramProps) M.put(fr.thisV, n, v);
      this.hoist(ctor.body.statements, sc, sc);
      const c = this.execList(ctor.body.statements, sc);
      if (c && c.t === RET && isObj(deref(c.v))) return deref(c.v);
    } finally { M.depth--; M.stack.pop(); }
    if (fr.thisV === NOPE) throw M.throwError('ReferenceError', 'Must call super constructor');
    return fr.thisV;
  }
  protoOf(f) { const p = this.M.get(f, 'prototype'); return isObj(p) ? p : this.M.builtins.objectProto; }
  initFields(f, obj) {
    const M = this.M;
    for (const m of f.slots.fields) {
      const sc = new Scope(f.slots.scope, { thisV: obj, fn: f, home: f.slots.protoObj });
      const v = m.node.initializer ? this.evNamed(m.node.initializer, sc, m.key) : undefined;
      this.defField(obj, m, v);
    }
  }
  defField(obj, m, v) {
    if (m.priv) { (obj.priv ??= new Map()).set(m.key, { v }); return; }
    const f = this.M.findOwn(obj, m.key);
    if (f) { f.d.v = v; return; }
    this.M.put(obj, m.key, v);
  }
  evalClass(node, sc0) {
    const M = this.M;
    const sc = new Scope(sc0, sc0.fr);
    let parent = null;
    const h = node.heritageClauses?.find((c) => c.token === SK.ExtendsKeyword);
    if (h) parent = M.fold(this.ev(h.types[0].expression, sc));
    if (parent === undefined || isSym(parent)) { if (parent === undefined) throw M.throwError('TypeError', 'Class extends value undefined'); throw new Inconclusive('opaque superclass'); }
    const f = M.obj('Function', parent ?? undefined);
    if (M.cov) M.cov.cls?.(node);
    const proto = M.obj('Object', parent ? this.protoOf(parent) : undefined);
    f.slots.isClass = true; f.slots.node = node; f.slots.scope = sc; f.slots.parent = parent; f.slots.protoObj = proto; f.slots.fields = [];
    f.slots.fname = node.name?.text;
    f.slots.exotic = FN_EXOTIC;
    f.props.set('prototype', { v: proto, e: false, w: false, c: false });
    proto.props.set('constructor', { v: f, e: false, w: true, c: true });
    if (node.name) sc.declare(node.name.text, f, 'const');
    const statics = [];
    for (const m of node.members) {
      if (ts.isConstructorDeclaration(m) || ts.isSemicolonClassElement(m) || ts.isIndexSignatureDeclaration(m)) continue;
      const isStatic = m.modifiers?.some((x) => x.kind === SK.StaticKeyword);
      const isAbstract = m.modifiers?.some((x) => x.kind === SK.AbstractKeyword || x.kind === SK.DeclareKeyword);
      if (isAbstract) continue;
      if (ts.isClassStaticBlockDeclaration(m)) { statics.push({ block: m }); continue; }
      const priv = ts.isPrivateIdentifier(m.name);
      const key = priv ? m.name.text + '@' + node.pos : this.propName(m.name, sc);
      const target = isStatic ? f : proto;
      if (ts.isPropertyDeclaration(m)) {
        if (isStatic) statics.push({ m, key, priv }); else f.slots.fields.push({ node: m, key, priv });
      } else if (ts.isMethodDeclaration(m)) {
        if (!m.body) continue;
        const fn = this.makeFn(m, sc); fn.slots.home = target; fn.slots.method = true; fn.slots.fname = String(key);
        if (priv) (target.priv ??= new Map()).set(key, { v: fn }); else target.props.set(key, { v: fn, e: false, w: true, c: true });
      } else if (ts.isGetAccessor(m) || ts.isSetAccessor(m)) {
        const fn = this.makeFn(m, sc); fn.slots.home = target; fn.slots.method = true;
        const map = priv ? (target.priv ??= new Map()) : target.props;
        const d = map.get(key) ?? { e: false, c: true };
        delete d.v;
        if (ts.isGetAccessor(m)) d.get = fn; else d.set = fn;
        map.set(key, d);
      }
    }
    for (const s of statics) {
      const ssc = new Scope(sc, { thisV: f, fn: f, home: f }); ssc.isFn = true;
      if (s.block) { this.hoist(s.block.body.statements, ssc, ssc); this.execList(s.block.body.statements, ssc); continue; }
      const v = s.m.initializer ? this.ev(s.m.initializer, ssc) : undefined;
      this.defField(f, s, v);
    }
    return f;
  }
  propName(n, sc) {
    if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
    if (ts.isNumericLiteral(n)) return String(Number(n.text));
    if (ts.isComputedPropertyName(n)) return this.M.toKey(this.ev(n.expression, sc));
    if (ts.isPrivateIdentifier(n)) return n.text;
    throw new Inconclusive('property name kind ' + SK[n.kind]);
  }
  // ---------- statements
  execList(stmts, sc) {
    for (const st of stmts) { const c = this.exec(st, sc); if (c) return c; }
    return undefined;
  }
  execBlock(stmts, sc) {
    const s = new Scope(sc);
    this.hoist(stmts, s, fnScopeOf(s));
    return this.execList(stmts, s);
  }
  exec(st, sc) {
    const M = this.M;
    M.tick(st);
    M.site = st;
    switch (st.kind) {
      case SK.ExpressionStatement: this.ev(st.expression, sc); return;
      case SK.VariableStatement: if (st.modifiers?.some((m) => m.kind === SK.DeclareKeyword)) return; this.execDecls(st.declarationList, sc); return;
      case SK.ReturnStatement: return { t: RET, v: st.expression ? this.ev(st.expression, sc) : undefined };
      case SK.IfStatement: {
        const c = this.cond(st.expression, sc);
        if (M.cov) M.cov.branch(st, c);
        if (c) return this.exec(st.thenStatement, sc);
        if (st.elseStatement) return this.exec(st.elseStatement, sc);
        return;
      }
      case SK.Block: return this.execBlock(st.statements, sc);
      case SK.ThrowStatement: { const v = this.ev(st.expression, sc); throw new JsThrow(v, st); }
      case SK.ForOfStatement: return this.forOf(st, sc);
      case SK.ForStatement: {
        const s = new Scope(sc);
        if (st.initializer) { if (ts.isVariableDeclarationList(st.initializer)) { this.hoistDecls(st.initializer, s, fnScopeOf(s)); this.execDecls(st.initializer, s); } else this.ev(st.initializer, s); }
        let n = 0;
        let cur = s;
        for (;;) {
          // fresh per-iteration bindings
          const it = new Scope(sc); for (const [k, c] of cur.vars) it.vars.set(k, c.kind === 'let' || c.kind === 'const' ? new Cell(c.v, c.kind, c.tdz) : c);
          cur = it;
          if (st.condition && !this.cond(st.condition, cur)) break;
          this.loopBound(++n, st);
          const c = this.exec(st.statement, cur);
          if (c) { if (c.t === BRK && this.labelHit(c, st)) break; if (c.t === CONT && this.labelHit(c, st)) { /* next */ } else if (c.t !== CONT || c.label) return c; }
          const nx = new Scope(sc); for (const [k, c2] of cur.vars) nx.vars.set(k, c2.kind === 'let' || c2.kind === 'const' ? new Cell(c2.v, c2.kind, c2.tdz) : c2);
          cur = nx;
          if (st.incrementor) this.ev(st.incrementor, cur);
        }
        return;
      }
      case SK.WhileStatement: {
        let n = 0;
        while (this.cond(st.expression, sc)) {
          this.loopBound(++n, st);
          const c = this.exec(st.statement, sc);
          if (c) { if (c.t === BRK && this.labelHit(c, st)) break; if (c.t === CONT && this.labelHit(c, st)) continue; return c; }
        }
        return;
      }
      case SK.DoStatement: {
        let n = 0;
        do {
          this.loopBound(++n, st);
          const c = this.exec(st.statement, sc);
          if (c) { if (c.t === BRK && this.labelHit(c, st)) break; if (c.t === CONT && this.labelHit(c, st)) continue; return c; }
        } while (this.cond(st.expression, sc));
        return;
      }
      case SK.ForInStatement: {
        const o = M.fold(this.ev(st.expression, sc));
        if (isPrim(o)) return;
        if (isSym(o)) throw new Inconclusive('for-in over an opaque object');
        const keys = []; for (let p = o; p; p = p.proto) keys.push(...M.ownKeys(p));
        return this.loopItems(st, keys, sc);
      }
      case SK.BreakStatement: return { t: BRK, label: st.label?.text };
      case SK.ContinueStatement: return { t: CONT, label: st.label?.text };
      case SK.LabeledStatement: {
        st.statement.__label = st.label.text;
        const c = this.exec(st.statement, sc);
        if (c && c.t === BRK && c.label === st.label.text) return;
        return c;
      }
      case SK.SwitchStatement: return this.execSwitch(st, sc);
      case SK.TryStatement: return this.execTry(st, sc);
      case SK.FunctionDeclaration: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.EmptyStatement:
      case SK.ImportDeclaration: case SK.ExportDeclaration: case SK.ModuleDeclaration: return;
      case SK.ClassDeclaration: {
        if (st.modifiers?.some((m) => m.kind === SK.DeclareKeyword)) return;
        const f = this.evalClass(st, sc);
        const c = sc.find(st.name ? st.name.text : '*default*'); c.v = f; c.tdz = false;
        return;
      }
      case SK.EnumDeclaration: {
        const o = M.obj('Object'); let next = 0;
        const c = sc.find(st.name.text); c.v = o; c.tdz = false;
        const es = new Scope(sc);
        for (const m of st.members) {
          let v = m.initializer ? this.ev(m.initializer, es) : next;
          if (typeof v === 'number') next = v + 1;
          M.put(o, this.propName(m.name, sc), v); es.declare(m.name.text, v, 'const');
          if (typeof v === 'number') M.put(o, String(v), m.name.text);
        }
        return;
      }
      case SK.ExportAssignment: {
        const m = this.modules.get(st.getSourceFile().fileName);
        if (!ts.isIdentifier(st.expression) || !sc.vars.get(st.expression.text)) { const v = this.ev(st.expression, sc); const c = m.exports.get('default'); c.v = v; c.tdz = false; }
        return;
      }
      case SK.DebuggerStatement: return;
      default: throw new Inconclusive('statement ' + SK[st.kind]);
    }
  }
  labelHit(c, st) { return !c.label || c.label === st.__label; }
  loopBound(n, st) { if (n > 160) { this.M.bounded++; throw new Inconclusive('loop bound at ' + loc(st)); } }
  execDecls(list, sc) {
    const kind = (list.flags & ts.NodeFlags.Const) ? 'const' : (list.flags & ts.NodeFlags.Let) ? 'let' : 'var';
    for (const d of list.declarations) {
      if (kind === 'var') {
        if (!d.initializer) continue;
        this.assignPattern(d.name, this.evNamed(d.initializer, sc, d.name.text), sc); continue;
      }
      const v = d.initializer ? this.evNamed(d.initializer, sc, d.name.text) : undefined;
      this.bindPattern(d.name, v, sc, kind, true);
    }
  }
  evNamed(init, sc, name) { const v = this.ev(init, sc); const d = deref(v); if (isObj(d) && d.cls === 'Function' && d.slots.node && !d.slots.fname && typeof name === 'string') d.slots.fname = name; return v; }
  forOf(st, sc) {
    const v = this.M.fold(this.ev(st.expression, sc));
    const M = this.M;
    const it = this.iter(v);
    let n = 0;
    for (;;) {
      const x = it();
      if (x === NOPE) return;
      this.loopBound(++n, st);
      let val = x;
      if (st.awaitModifier) val = M.builtins.awaitValue(M, val);
      const s = new Scope(sc);
      if (ts.isVariableDeclarationList(st.initializer)) { this.hoistDecls(st.initializer, s, fnScopeOf(s)); this.bindPattern(st.initializer.declarations[0].name, val, s, 'const', true); if (!(st.initializer.flags & ts.NodeFlags.BlockScoped)) this.assignPattern(st.initializer.declarations[0].name, val, s); } else this.assignTo(st.initializer, val, s);
      const c = this.exec(st.statement, s);
      if (c) { if (c.t === BRK && this.labelHit(c, st)) return; if (c.t === CONT && this.labelHit(c, st)) continue; return c; }
    }
  }
  loopItems(st, items, sc) {
    for (const x of items) {
      const s = new Scope(sc);
      if (ts.isVariableDeclarationList(st.initializer)) { this.hoistDecls(st.initializer, s, fnScopeOf(s)); this.bindPattern(st.initializer.declarations[0].name, x, s, 'const', true); } else this.assignTo(st.initializer, x, s);
      const c = this.exec(st.statement, s);
      if (c) { if (c.t === BRK && this.labelHit(c, st)) return; if (c.t === CONT && this.labelHit(c, st)) continue; return c; }
    }
  }
  /** iterator over an abstract iterable: returns a thunk yielding values, NOPE at the end (live for Set/Map/Array) */
  iter(v) {
    const M = this.M;
    v = M.fold(v);
    if (typeof v === 'string') { const cs = [...v]; let i = 0; return () => (i < cs.length ? cs[i++] : NOPE); }
    if (isObj(v)) {
      if (v.slots.iterNext) return v.slots.iterNext;
      if (v.cls === 'Array') { let i = 0; return () => (i < v.slots.items.length ? v.slots.items[i++] : NOPE); }
      if (v.cls === 'Set') { let i = 0; return () => { const es = v.slots.entries; while (i < es.length && es[i].dead) i++; return i < es.length ? es[i++].k : NOPE; }; }
      if (v.cls === 'Map') { let i = 0; return () => { const es = v.slots.entries; while (i < es.length && es[i].dead) i++; if (i >= es.length) return NOPE; const e = es[i++]; return M.arr([e.k, e.v]); }; }
      const ex = v.slots.exotic?.iter; if (ex) return ex(M, v);
      const f = M.get(v, Symbol.iterator);
      if (isObj(f)) {
        const it = M.call(f, v, []);
        if (isObj(it) && it.slots.iterNext) return it.slots.iterNext;
        const nx = M.get(it, 'next');
        return () => { const r = M.call(nx, it, []); return M.truthy(M.get(r, 'done')) ? NOPE : M.get(r, 'value'); };
      }
      throw M.throwError('TypeError', 'object is not iterable');
    }
    if (isSym(v)) throw new Inconclusive('iteration over an opaque collection');
    throw M.throwError('TypeError', `${show(v)} is not iterable`);
  }
  iterateAll(v) { const it = this.iter(v); const out = []; for (;;) { const x = it(); if (x === NOPE) return out; out.push(x); if (out.length > 500) throw new Inconclusive('iteration bound'); } }
  execSwitch(st, sc) {
    const M = this.M;
    const d = this.ev(st.expression, sc);
    const s = new Scope(sc);
    for (const cl of st.caseBlock.clauses) this.hoist(cl.statements, s, fnScopeOf(s));
    let start = -1;
    const cls = st.caseBlock.clauses;
    for (let i = 0; i < cls.length; i++) {
      if (!ts.isCaseClause(cls[i])) continue;
      const cv = this.ev(cls[i].expression, s);
      M.site = cls[i];
      if (this.strictEq(d, cv)) { start = i; break; }
    }
    if (start < 0) start = cls.findIndex((c) => ts.isDefaultClause(c));
    if (start < 0) return;
    for (let i = start; i < cls.length; i++) {
      const c = this.execList(cls[i].statements, s);
      if (c) { if (c.t === BRK && this.labelHit(c, st)) return; return c; }
    }
  }
  execTry(st, sc) {
    let c;
    const M = this.M;
    try {
      try { c = this.execBlock(st.tryBlock.statements, sc); } catch (e) {
        if (!(e instanceof JsThrow) || !st.catchClause) throw e;
        const s = new Scope(sc);
        if (st.catchClause.variableDeclaration) { for (const n of bindingNames(st.catchClause.variableDeclaration.name)) s.declare(n, undefined, 'let', true); this.bindPattern(st.catchClause.variableDeclaration.name, e.value, s, 'let', true); }
        c = this.execBlock(st.catchClause.block.statements, s);
      }
    } catch (e) {
      if (e instanceof JsThrow && st.finallyBlock) { const fc = this.execBlock(st.finallyBlock.statements, sc); if (fc) return fc; }
      throw e;
    }
    if (st.finallyBlock) { const fc = this.execBlock(st.finallyBlock.statements, sc); if (fc) return fc; }
    return c;
  }
  cond(node, sc) {
    // evaluate a condition with proper short-circuit refinement
    const n = unwrap(node);
    const M = this.M;
    if (n.kind === SK.BinaryExpression) {
      const op = n.operatorToken.kind;
      if (op === SK.AmpersandAmpersandToken) return this.cond(n.left, sc) && this.cond(n.right, sc);
      if (op === SK.BarBarToken) return this.cond(n.left, sc) || this.cond(n.right, sc);
    }
    if (n.kind === SK.PrefixUnaryExpression && n.operator === SK.ExclamationToken) return !this.cond(n.operand, sc);
    const v = this.ev(n, sc);
    M.site = n;
    return M.truthy(v, text(n).slice(0, 80));
  }
  strictEq(a, b) { return this.M.eq(a, b); }
  // ---------- expressions
  lookup(name, sc, node) {
    for (let s = sc; s; s = s.parent) {
      const c = s.vars.get(name);
      if (c) {
        if (c instanceof ImportRef) { const r = this.exportOf(c.mod, c.name); if (r === NOPE) throw new Inconclusive('unresolved import ' + name); return r; }
        if (c.tdz) throw this.M.throwError('ReferenceError', `Cannot access '${name}' before initialization`);
        return c.v;
      }
    }
    if (name === 'arguments' && sc.fr?.args) return (sc.fr.argsObj ??= this.M.arr([...sc.fr.args]));
    const g = this.globalLookup(name);
    if (g !== NOPE) return g;
    throw this.M.throwError('ReferenceError', `${name} is not defined`);
  }
  globalLookup(name) {
    if (name === 'undefined') return undefined;
    if (name === 'NaN') return NaN;
    if (name === 'Infinity') return Infinity;
    const M = this.M;
    if (name === 'globalThis') return M.globalObj;
    const f = M.globalObj.props.get(name);
    if (f) return 'v' in f ? f.v : M.call(f.get, M.globalObj, []);
    const b = M.builtins.global(M, name);
    if (b === NOPE) this.unmodelledGlobal(name);
    return b;
  }
  unmodelledGlobal(name) {
    if (NODE_GLOBALS.has(name)) throw new Inconclusive('unmodelled global ' + name);
    if (this.M.domInstalled && DOM_NAMES.globals.has(name)) throw new Inconclusive('unmodelled DOM global ' + name);
  }
  ev(node, sc) {
    const M = this.M;
    M.tick(node);
    switch (node.kind) {
      case SK.Identifier: M.site = node; return this.lookup(node.text, sc, node);
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return node.text;
      case SK.NumericLiteral: return Number(node.text.replace(/_/g, ''));
      case SK.BigIntLiteral: return BigInt(node.text.slice(0, -1));
      case SK.TrueKeyword: return true;
      case SK.FalseKeyword: return false;
      case SK.NullKeyword: return null;
      case SK.ParenthesizedExpression: case SK.AsExpression: case SK.NonNullExpression: case SK.SatisfiesExpression: case SK.TypeAssertionExpression: return this.ev(node.expression, sc);
      case SK.ExpressionWithTypeArguments: return this.ev(node.expression, sc);
      case SK.ThisKeyword: { const fr = sc.fr; if (!fr) return undefined; if (fr.thisV === NOPE) throw M.throwError('ReferenceError', 'this before super()'); return fr.thisV; }
      case SK.PropertyAccessExpression: case SK.ElementAccessExpression: case SK.CallExpression: { const r = this.chain(node, sc); return r === NOPE ? undefined : r; }
      case SK.NewExpression: {
        const f = this.ev(node.expression, sc);
        const args = this.evArgs(node.arguments ?? [], sc);
        M.site = node;
        return M.construct(f, args, f, node);
      }
      case SK.ArrowFunction: return this.makeFn(node, sc);
      case SK.FunctionExpression: { const f = this.makeFn(node, sc); if (node.name) f.slots.fname = node.name.text; return f; }
      case SK.ClassExpression: return this.evalClass(node, sc);
      case SK.ObjectLiteralExpression: return this.objLit(node, sc);
      case SK.ArrayLiteralExpression: {
        const items = [];
        for (const e of node.elements) {
          if (ts.isSpreadElement(e)) items.push(...this.spreadItems(this.ev(e.expression, sc)));
          else if (ts.isOmittedExpression(e)) items.push(undefined);
          else items.push(this.ev(e, sc));
        }
        return M.arr(items);
      }
      case SK.TemplateExpression: {
        const ps = [node.head.text];
        for (const s of node.templateSpans) { const v = this.ev(s.expression, sc); M.site = s.expression; ps.push(M.toStr(v), s.literal.text); }
        return M.term('cat', ps);
      }
      case SK.TaggedTemplateExpression: {
        const tag = unwrap(node.tag); let f, thisV;
        if (ts.isPropertyAccessExpression(tag) || ts.isElementAccessExpression(tag)) { const r = this.memberRef(tag, sc); if (r === NOPE) throw new Inconclusive('optional tag'); f = r.v(); thisV = r.o; } else f = this.ev(tag, sc);
        const lits = ts.isNoSubstitutionTemplateLiteral(node.template) ? [node.template] : [node.template.head, ...node.template.templateSpans.map((s) => s.literal)];
        let strings = (M.templates ??= new Map()).get(node);
        if (!strings) { strings = M.arr(lits.map((l) => l.text)); M.put(strings, 'raw', M.builtins.freeze(M, M.arr(lits.map((l) => l.rawText ?? l.text))), false); M.builtins.freeze(M, strings); M.templates.set(node, strings); }
        const vals = ts.isNoSubstitutionTemplateLiteral(node.template) ? [] : node.template.templateSpans.map((s) => this.ev(s.expression, sc));
        M.site = node;
        return M.call(f, thisV, [strings, ...vals], node);
      }
      case SK.ConditionalExpression: { const c = this.cond(node.condition, sc); if (M.cov) M.cov.branch(node, c); return this.ev(c ? node.whenTrue : node.whenFalse, sc); }
      case SK.BinaryExpression: return this.binary(node, sc);
      case SK.PrefixUnaryExpression: return this.prefix(node, sc);
      case SK.PostfixUnaryExpression: {
        const old = M.fold(this.ev(node.operand, sc));
        const num = typeof old === 'number' ? old : M.term('plus', [old], KS.NUMBER);
        const nv = this.arith(node.operator === SK.PlusPlusToken ? 'add' : 'sub', num, 1);
        this.assignTo(node.operand, nv, sc);
        return num;
      }
      case SK.TypeOfExpression: {
        let v;
        const e = unwrap(node.expression);
        if (ts.isIdentifier(e) && !sc.find(e.text) && this.globalLookup(e.text) === NOPE) return 'undefined';
        v = M.fold(this.ev(node.expression, sc));
        return this.typeOf(v);
      }
      case SK.VoidExpression: this.ev(node.expression, sc); return undefined;
      case SK.DeleteExpression: {
        const e = unwrap(node.expression);
        if (ts.isPropertyAccessExpression(e)) { const o = this.ev(e.expression, sc); if (e.questionDotToken && M.isNullish(o)) return true; M.site = node; return M.del(o, e.name.text); }
        if (ts.isElementAccessExpression(e)) { const o = this.ev(e.expression, sc); const k = this.ev(e.argumentExpression, sc); M.site = node; return M.del(o, k); }
        return true;
      }
      case SK.AwaitExpression: { const v = this.ev(node.expression, sc); M.site = node; return M.builtins.awaitValue(M, v); }
      case SK.YieldExpression: {
        let s = sc; while (s && !s.yields) s = s.parent;
        if (!s) throw new Inconclusive('yield');
        if (node.asteriskToken) s.yields.push(...this.iterateAll(this.ev(node.expression, sc))); else s.yields.push(node.expression ? this.ev(node.expression, sc) : undefined);
        return undefined;
      }
      case SK.RegularExpressionLiteral: { const i = node.text.lastIndexOf('/'); return M.builtins.regexp(M, node.text.slice(1, i), node.text.slice(i + 1)); }
      case SK.MetaProperty: {
        if (node.keywordToken === SK.NewKeyword) return sc.fr?.newTarget;
        return M.importMeta ?? M.sym('import.meta', K.OBJ);
      }
      case SK.SpreadElement: throw new Inconclusive('spread');
      case SK.CommaListExpression: { let v; for (const e of node.elements) v = this.ev(e, sc); return v; }
      case SK.OmittedExpression: return undefined;
      case SK.SuperKeyword: throw new Inconclusive('super');
      default: throw new Inconclusive('expression ' + SK[node.kind]);
    }
  }
  typeOf(v) {
    const M = this.M;
    if (isPrim(v)) return typeof v;
    const t = typeofOf(kindsOf(v));
    if (t) return t;
    return M.term('typeof', [v], K.STR);
  }
  spreadItems(v) {
    return this.iterateAll(v);
  }
  evArgs(nodes, sc) {
    const out = [];
    for (const a of nodes) {
      if (ts.isSpreadElement(a)) out.push(...this.spreadItems(this.ev(a.expression, sc)));
      else out.push(this.ev(a, sc));
    }
    return out;
  }
  /** member access / call chains with optional chaining; returns NOPE when short-circuited */
  chain(node, sc) {
    const M = this.M;
    if (node.kind === SK.CallExpression) {
      const callee = node.expression;
      if (callee.kind === SK.SuperKeyword) return this.superCall(node, sc);
      if (callee.kind === SK.ImportKeyword) return this.dynImport(node, sc);
      let f, thisV;
      const c = unwrapParenOnly(callee);
      if (c.kind === SK.PropertyAccessExpression || c.kind === SK.ElementAccessExpression) {
        const r = this.memberRef(c, sc);
        if (r === NOPE) return isChainEnd(node, c) ? NOPE : NOPE;
        f = r.v(); thisV = r.o;
      } else if (c.kind === SK.CallExpression) { f = this.chain(c, sc); if (f === NOPE) { if (node.flags & ts.NodeFlags.OptionalChain) return NOPE; f = undefined; } thisV = undefined; } else { f = this.ev(c, sc); thisV = undefined; }
      M.site = node;
      if (node.questionDotToken && M.isNullish(f, text(callee).slice(0, 60))) return NOPE;
      const args = this.evArgs(node.arguments, sc);
      M.site = node;
      if (M.cov) M.cov.call(node);
      return M.call(f, thisV, args, node);
    }
    const r = this.memberRef(node, sc);
    if (r === NOPE) return NOPE;
    return r.v();
  }
  memberRef(node, sc) {
    const M = this.M;
    const objNode = node.expression;
    if (objNode.kind === SK.SuperKeyword) {
      const fr = sc.fr; const home = fr.home; const p = home?.proto;
      const key = ts.isPropertyAccessExpression(node) ? node.name.text : M.toKey(this.ev(node.argumentExpression, sc));
      return { o: fr.thisV, key, home, v: () => (p ? M.getObj(p, key, fr.thisV) : undefined) };
    }
    let o;
    const inner = objNode;
    if (inner.kind === SK.PropertyAccessExpression || inner.kind === SK.ElementAccessExpression || inner.kind === SK.CallExpression) {
      o = this.chain(inner, sc);
      if (o === NOPE) return (node.flags & ts.NodeFlags.OptionalChain) ? NOPE : { o: undefined, v: () => { throw M.throwError('TypeError', 'Cannot read properties of undefined'); } };
    } else o = this.ev(inner, sc);
    M.site = node;
    if (node.questionDotToken && M.isNullish(o, text(objNode).slice(0, 60))) return NOPE;
    let key;
    if (node.kind === SK.PropertyAccessExpression) {
      if (ts.isPrivateIdentifier(node.name)) { const name = node.name.text; return { o, v: () => this.privGet(o, name, node) }; }
      key = node.name.text;
    } else key = this.ev(node.argumentExpression, sc);
    return { o, key, v: () => { M.site = node; return M.get(o, key); } };
  }
  privKey(name, node) { for (let n = node; n; n = n.parent) if (ts.isClassLike(n) && n.members.some((m) => m.name && ts.isPrivateIdentifier(m.name) && m.name.text === name)) return name + '@' + n.pos; return name; }
  privFind(o, name, node) { o = this.M.fold(o); const k = this.privKey(name, node); for (let p = o; p; p = p.proto) { const d = p.priv?.get(k); if (d) return d; } return null; }
  privGet(o, name, node) {
    const d = isObj(this.M.fold(o)) ? this.privFind(o, name, node) : null;
    if (!d) throw this.M.throwError('TypeError', `Cannot read private member ${name}`);
    return 'v' in d ? d.v : d.get ? this.M.call(d.get, o, []) : undefined;
  }
  superCall(node, sc) {
    const M = this.M;
    const fr = sc.fr;
    const args = this.evArgs(node.arguments, sc);
    M.site = node;
    const f = fr.cls ?? fr.fn;
    const obj = M.construct(f.slots.parent, args, fr.newTarget, node);
    fr.thisV = obj;
    this.initFields(f, obj);
    if (fr.paramProps) for (const [n, v] of fr.paramProps) M.put(obj, n, v);
    return obj;
  }
  dynImport(node, sc) {
    const M = this.M;
    const spec = M.fold(this.ev(node.arguments[0], sc));
    M.log.push({ t: 'import()', who: show(spec), spec, site: node });
    if (typeof spec !== 'string') return M.builtins.promiseResolved(M, M.sym('module', K.OBJ));
    const from = node.getSourceFile().fileName;
    const mod = this.loadSpec(from, spec, node);
    const p = M.obj('Promise'); p.slots.state = 'ok'; p.slots.value = mod.ext ? mod.ns : this.namespace(mod);
    return M.builtins.pendingWork(M, p, 'import of ' + spec);
  }
  objLit(node, sc) {
    const M = this.M;
    const o = M.obj('Object');
    for (const p of node.properties) {
      switch (p.kind) {
        case SK.PropertyAssignment: { const k = this.propName(p.name, sc); if (k === '__proto__' && !ts.isComputedPropertyName(p.name)) { const v = deref(this.ev(p.initializer, sc)); if (isObj(v) || v === null) o.proto = v; break; } const v = this.evNamed(p.initializer, sc, k); this.defOwn(o, k, v); break; }
        case SK.ShorthandPropertyAssignment: this.defOwn(o, p.name.text, this.lookup(p.name.text, sc, p)); break;
        case SK.SpreadAssignment: M.site = p; this.copyProps(o, this.ev(p.expression, sc)); break;
        case SK.MethodDeclaration: { const k = this.propName(p.name, sc); const f = this.makeFn(p, sc); f.slots.home = o; f.slots.method = true; f.slots.fname = String(k); this.defOwn(o, k, f); break; }
        case SK.GetAccessor: case SK.SetAccessor: {
          const k = this.propName(p.name, sc); const f = this.makeFn(p, sc); f.slots.home = o; f.slots.method = true;
          const d = o.props.get(k) ?? { e: true, c: true }; delete d.v;
          if (p.kind === SK.GetAccessor) d.get = f; else d.set = f;
          o.props.set(k, d); break;
        }
        default: throw new Inconclusive('object literal member');
      }
    }
    return o;
  }
  prefix(node, sc) {
    const M = this.M;
    switch (node.operator) {
      case SK.ExclamationToken: {
        const v = M.fold(this.ev(node.operand, sc));
        if (isPrim(v)) return !v;
        if (isObj(v)) return false;
        const f = v.kinds & KS.FALSY, t = v.kinds & KS.TRUTHY;
        if (!f) return false; if (!t) return true;
        return M.term('not', [v], KS.BOOL);
      }
      case SK.MinusToken: return this.arith1('neg', this.ev(node.operand, sc));
      case SK.PlusToken: return this.arith1('plus', this.ev(node.operand, sc));
      case SK.TildeToken: return this.arith1('bitnot', this.ev(node.operand, sc));
      case SK.PlusPlusToken: case SK.MinusMinusToken: {
        const nv = this.arith(node.operator === SK.PlusPlusToken ? 'add' : 'sub', this.ev(node.operand, sc), 1);
        this.assignTo(node.operand, nv, sc); return nv;
      }
    }
    throw new Inconclusive('prefix operator');
  }
  arith1(op, v) { v = this.M.fold(v); if (isPrim(v) && typeof v !== 'symbol') return this.M.term(op, [v]); return this.M.term(op, [v], KS.NUMBER); }
  arith(op, a, b) {
    const M = this.M;
    a = M.fold(a); b = M.fold(b);
    if (op === 'add') {
      const ka = kindsOf(a), kb = kindsOf(b);
      const strish = (v, k) => (k & ~KS.STRING) === 0;
      if (strish(a, ka) || strish(b, kb)) return M.term('cat', [M.toStr(a), M.toStr(b)]);
      if (isObj(a) || isObj(b)) return M.term('cat', [M.toStr(a), M.toStr(b)]);
      if (isPrim(a) && isPrim(b)) return a + b;
      const maybeStr = (ka | kb) & (KS.STRING | KS.OBJECT);
      return M.term('add', [a, b], maybeStr ? KS.NUMBER | KS.STRING : KS.NUMBER);
    }
    if (isPrim(a) && isPrim(b)) return M.term(op, [a, b]);
    return M.term(op, [a, b], KS.NUMBER);
  }
  binary(node, sc) {
    const M = this.M;
    const op = node.operatorToken.kind;
    switch (op) {
      case SK.CommaToken: this.ev(node.left, sc); return this.ev(node.right, sc);
      case SK.AmpersandAmpersandToken: {
        const l = this.ev(node.left, sc);
        M.site = node.left;
        return M.truthy(l, text(node.left).slice(0, 80)) ? this.ev(node.right, sc) : l;
      }
      case SK.BarBarToken: {
        const l = this.ev(node.left, sc);
        M.site = node.left;
        return M.truthy(l, text(node.left).slice(0, 80)) ? l : this.ev(node.right, sc);
      }
      case SK.QuestionQuestionToken: { const l = this.ev(node.left, sc); M.site = node.left; return M.isNullish(l, text(node.left).slice(0, 80)) ? this.ev(node.right, sc) : l; }
      case SK.EqualsToken: {
        const v = ts.isIdentifier(unwrap(node.left)) ? this.evNamed(node.right, sc, unwrap(node.left).text) : null;
        if (ts.isIdentifier(unwrap(node.left))) { this.assignTo(node.left, v, sc); return v; }
        const left = unwrap(node.left);
        if (ts.isPropertyAccessExpression(left) || ts.isElementAccessExpression(left)) {
          const ref = this.memberRef(left, sc);
          const rv = this.ev(node.right, sc);
          M.site = node;
          this.setRef(left, ref, rv);
          return rv;
        }
        const rv = this.ev(node.right, sc);
        this.assignTo(node.left, rv, sc);
        return rv;
      }
      case SK.QuestionQuestionEqualsToken: case SK.BarBarEqualsToken: case SK.AmpersandAmpersandEqualsToken: {
        const l = this.ev(node.left, sc);
        M.site = node;
        const doIt = op === SK.QuestionQuestionEqualsToken ? M.isNullish(l) : op === SK.BarBarEqualsToken ? !M.truthy(l) : M.truthy(l);
        if (!doIt) return l;
        const v = this.evNamed(node.right, sc, unwrap(node.left).text);
        this.assignTo(node.left, v, sc);
        return v;
      }
      case SK.PlusEqualsToken: case SK.MinusEqualsToken: case SK.AsteriskEqualsToken: case SK.SlashEqualsToken: case SK.BarEqualsToken: case SK.AmpersandEqualsToken: case SK.PercentEqualsToken: case SK.CaretEqualsToken: {
        const l = this.ev(node.left, sc); const r = this.ev(node.right, sc);
        const nm = { [SK.PlusEqualsToken]: 'add', [SK.MinusEqualsToken]: 'sub', [SK.AsteriskEqualsToken]: 'mul', [SK.SlashEqualsToken]: 'div', [SK.BarEqualsToken]: 'bitor', [SK.AmpersandEqualsToken]: 'bitand', [SK.PercentEqualsToken]: 'mod', [SK.CaretEqualsToken]: 'bitxor' }[op];
        const v = this.arith(nm, l, r);
        this.assignTo(node.left, v, sc);
        return v;
      }
      case SK.InKeyword: {
        if (ts.isPrivateIdentifier(node.left)) return Boolean(this.privFind(this.ev(node.right, sc), node.left.text, node));
        const k = this.ev(node.left, sc); const o = this.ev(node.right, sc); M.site = node; return M.has(o, k);
      }
      case SK.InstanceOfKeyword: { const v = this.ev(node.left, sc); const c = this.ev(node.right, sc); M.site = node; return this.instanceOf(v, c); }
    }
    const a = M.fold(this.ev(node.left, sc));
    const b = M.fold(this.ev(node.right, sc));
    M.site = node;
    switch (op) {
      case SK.EqualsEqualsEqualsToken: return this.eqValue(a, b, node);
      case SK.ExclamationEqualsEqualsToken: { const r = this.eqValue(a, b, node); return !r; }
      case SK.EqualsEqualsToken: return this.looseEq(a, b, node);
      case SK.ExclamationEqualsToken: return !this.looseEq(a, b, node);
      case SK.PlusToken: return this.arith('add', a, b);
      case SK.MinusToken: return this.arith('sub', a, b);
      case SK.AsteriskToken: return this.arith('mul', a, b);
      case SK.SlashToken: return this.arith('div', a, b);
      case SK.PercentToken: return this.arith('mod', a, b);
      case SK.AsteriskAsteriskToken: return this.arith('pow', a, b);
      case SK.LessThanToken: return this.compare('lt', a, b);
      case SK.GreaterThanToken: return this.compare('lt', b, a);
      case SK.LessThanEqualsToken: return this.compare('le', a, b);
      case SK.GreaterThanEqualsToken: return this.compare('le', b, a);
      case SK.BarToken: return this.arith('bitor', a, b);
      case SK.AmpersandToken: return this.arith('bitand', a, b);
      case SK.CaretToken: return this.arith('bitxor', a, b);
      case SK.LessThanLessThanToken: return this.arith('shl', a, b);
      case SK.GreaterThanGreaterThanToken: return this.arith('shr', a, b);
      case SK.GreaterThanGreaterThanGreaterThanToken: return this.arith('ushr', a, b);
    }
    throw new Inconclusive('operator ' + SK[op]);
  }
  compare(op, a, b) { return this.M.term(op, [a, b], KS.BOOL); }
  eqValue(a, b, node) {
    const M = this.M;
    if (Number.isNaN(a) || Number.isNaN(b)) return false;
    return M.eq(a, b, text(node).slice(0, 80).replace(/!==/, '==='));
  }
  looseEq(a, b, node) {
    const M = this.M;
    if (isPrim(a) && isPrim(b)) return a == b;
    if (b === null || b === undefined) return M.isNullish(a, text(node.left).slice(0, 60));
    if (a === null || a === undefined) return M.isNullish(b, text(node.right).slice(0, 60));
    if (isObj(a) && isPrim(b) || isPrim(a) && isObj(b)) { const o = isObj(a) ? a : b, q = isObj(a) ? b : a; const s = M.fold(M.toStr(o)); if (isPrim(s) && !isObj(M.fold(M.get(o, Symbol.toPrimitive)))) return s == q; }
    return M.eq(a, b);
  }
  instanceOf(v, c) {
    const M = this.M;
    v = M.fold(v); c = M.fold(c);
    if (isObj(c) && c.cls === 'Function' && c.slots.node) { const h = M.fold(M.get(c, Symbol.hasInstance)); if (isObj(h) && h !== M.fold(M.get(M.builtins.functionProto, Symbol.hasInstance))) return M.truthy(M.call(h, c, [v])); }
    if (isPrim(v)) return false;
    if (isObj(c) && c.slots.instanceTest) { const r = c.slots.instanceTest(M, v); if (r !== NOPE) return r; }
    if (isSym(v)) {
      if (!(v.kinds & KS.OBJECT)) return false;
      if (v.flags?.instanceOf) { const r = v.flags.instanceOf(M, c); if (r !== undefined) return r; }
      const t = M.term('instanceof', [v, c], KS.BOOL);
      return t;
    }
    if (isSym(c)) return M.term('instanceof', [v, c], KS.BOOL);
    const p = M.get(c, 'prototype');
    for (let q = v.proto; q; q = q.proto) if (q === p) return true;
    return false;
  }
  // ---------- assignment
  assignTo(target, v, sc) {
    const M = this.M;
    const t = unwrap(target);
    if (ts.isIdentifier(t)) return this.assignVar(t.text, v, sc, t);
    if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) {
      const ref = this.memberRef(t, sc); M.site = t; return this.setRef(t, ref, v);
    }
    if (ts.isArrayLiteralExpression(t)) {
      const items = this.iterateAll(v);
      t.elements.forEach((e, i) => {
        if (ts.isOmittedExpression(e)) return;
        if (ts.isSpreadElement(e)) return this.assignTo(e.expression, M.arr(items.slice(i)), sc);
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.EqualsToken) return this.assignTo(e.left, this.isUndef(items[i], e) ? this.ev(e.right, sc) : items[i], sc);
        this.assignTo(e, items[i], sc);
      });
      return;
    }
    if (ts.isObjectLiteralExpression(t)) {
      const used = [];
      for (const p of t.properties) {
        if (ts.isShorthandPropertyAssignment(p)) { used.push(p.name.text); let x = M.get(v, p.name.text); if (p.objectAssignmentInitializer && this.isUndef(x, p)) x = this.ev(p.objectAssignmentInitializer, sc); this.assignVar(p.name.text, x, sc, p); } 
        else if (ts.isPropertyAssignment(p)) { const k = this.propName(p.name, sc); used.push(k); let x = M.get(v, k); let tgt = p.initializer; if (ts.isBinaryExpression(tgt) && tgt.operatorToken.kind === SK.EqualsToken) { if (this.isUndef(x, tgt)) x = this.ev(tgt.right, sc); tgt = tgt.left; } this.assignTo(tgt, x, sc); }
        else if (ts.isSpreadAssignment(p)) this.assignTo(p.expression, this.restObj(v, used), sc);
      }
      return;
    }
    throw new Inconclusive('assignment target ' + SK[t.kind]);
  }
  assignPattern(name, v, sc) {
    if (ts.isIdentifier(name)) return this.assignVar(name.text, v, sc, name);
    const tmp = new Scope(sc);
    this.bindPattern(name, v, tmp, 'let', true);
    for (const [k, c] of tmp.vars) this.assignVar(k, c.v, sc, name);
  }
  assignVar(name, v, sc, node) {
    const M = this.M;
    for (let s = sc; s; s = s.parent) {
      const c = s.vars.get(name);
      if (c) {
        if (c instanceof ImportRef || c.kind === 'const') throw M.throwError('TypeError', `Assignment to constant variable '${name}'`);
        if (c.tdz) throw M.throwError('ReferenceError', `Cannot access '${name}' before initialization`);
        c.v = v;
        return;
      }
    }
    M.put(M.globalObj, name, v);
  }
  setRef(node, ref, v) {
    const M = this.M;
    if (ref === NOPE) return;
    if (node.kind === SK.PropertyAccessExpression && ts.isPrivateIdentifier(node.name)) {
      const d = this.privFind(ref.o, node.name.text, node);
      if (!d) throw M.throwError('TypeError', 'private member');
      if ('v' in d) d.v = v; else if (d.set) M.call(d.set, ref.o, [v]);
      return;
    }
    if (node.expression.kind === SK.SuperKeyword) {
      const key = ref.key;
      for (let p = ref.home?.proto; p; p = p.proto) { const f = M.findOwn(p, key); if (f) { if ('v' in f.d) break; if (f.d.set) { M.call(f.d.set, ref.o, [v]); return; } throw M.throwError('TypeError', 'super property has only a getter'); } }
      const own = M.findOwn(M.fold(ref.o), key);
      if (own && 'v' in own.d) M.set(ref.o, key, v); else M.builtins.defineProp(M, ref.o, key, { v, e: true, w: true, c: true });
      return;
    }
    M.set(ref.o, ref.key, v);
  }
}
export class AnchorMissing extends Error { constructor(a) { super('anchor missing: ' + a); this.anchor = a; } }

const FN_EXOTIC = {
  get(M, o, key) {
    if (key === 'prototype' && o.slots.lazyProto && !o.props.has('prototype')) {
      const p = M.obj('Object'); p.props.set('constructor', { v: o, e: false, w: true, c: true });
      o.props.set('prototype', { v: p, e: false, w: true, c: false });
      return p;
    }
    if (key === 'length' && !o.props.has('length') && o.slots.node) { let n = 0; const ps = o.slots.isClass ? [] : o.slots.node.parameters; for (const p of ps) { if (p.initializer || p.dotDotDotToken) break; if (!(ts.isIdentifier(p.name) && p.name.text === 'this')) n++; } return n; }
    if (key === 'name' && !o.props.has('name')) return o.slots.fname ?? '';
    return NOPE;
  },
};
function isChainEnd() { return true; }
function fnScopeOf(s) { // nearest function scope: the one whose parent has a different frame, approximated by walking to the scope created by invoke()
  let p = s;
  while (p.parent && !p.isFn) p = p.parent;
  return p;
}
export function unwrap(n) {
  while (n.kind === SK.ParenthesizedExpression || n.kind === SK.AsExpression || n.kind === SK.NonNullExpression || n.kind === SK.SatisfiesExpression || n.kind === SK.TypeAssertionExpression) n = n.expression;
  return n;
}
function unwrapParenOnly(n) { return unwrap(n); }
function bindingNames(n) {
  if (ts.isIdentifier(n)) return [n.text];
  const out = [];
  for (const e of n.elements) if (!ts.isOmittedExpression(e)) out.push(...bindingNames(e.name));
  return out;
}

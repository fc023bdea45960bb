// C23-C24: entry points without a DOM, and what they import.
import fs from 'node:fs';
import path from 'node:path';
import { K, KS, deref, isSym, isObj, isPrim, show } from '../engine/values.mjs';
import { ts, REPO, parse, resolveModule, valueUses, AnchorMissing, loc } from '../engine/interp.mjs';
import { attempt } from '../engine/world.mjs';
import { world } from './config.mjs';
import { nodeWorld } from './plugins.mjs';
import { fakeAdapter, fakeStrategy } from './element.mjs';
import { SHAPES } from './adapters.mjs';

const FALLBACK = { index: 'src/index.ts', xstate: 'src/xstate.ts', redux: 'src/redux.ts', mobx: 'src/mobx.ts', 'renderers/ignite-jsx': 'src/renderers/ignite-jsx.ts', 'renderers/lit': 'src/renderers/lit.ts', 'config/loadIgniteConfig': 'src/config/loadIgniteConfig.ts', 'config/webpack': 'src/config/webpack.ts', 'config/vite': 'src/config/vite.ts', 'jsx/index': 'src/jsx/index.ts', 'jsx/jsx-runtime': 'src/jsx/jsx-runtime.ts', 'jsx/jsx-dev-runtime': 'src/jsx/jsx-dev-runtime.ts' };
/** the library entries of the build, read from the syntax of vite.config.ts */
export function buildEntries() {
  const f = path.join(REPO, 'vite.config.ts');
  if (!fs.existsSync(f)) return { entries: FALLBACK, read: false };
  let out = null;
  const visit = (n) => { if (ts.isPropertyAssignment(n) && n.name.getText() === 'entry' && ts.isObjectLiteralExpression(n.initializer)) { out = {}; for (const p of n.initializer.properties) if (ts.isPropertyAssignment(p) && ts.isStringLiteralLike(p.initializer)) out[p.name.text ?? p.name.getText()] = p.initializer.text; } ts.forEachChild(n, visit); };
  visit(parse(f).sf);
  return out && Object.keys(out).length ? { entries: out, read: true } : { entries: FALLBACK, read: false };
}

// ---------------------------------------------------------------- C23
const GLOBALS = ['HTMLElement', 'customElements'];
const existing = (M) => GLOBALS.map((g) => { const d = M.globalObj.props.get(g); return d && d.v !== undefined ? d.v : undefined; });
export function importClient(M, entries) {
  const W = nodeWorld(M, { dom: false }); const I = W.interp;
  const P = (r, ok, msg) => M.check(r, ok, msg);
  // what the runtime already provides
  const have = GLOBALS.map((g) => M.choose(2, `${g}: missing / provided by someone else`) === 1);
  const given = [];
  if (have[0]) { const c = M.native('HTMLElement of someone else', () => undefined); given.push(['HTMLElement', c]); }
  if (have[1]) { const r = M.obj('Object', M.builtins.objectProto, 'registry of someone else'); const defs = []; M.put(r, 'define', M.native('define', (M2, t, [n, c]) => { defs.push(n); })); M.put(r, 'get', M.native('get', () => undefined)); given.push(['customElements', r]); }
  for (const [g, v] of given) M.put(M.globalObj, g, v, false);
  const names = Object.keys(entries);
  const first = names[M.choose(names.length, 'import ' + names.join(' / '))];
  const second = M.choose(2, 'then: nothing / all other entry points') === 1;
  for (const n of second ? [first, ...names.filter((x) => x !== first)] : [first]) {
    const r = attempt(M, () => I.load(entries[n]));
    P('import-does-not-throw', r.ok, () => `importing ${n} (${entries[n]}) without a DOM throws ${show(r.error)}${r.site ? ' at ' + loc(r.site) : ''}`);
    if (!r.ok) return;
    for (const [g, v] of given) P('existing-globals-kept', M.fold(M.get(M.globalObj, g)) === v, `importing ${n} replaces the existing global ${g}`);
  }
}
/** defining components on a server */
export function defineOnServer(M, lib, shape) {
  const W = world(M, { dom: false, env: { NODE_ENV: [undefined, 'production', 'development'][M.choose(3, 'NODE_ENV: unset / production / development')] } });
  const P = (r, ok, msg) => M.check(r, ok, msg);
  const I = W.interp;
  // someone else may provide one of the two globals
  const part = M.choose(3, 'browser globals: none / HTMLElement only / customElements only');
  if (part === 1) M.put(M.globalObj, 'HTMLElement', M.native('HTMLElement of someone else', () => undefined), false);
  if (part === 2) M.put(M.globalObj, 'customElements', M.plain({ define: M.native('define', () => undefined), get: M.native('get', () => undefined) }), false);
  let comp;
  const r = attempt(M, () => {
    if (lib === 'index') { const m = I.load('src/index.ts'); comp = M.call(I.exported(m, 'igniteElementFactory'), undefined, [M.native('createAdapter', () => fakeAdapter(W).obj), M.plain({ scope: ['isolated', 'shared'][M.choose(2, 'scope')] })]); } else {
      const m = I.load(`src/${lib}.ts`);
      const o = M.plain({ source: shape.make(W) });
      if (M.choose(2, 'facade options: none / all')) { M.put(o, 'states', M.native('states', () => M.plain({ a: 1 }))); M.put(o, 'commands', M.native('commands', () => M.plain({ run: M.native('run', () => undefined) }))); M.put(o, 'events', M.native('events', (M2, t, [e]) => M.plain({ saved: M.call(e, undefined, []) }))); }
      comp = M.call(I.exported(m, 'igniteCore'), undefined, [o]);
    }
    for (const n of ['x-a', 'x-b']) M.call(comp, undefined, [n, M.native('renderer', () => null)]);
  });
  P('define-does-not-throw', r.ok, () => `defining a component without a DOM throws ${show(r.error)}${r.site ? ' at ' + loc(r.site) : ''}`);
}
function browserKept(M, entries) {
  const W = nodeWorld(M, { dom: true }); const I = W.interp;
  const before = existing(M);
  const names = Object.keys(entries);
  const n = names[M.choose(names.length, 'import ' + names.join(' / '))];
  const r = attempt(M, () => I.load(entries[n]));
  M.check('import-does-not-throw', r.ok, () => `importing ${n} in a browser throws ${show(r.error)}`);
  const after = existing(M);
  GLOBALS.forEach((g, i) => M.check('existing-globals-kept', before[i] === undefined || after[i] === before[i], `importing ${n} in a browser replaces ${g}`));
}

// ---------------------------------------------------------------- C24
const verbatim = () => { try { const f = path.join(REPO, 'tsconfig.json'); const c = ts.readConfigFile(f, (p) => fs.readFileSync(p, 'utf8')).config; return Boolean(c?.compilerOptions?.verbatimModuleSyntax || c?.compilerOptions?.preserveValueImports); } catch { return false; } };
/** run-time edges of one module: [specifier, node, dynamic] */
export function edgesOf(file, keepAll) {
  const { sf } = parse(file); const uses = valueUses(sf); const out = [];
  for (const st of sf.statements) {
    if (ts.isImportDeclaration(st)) {
      const ic = st.importClause;
      if (!ic) { out.push([st.moduleSpecifier.text, st, false]); continue; }
      if (ic.isTypeOnly) continue;
      const nb = ic.namedBindings; let used = false;
      if (ic.name && (keepAll || uses.has(ic.name.text))) used = true;
      if (nb && ts.isNamespaceImport(nb) && (keepAll || uses.has(nb.name.text))) used = true;
      if (nb && ts.isNamedImports(nb) && nb.elements.some((e) => !e.isTypeOnly && (keepAll || uses.has(e.name.text)))) used = true;
      if (used) out.push([st.moduleSpecifier.text, st, false]);
    } else if (ts.isExportDeclaration(st) && st.moduleSpecifier && !st.isTypeOnly) {
      if (st.exportClause && ts.isNamedExports(st.exportClause) && st.exportClause.elements.length && st.exportClause.elements.every((e) => e.isTypeOnly)) continue;
      out.push([st.moduleSpecifier.text, st, false]);
    } else if (ts.isImportEqualsDeclaration(st) && ts.isExternalModuleReference(st.moduleReference) && !st.isTypeOnly) out.push([st.moduleReference.expression.text, st, false]);
  }
  const visit = (n) => {
    if (ts.isCallExpression(n)) {
      const a = n.arguments[0]; const lit = a && ts.isStringLiteralLike(a) ? a.text : null;
      if (n.expression.kind === ts.SyntaxKind.ImportKeyword && lit !== null) out.push([lit, n, !atTop(n)]);
      else if (ts.isIdentifier(n.expression) && n.expression.text === 'require' && lit !== null) out.push([lit, n, !atTop(n)]);
    }
    ts.forEachChild(n, visit);
  };
  visit(sf);
  return out;
}
/** is this expression evaluated when the module is loaded (not inside a function)? */
const atTop = (n) => { for (let p = n.parent; p; p = p.parent) if (ts.isFunctionLike(p)) return false; return true; };
/** packages that loading `entry` loads, each with the import chain that reaches it */
export function reach(entry) {
  const keepAll = verbatim(); const start = path.join(REPO, entry);
  if (!fs.existsSync(start)) throw new AnchorMissing(entry);
  const seen = new Map([[start, [entry]]]); const work = [start]; const pk = new Map(); let edges = 0;
  while (work.length) {
    const f = work.shift();
    for (const [spec, node, dynamic] of edgesOf(f, keepAll)) {
      if (dynamic) continue; edges++;
      const r = resolveModule(f, spec);
      const chain = [...seen.get(f), `${loc(node)} imports ${spec}`];
      if (r) { if (!seen.has(r)) { seen.set(r, chain); if (/\.[cm]?[jt]sx?$/.test(r)) work.push(r); } } else if (r === null) { const p = spec.startsWith('node:') ? spec : spec.startsWith('@') ? spec.split('/').slice(0, 2).join('/') : spec.split('/')[0]; if (!pk.has(p)) pk.set(p, chain); } else if (!pk.has('unresolved:' + spec)) pk.set('unresolved:' + spec, chain);
    }
  }
  return { packages: pk, modules: [...seen.keys()].map((f) => path.relative(REPO, f)), edges };
}
const FAMILY = { xstate: ['xstate', '@xstate'], redux: ['redux', '@reduxjs/toolkit'], mobx: ['mobx'], lit: ['lit', 'lit-html', 'lit-element', '@lit/reactive-element'] };
const ALLOWED = { xstate: ['xstate'], redux: ['redux'], mobx: ['mobx'], 'renderers/ignite-jsx': [], 'renderers/lit': ['lit'], 'jsx/index': [], 'jsx/jsx-runtime': [], 'jsx/jsx-dev-runtime': [], 'config/loadIgniteConfig': [], 'config/vite': [], 'config/webpack': [] };
export function importRules(report) {
  const { entries, read } = buildEntries();
  report.info.entries = {};
  for (const [n, f] of Object.entries(entries)) {
    const r = reach(f);
    report.info.entries[n] = { modules: r.modules, import_edges: r.edges, packages: [...r.packages.keys()] };
    for (const [p, chain] of r.packages) if (p.startsWith('unresolved:')) report.check('imports-resolve', false, `entry ${n}: ${p.slice(11)} does not exist: ${chain.join(' -> ')}`, chain[chain.length - 1]);
    if (!(n in ALLOWED)) continue;
    for (const [fam, pkgs] of Object.entries(FAMILY)) {
      const hit = [...r.packages].find(([p]) => pkgs.includes(p));
      report.check('only-own-libraries', ALLOWED[n].includes(fam) || !hit, () => `entry ${n} loads ${hit[0]}: ${hit[1].join(' -> ')}`, hit?.[1][hit[1].length - 1]);
    }
  }
  // package.json exports -> build outputs -> sources
  const pj = path.join(REPO, 'package.json');
  if (!fs.existsSync(pj) || !read) return;
  const exp = JSON.parse(fs.readFileSync(pj, 'utf8')).exports ?? {};
  for (const [k, v] of Object.entries(exp)) {
    if (typeof v !== 'object' || v === null) continue;
    for (const [cond, target] of Object.entries(v)) {
      if (typeof target !== 'string') continue;
      if (cond === 'types') { const src = target.replace(/^\.\/dist\/types\//, 'src/').replace(/\.d\.ts$/, ''); report.check('types-backed', ['.ts', '.tsx'].some((e) => fs.existsSync(path.join(REPO, src + e))), `the types of ${k} (${target}) have no source module`, 'package.json'); continue; }
      const m = target.match(/^\.\/dist\/(.*)\.(es|cjs)\.js$/);
      const base = m && (m[1] === 'ignite-element' ? 'index' : m[1]);
      report.check('entry-backed', Boolean(m) && base in entries && fs.existsSync(path.join(REPO, entries[base])), `${k} (${cond}: ${target}) is not backed by a build entry with an existing source`, 'package.json');
    }
  }
}

export function runModules(id, cx) {
  const { entries } = buildEntries();
  if (id === 'C23') {
    cx.ai('import every entry point without a DOM', (M) => importClient(M, entries));
    cx.ai('import every entry point in a browser', (M) => browserKept(M, entries));
    cx.ai('define components without a DOM: igniteElementFactory', (M) => defineOnServer(M, 'index', null));
    for (const [n, s] of Object.entries(SHAPES)) cx.ai(`define components without a DOM: ${n}`, (M) => defineOnServer(M, s.lib, s));
  } else cx.rule('import graph of every entry point', importRules);
}

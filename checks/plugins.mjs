// C21-C22: the bundler plugins.
import path from 'node:path';
import { K, KS, deref, isSym, isObj, isPrim, show } from '../engine/values.mjs';
import { ts } from '../engine/interp.mjs';
import { attempt } from '../engine/world.mjs';
import { world } from './config.mjs';

const DEFAULTS = ['ignite.config.ts', 'ignite.config.js', 'ignite.config.mjs', 'ignite.config.cjs'];
/** node:fs / node:path: which files exist is decided by the environment, once per path */
export function nodeWorld(M, o = {}) {
  const files = new Map(); const probes = [];
  const exists = (p) => { if (!files.has(p)) files.set(p, M.choose(2, `${p} exists: no / yes`) === 1); return files.get(p); };
  const lit = (v, what) => { v = M.fold(M.toStr(v)); if (typeof v !== 'string') throw M.throwError('TypeError', what + ' of something that is not a path'); return v; };
  const fsNs = () => { const n = M.obj('Object', M.builtins.objectProto, 'node:fs'); M.put(n, 'existsSync', M.native('existsSync', (M2, t, [p]) => { p = lit(p, 'existsSync'); probes.push(p); return exists(path.posix.normalize(p)); })); M.put(n, 'statSync', M.native('statSync', (M2, t, [p]) => { p = lit(p, 'statSync'); if (!exists(path.posix.normalize(p))) throw M.throwError('Error', 'ENOENT'); return M.plain({ isFile: M.native('isFile', () => true), isDirectory: M.native('isDirectory', () => false) }); })); M.put(n, 'accessSync', M.native('accessSync', (M2, t, [p]) => { p = lit(p, 'accessSync'); if (!exists(path.posix.normalize(p))) throw M.throwError('Error', 'ENOENT'); })); return n; };
  const pathNs = () => { const n = M.obj('Object', M.builtins.objectProto, 'node:path'); for (const f of ['resolve', 'join', 'relative', 'isAbsolute', 'dirname', 'basename', 'extname', 'normalize']) M.put(n, f, M.native('path.' + f, (M2, t, a) => { const s = a.map((x) => lit(x, f)); if (f === 'resolve') return path.posix.resolve('/cwd', ...s); if (f === 'relative') return path.posix.relative(path.posix.resolve('/cwd', s[0]), path.posix.resolve('/cwd', s[1])); return path.posix[f](...s); })); M.put(n, 'sep', '/'); M.put(n, 'delimiter', ':'); M.put(n, 'posix', n); return n; };
  const urlNs = () => { const n = M.obj('Object'); M.put(n, 'pathToFileURL', M.native('pathToFileURL', (M2, t, [p]) => M.plain({ href: 'file://' + encodeURI(lit(p, 'pathToFileURL')) }))); return n; };
  const cache = {}; const once = (k, f) => () => (cache[k] ??= f());
  const W = world(M, { dom: false, ...o, externals: { 'node:fs': once('fs', fsNs), fs: once('fs', fsNs), 'node:path': once('path', pathNs), path: once('path', pathNs), 'node:url': once('url', urlNs), ...(o.externals ?? {}) } });
  W.exists = exists; W.probes = probes;
  return W;
}
const wantFile = (W, root, configPath) => {
  if (configPath) { const p = path.posix.resolve(root, configPath); return W.exists(p) ? p : null; }
  for (const f of DEFAULTS) { const p = path.posix.resolve(root, f); if (W.exists(p)) return p; }
  return null;
};
/** the modules a piece of module source imports, and whether loadIgniteConfig is awaited with a loader of `spec` */
function importsIn(src) {
  const sf = ts.createSourceFile('x.mjs', src, ts.ScriptTarget.ESNext, true, ts.ScriptKind.JS);
  const r = { specs: [], loads: [], broken: sf.parseDiagnostics?.length > 0 };
  const visit = (n) => {
    if (ts.isImportDeclaration(n)) r.specs.push(n.moduleSpecifier.text);
    if (ts.isCallExpression(n)) {
      if (n.expression.kind === ts.SyntaxKind.ImportKeyword) { const a = n.arguments[0]; const s = a && ts.isStringLiteralLike(a) ? a.text : '?'; r.specs.push(s); let p = n.parent; while (p && !(ts.isCallExpression(p) && p.expression.getText().endsWith('loadIgniteConfig'))) p = p.parent; if (p) { let q = p.parent; while (q && ts.isParenthesizedExpression(q)) q = q.parent; r.loads.push({ spec: s, awaited: Boolean(q && ts.isAwaitExpression(q)) }); } }
    }
    ts.forEachChild(n, visit);
  };
  visit(sf);
  return r;
}
const PATHS = [undefined, '', 'conf/ignite.ts', './my.config.mjs', '.config/ignite.ts', 'a b/it"s.ts', '../shared/ignite.ts', '/elsewhere/ignite.ts', '/project/sub/ignite.ts', '/projects/ignite.ts'];
export function resolveClient(M) {
  const W = nodeWorld(M); const I = W.interp;
  const fn = I.exported(I.load('src/plugins/configFile.ts'), 'resolveConfigFile');
  const root = ['/project', '/project/', 'app'][M.choose(3, 'root: absolute / with a slash / relative')];
  const cp = PATHS[M.choose(PATHS.length, 'configPath: ' + PATHS.join(' , '))];
  const o = M.plain({ root }); if (cp !== undefined) M.put(o, 'configPath', cp);
  const got = M.fold(M.call(fn, undefined, [o]));
  const want = wantFile(W, path.posix.resolve('/cwd', root), cp);
  M.check('config-file-found', want === null ? got === undefined || got === null : typeof got === 'string' && path.posix.resolve('/cwd', got) === want, () => `configPath ${show(cp)} below ${root}: ${show(got)} is used instead of ${show(want)}`);
}
export function viteClient(M) {
  const P = (r, ok, msg) => M.check(r, ok, msg);
  const W = nodeWorld(M); const I = W.interp;
  const mk = I.exported(I.load('src/plugins/viteIgniteConfigPlugin.ts'), 'igniteConfigVitePlugin');
  const root = [undefined, '/project'][M.choose(2, 'root option: none / given')];
  const cp = PATHS[M.choose(PATHS.length, 'configPath: ' + PATHS.join(' , '))];
  const inj = [undefined, 'head', 'head-prepend', 'body', 'body-prepend'][M.choose(5, 'injectTo: default / head / head-prepend / body / body-prepend')];
  const noOpts = root === undefined && cp === undefined && inj === undefined && M.choose(2, 'options: {} / none') === 1;
  const o = M.plain({}); if (root !== undefined) M.put(o, 'root', root); if (cp !== undefined) M.put(o, 'configPath', cp); if (inj !== undefined) M.put(o, 'injectTo', inj);
  const plugin = M.call(mk, undefined, noOpts ? [] : [o]);
  const resolved = M.choose(2, 'configResolved: called / not called') === 0;
  const viteRoot = ['/project', '/vite-root'][M.choose(2, 'vite root')];
  if (resolved) M.callMethod(plugin, 'configResolved', [M.plain({ root: viteRoot })]);
  const eff = root ?? (resolved ? viteRoot : null);
  const times = 1 + M.choose(2, 'pages: one / two');
  for (let i = 0; i < times; i++) {
    const r = attempt(M, () => M.callMethod(plugin, 'transformIndexHtml', ['<html></html>', M.obj('Object')]));
    P('transform-does-not-throw', r.ok, () => `transformIndexHtml throws ${show(r.error)}`);
    if (!r.ok) return;
    let v = M.fold(r.value); if (isObj(v) && v.cls === 'Promise') v = M.fold(M.builtins.awaitValue(M, v));
    if (isObj(v) && v.cls !== 'Array') v = M.fold(M.get(v, 'tags'));
    const tags = isObj(v) ? M.interp.iterateAll(v).map((x) => M.fold(x)) : [];
    const want = eff === null ? null : wantFile(W, eff, cp);
    if (eff === null) { continue; }
    if (want === null) { P('nothing-injected-without-config', tags.length === 0, 'a script is injected although no config file exists'); continue; }
    P('one-script', tags.length === 1 && M.fold(M.get(tags[0], 'tag')) === 'script', () => `${tags.length} tags are injected for the config file ${want} (must be one script)`);
    if (tags.length !== 1) continue;
    const t = tags[0];
    P('module-script', M.fold(M.get(M.get(t, 'attrs'), 'type')) === 'module', 'the injected script is not a module script');
    P('position', M.fold(M.get(t, 'injectTo')) === (inj ?? 'head-prepend'), () => `the script is injected at ${show(M.get(t, 'injectTo'))} instead of ${inj ?? 'head-prepend'}`);
    const src = M.fold(M.get(t, 'children'));
    if (typeof src !== 'string') { P('script-text', 'unk', ''); continue; }
    const im = importsIn(src);
    P('script-parses', !im.broken, () => 'the injected script does not parse: ' + src);
    const rel = path.posix.relative(eff, want); const inside = rel && rel !== '..' && !rel.startsWith('../');
    const exp = inside ? './' + rel : '/@fs' + want;
    const known = (s) => /loadIgniteConfig/.test(s);
    P('loads-the-config', im.loads.length === 1 && im.loads[0].spec === exp, () => `the script loads ${im.loads.map((l) => l.spec).join() || 'nothing'} where ${exp} is the config file`);
    P('awaits-the-config', im.loads.every((l) => l.awaited), 'the injected script does not await the configuration');
    P('imports-helper', im.specs.some(known), 'the injected script does not import loadIgniteConfig');
    P('imports-nothing-else', im.specs.every((s) => s === exp || known(s)), () => `the injected script imports ${im.specs.join()}`);
  }
}

// ---------------------------------------------------------------- C21
const str = (M, n) => M.sym(n, K.STR, { distinct: true, plain: true });
/** an entry value and the modules of each entry point it stands for */
function descriptor(M, label) {
  const c = M.choose(6, `${label}: string / one-module array / two-module array / {import: string} / {import: array, other keys} / no import`);
  const a = str(M, './' + label + 'A'), b = str(M, './' + label + 'B');
  if (c === 0) return { v: a, mods: [a], rest: [] };
  if (c === 1) { const v = M.arr([a]); return { v, mods: [a], rest: [], keep: [v] }; }
  if (c === 2) { const v = M.arr([a, b]); return { v, mods: [a, b], rest: [], keep: [v] }; }
  if (c === 3) { const v = M.plain({ import: a }); return { v, mods: [a], rest: [], keep: [v] }; }
  if (c === 4) { const i = M.arr([a, b]); const f = M.sym('filename', KS.ANY & ~K.UNDEF, { distinct: true }), l = M.obj('Object', M.builtins.objectProto, 'library'); const v = M.plain({ filename: f, import: i, library: l }); const rest = [['filename', f], ['library', l]]; for (const k of ['dependOn', 'runtime', 'layer', 'publicPath', 'asyncChunks', 'chunkLoading']) { const x = M.sym(k, KS.ANY & ~K.UNDEF, { distinct: true }); M.put(v, k, x); rest.push([k, x]); } return { v, mods: [a, b], rest, keep: [v, i] }; }
  const f = str(M, 'chunk'); const v = M.plain({ filename: f }); return { v, mods: null, rest: [['filename', f]], keep: [v] };
}
function entry(M, depth) {
  const c = M.choose(depth > 0 ? 6 : 4, 'entry: string / array / one named entry / two named entries / function / async function');
  const d = (f) => ({ main: f });
  if (c === 0) { const a = str(M, './index'); return { v: a, points: d({ mods: [a], rest: [] }), keep: [] }; }
  if (c === 1) { const xs = [str(M, './a'), str(M, './b')].slice(0, 1 + M.choose(2, 'array of: one / two')); const v = M.arr(xs); return { v, points: d({ mods: [...xs], rest: [] }), keep: [v] }; }
  if (c === 2) { const x = descriptor(M, 'main'); const v = M.plain({ main: x.v }); return { v, points: { main: x }, keep: [v, ...(x.keep ?? [])] }; }
  if (c === 3) { const two = ['admin', 'import'][M.choose(2, 'the second entry is named: admin / import')]; const x = descriptor(M, 'main'), y = descriptor(M, 'admin'); const v = M.plain({ main: x.v, [two]: y.v }); return { v, points: { main: x, [two]: y }, keep: [v, ...(x.keep ?? []), ...(y.keep ?? [])] }; }
  const e = entry(M, depth - 1); let calls = 0;
  const v = M.native('entry', () => { e.calls = ++calls; return c === 4 ? e.v : M.builtins.promiseResolved(M, e.v); });
  return { v, fn: e, points: e.points, keep: e.keep };
}
const shape = (M, o) => (o.slots.items ? [...o.slots.items] : [...o.props].map(([k, d]) => [k, d.v]));
const sameShape = (a, b) => a.length === b.length && a.every((x, i) => (Array.isArray(x) ? x[0] === b[i][0] && deref(x[1]) === deref(b[i][1]) : deref(x) === deref(b[i])));
function modsOf(M, v) {
  v = M.fold(v);
  if (typeof v === 'string' || isSym(v)) return { mods: [v], o: null };
  if (isObj(v) && v.cls === 'Array') return { mods: M.interp.iterateAll(v).map((x) => M.fold(x)), o: null };
  if (isObj(v)) { const i = M.fold(M.get(v, 'import')); if (i === undefined) return { mods: null, o: v }; return { mods: modsOf(M, i).mods, o: v }; }
  return { mods: null, o: null };
}
export function webpackClient(M) {
  const P = (r, ok, msg) => M.check(r, ok, msg);
  const W = nodeWorld(M); const I = W.interp;
  const Cls = I.exported(I.load('src/plugins/webpackIgniteConfigPlugin.ts'), 'IgniteConfigWebpackPlugin');
  const cp = [undefined, 'conf/it"s.ts', '/elsewhere/ignite.ts', 'c#1/100% & more?.ts'][M.choose(4, 'configPath: none / relative / absolute / with special characters')];
  const none = cp === undefined && M.choose(2, 'options: {} / none') === 1;
  const e = M.choose(2, 'an entry is: given / missing') === 0 ? entry(M, 2) : null;
  const options = M.plain({ mode: 'production' }); if (e) M.put(options, 'entry', e.v);
  const compiler = M.plain({ context: '/project', options });
  const before = (e?.keep ?? []).map((o) => [o, shape(M, o)]);
  const keys0 = [...options.props.keys()];
  const want0 = wantFile(W, '/project', cp);
  const times = 1 + M.choose(2, 'plugin: applied once / applied twice');
  for (let i = 0; i < times; i++) M.callMethod(M.construct(Cls, none ? [] : [M.plain(cp === undefined ? {} : { configPath: cp })]), 'apply', [compiler]);
  const opts = M.fold(M.get(compiler, 'options'));
  if (want0 === null) {
    P('untouched-without-config', opts === options && [...options.props.keys()].length === keys0.length && (!e || M.fold(M.get(options, 'entry')) === M.fold(e.v)), 'without a config file the compiler options are changed');
    for (const [o, s] of before) P('user-objects-untouched', sameShape(s, shape(M, o)), 'a user object is modified');
    return;
  }
  let v = M.fold(M.get(opts, 'entry')); let guard = 0;
  if (e?.fn) P('function-entry-stays-lazy', isObj(v) && v.cls === 'Function' && !innermost(e).calls, 'a function entry is not kept as a function');
  while (isObj(v) && v.cls === 'Function' && guard++ < 4) { const r = attempt(M, () => M.builtins.awaitValue(M, M.call(v, undefined, []))); P('entry-function-works', r.ok, () => `the entry function fails with ${show(r.error)}`); if (!r.ok) return; v = M.fold(r.value); }
  if (e?.fn) { const n = innermost(e).calls; const again = M.fold(M.get(opts, 'entry')); let w = again; for (let i = 0; isObj(w) && w.cls === 'Function' && i < 4; i++) w = M.fold(M.builtins.awaitValue(M, M.call(w, undefined, []))); P('function-entry-asked-each-build', innermost(e).calls > n, "a later build does not ask the user's entry function again"); }
  const points = e ? e.points : { main: { mods: [], rest: [] } };
  const record = isObj(v) && v.cls !== 'Array';
  const names = record ? [...v.props.keys()] : ['main'];
  P('same-entry-points', names.length === Object.keys(points).length && Object.keys(points).every((n) => names.includes(n)), () => `the entry points ${Object.keys(points).join()} become ${names.map(show).join()}`);
  P('same-entry-order', names.filter((n) => n in points).join() === Object.keys(points).join(), 'the entry points change their order');
  for (const [n, p] of Object.entries(points)) {
    const g = modsOf(M, record ? M.get(v, n) : v);
    P('config-first', Boolean(g.mods?.length), `entry point ${n} has no config loader`);
    if (!g.mods?.length) continue;
    const first = g.mods[0];
    const isLoader = (m) => { if (typeof m !== 'string') return false; let src = null; try { src = m.startsWith('data:') ? decodeURIComponent(m.split('#')[0].slice(m.indexOf(',') + 1)) : null; } catch { return false; } if (src === null) return false; const im = importsIn(src); return !im.broken && im.loads.length === 1 && im.loads[0].awaited && im.loads[0].spec === want0 && im.specs.some((s) => s === 'ignite-element/config/loadIgniteConfig'); };
    P('config-first', isLoader(first), () => `the first module of entry point ${n} is ${show(first)}, not a module that loads ${want0}`);
    P('added-once', g.mods.filter(isLoader).length === 1, () => `entry point ${n} loads the config ${g.mods.filter(isLoader).length} times`);
    const rest = g.mods.slice(1); const wantRest = p.mods ?? ['./src'];
    P('keeps-modules', rest.length === wantRest.length && rest.every((m, i) => M.same(m, wantRest[i]) === 'eq'), () => `entry point ${n} has the modules ${rest.map(show).join()} after the loader where ${wantRest.map(show).join()} were given`);
    for (const [k, x] of p.rest) P('keeps-everything-else', g.o !== null && M.same(M.get(g.o, k), x), `the ${k} of entry point ${n} is lost`);
  }
  for (const [o, s] of before) P('user-objects-untouched', sameShape(s, shape(M, o)), () => 'the plugin modifies an object of the user');
}
const innermost = (e) => { while (e.fn) e = e.fn; return e; };

export function runPlugins(id, cx) {
  cx.ai('resolveConfigFile: every path form and set of files', resolveClient);
  if (id === 'C22') cx.ai('vite plugin: every option, root and set of files', viteClient);
  if (id === 'C21') cx.ai('webpack plugin: every entry form', webpackClient);
}

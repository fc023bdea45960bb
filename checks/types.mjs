// C25-C26: compile-pass / compile-fail witnesses, decided by the TypeScript checker against the sources of /repo.
import fs from 'node:fs';
import path from 'node:path';
import { ts, REPO, AnchorMissing } from '../engine/interp.mjs';

/** every line of a witness is an obligation: lines marked ERR must be rejected, all others accepted */
export function checkWitnesses(report, files) {
  const cfgFile = path.join(REPO, 'tsconfig.json');
  if (!fs.existsSync(path.join(REPO, 'src/IgniteCore.ts'))) throw new AnchorMissing('src/IgniteCore.ts');
  let options = { strict: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Node10, lib: ['lib.es2020.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'], skipLibCheck: true, esModuleInterop: true };
  if (fs.existsSync(cfgFile)) { const c = ts.readConfigFile(cfgFile, ts.sys.readFile); const p = ts.parseJsonConfigFileContent({ compilerOptions: c.config?.compilerOptions ?? {}, files: [] }, ts.sys, REPO); options = { ...options, ...p.options, strict: true }; }
  options = { ...options, noEmit: true, jsx: ts.JsxEmit.Preserve, declaration: false, emitDeclarationOnly: false, declarationDir: undefined, noUnusedLocals: false, noUnusedParameters: false, types: [], skipLibCheck: true };
  const host = ts.createCompilerHost(options, true);
  const V = new Map(Object.entries(files).map(([n, t]) => [path.join(REPO, 'src/__witness__', n), t]));
  const { fileExists, readFile, getSourceFile } = host;
  host.fileExists = (f) => V.has(f) || fileExists.call(host, f);
  host.readFile = (f) => V.get(f) ?? readFile.call(host, f);
  host.getSourceFile = (f, ...a) => (V.has(f) ? ts.createSourceFile(f, V.get(f), a[0], true) : getSourceFile.call(host, f, ...a));
  const program = ts.createProgram([...V.keys()], options, host);
  const used = program.getSourceFiles().map((s) => path.relative(REPO, s.fileName)).filter((f) => f.startsWith('src/') && !f.includes('__witness__'));
  report.info.type_checked_modules = used;
  let pass = 0, fail = 0;
  for (const [f, text] of V) {
    const sf = program.getSourceFile(f);
    const ds = [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)];
    const byLine = new Map();
    for (const d of ds) { const l = sf.getLineAndCharacterOfPosition(d.start ?? 0).line; if (!byLine.has(l)) byLine.set(l, d); }
    text.split('\n').forEach((line, i) => {
      const m = line.match(/\/\/ (ERR|OK) ([\w-]+)/);
      const d = byLine.get(i);
      const code = line.replace(/\/\/ (ERR|OK).*/, '').trim();
      if (m?.[1] === 'ERR') { fail++; report.check(m[2], Boolean(d), () => `the checker accepts \`${code}\` in ${path.basename(f)}, which must be a compile error`, whereIs(program)); return; }
      if (m) pass++;
      if (m || d) report.check(m?.[2] ?? 'valid-program-accepted', !d, () => `the checker rejects the valid \`${code}\` in ${path.basename(f)}: ${ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 300)}`, whereIs(program));
    });
  }
  report.info.compile_pass_obligations = pass; report.info.compile_fail_obligations = fail; report.info.witness_programs = V.size;
}
const whereIs = () => 'src/RenderArgs.ts, src/IgniteCore.ts, src/igniteCore/*.ts (types)';

// ---- sources
const PRE = {
  xstate: `import { createMachine, createActor } from "xstate";
const machine = createMachine({ types: {} as { context: { count: number; label: string }; events: { type: "INC"; by: number } | { type: "RESET" } }, context: { count: 0, label: "x" }, initial: "idle", states: { idle: { on: { INC: "busy", RESET: "idle" } }, busy: {} } });
const actor0 = createActor(machine);`,
  redux: `import { createSlice, configureStore } from "@reduxjs/toolkit";
import type { PayloadAction } from "@reduxjs/toolkit";
const slice = createSlice({ name: "counter", initialState: { count: 0, label: "x" }, reducers: { inc: (s, a: PayloadAction<number>) => { s.count += a.payload; }, reset: (s) => { s.count = 0; } } });
const makeStore = () => configureStore({ reducer: { counter: slice.reducer } });
const store = makeStore();`,
  mobx: `class Counter { count = 0; label = "x"; inc(by: number) { this.count += by; } reset() { this.count = 0; } }
const observable = new Counter();
const makeObservable = () => new Counter();`,
};
const KINDS = {
  machine: { lib: 'xstate', source: 'machine' }, actor: { lib: 'xstate', source: 'actor0' },
  slice: { lib: 'redux', source: 'slice' }, store: { lib: 'redux', source: 'store' }, storeFactory: { lib: 'redux', source: 'makeStore' },
  observable: { lib: 'mobx', source: 'observable' }, observableFactory: { lib: 'mobx', source: 'makeObservable' },
};
/** the ways to reach igniteCore */
const VIA = (k) => [
  { n: 'inferred', imp: `import { igniteCore } from "../IgniteCore";`, adapter: '' },
  { n: 'named', imp: `import { igniteCore } from "../IgniteCore";`, adapter: `adapter: "${k.lib}" as const, ` },
  { n: 'entry', imp: `import { igniteCore } from "../${k.lib}";`, adapter: '' },
];
const EVENTS = `{ saved: event<{ id: string }>(), count: event<number>(), none: event<undefined>(), opt: event<{ a?: number } | undefined>(), lit: event<"a" | "b">(), nul: event<null>(), list: event<string[]>(), "kebab-name": event<boolean>(), either: event<{ kind: "x"; x: number } | { kind: "y"; y: string }>() }`;
const EMITS = `
    emit("saved", { id: "1" }); // OK declared-event-accepted
    emit("count", 1); // OK declared-event-accepted
    emit("none"); // OK payload-omitted-when-none
    emit("none", undefined); // OK declared-event-accepted
    emit("opt"); // OK payload-omitted-when-none
    emit("opt", { a: 1 }); // OK declared-event-accepted
    emit("lit", "a"); // OK declared-event-accepted
    emit("nul", null); // OK declared-event-accepted
    emit("list", ["a"]); // OK declared-event-accepted
    emit("kebab-name", true); // OK declared-event-accepted
    emit("either", { kind: "y", y: "s" }); // OK declared-event-accepted
    emit("missing"); // ERR undeclared-event-rejected
    emit("missing", { id: "1" }); // ERR undeclared-event-rejected
    emit("Saved", { id: "1" }); // ERR undeclared-event-rejected
    emit("saved" as string, { id: "1" }); // ERR undeclared-event-rejected
    emit("saved"); // ERR payload-required
    emit("count"); // ERR payload-required
    emit("nul"); // ERR payload-required
    emit("lit"); // ERR payload-required
    emit("saved", { id: 1 }); // ERR wrong-payload-rejected
    emit("saved", {}); // ERR wrong-payload-rejected
    emit("saved", undefined); // ERR wrong-payload-rejected
    emit("saved", { id: "1", more: 2 }); // ERR wrong-payload-rejected
    emit("count", "1"); // ERR wrong-payload-rejected
    emit("count", undefined); // ERR wrong-payload-rejected
    emit("count", { id: "1" }); // ERR wrong-payload-rejected
    emit("none", 1); // ERR wrong-payload-rejected
    emit("opt", { a: "1" }); // ERR wrong-payload-rejected
    emit("opt", null); // ERR wrong-payload-rejected
    emit("lit", "c"); // ERR wrong-payload-rejected
    emit("nul", 0); // ERR wrong-payload-rejected
    emit("list", [1]); // ERR wrong-payload-rejected
    emit("list", "a"); // ERR wrong-payload-rejected
    emit("kebab-name", "true"); // ERR wrong-payload-rejected
    emit("either", { kind: "x", y: "s" }); // ERR wrong-payload-rejected
    emit("saved", { id: "1" }, 2); // ERR wrong-payload-rejected
    emit(); // ERR undeclared-event-rejected
    emit(1, 1); // ERR undeclared-event-rejected`;
export function emitWitnesses() {
  const files = {};
  for (const [kn, k] of Object.entries(KINDS)) for (const v of VIA(k)) {
    const pre = `${v.imp}\nimport type { EventBuilder } from "../RenderArgs";\n${PRE[k.lib]}\n`;
    const ev = `events: (event) => (${EVENTS}),`; const evT = `events: (event: EventBuilder) => (${EVENTS}),`;
    const cmd = `commands: ({ emit }) => ({ go: () => {${EMITS}\n  } }),`;
    files[`emit-${kn}-${v.n}-events-first.ts`] = `${pre}\nigniteCore({ ${v.adapter}source: ${k.source},\n  ${ev}\n  ${cmd}\n});\nexport {};`;
    files[`emit-${kn}-${v.n}-events-last.ts`] = `${pre}\nigniteCore({ ${v.adapter}source: ${k.source},\n  ${cmd}\n  ${evT}\n});\nexport {};`;
    files[`emit-${kn}-${v.n}-no-events.ts`] = `${pre}\nigniteCore({ ${v.adapter}source: ${k.source}, // OK valid-program-accepted
  commands: ({ emit }) => ({ go: () => {
    emit("saved"); // ERR undeclared-event-rejected
    emit("saved", { id: "1" }); // ERR undeclared-event-rejected
    emit("saved", undefined); // ERR undeclared-event-rejected
    emit(); // ERR undeclared-event-rejected
  } }),
});\nexport {};`;
  }
  // the exported configuration types
  for (const [lib, type, arg, src] of [['xstate', 'XStateConfig', 'typeof machine', 'machine'], ['xstate', 'XStateConfig', 'typeof machine', 'actor0'], ['mobx', 'MobxConfig', 'Counter', 'observable'], ['mobx', 'MobxConfig', 'Counter', 'makeObservable'], ['redux', 'ReduxBlueprintConfig', 'typeof slice', 'slice'], ['redux', 'ReduxBlueprintConfig', 'typeof makeStore', 'makeStore'], ['redux', 'ReduxInstanceConfig', 'typeof store', 'store']]) {
    files[`emit-config-${lib}-${src}.ts`] = `import type { ${type} } from "../${lib}";
import type { EventDescriptor } from "../RenderArgs";
${PRE[lib]}
export const a: ${type}<${arg}, { saved: EventDescriptor<{ id: string }>; none: EventDescriptor<undefined> }, Record<never, never>, { go: () => void }> = { source: ${src}, // OK valid-program-accepted
  commands: ({ emit }) => ({ go: () => {
    emit("saved", { id: "1" }); // OK declared-event-accepted
    emit("none"); // OK payload-omitted-when-none
    emit("saved"); // ERR payload-required
    emit("saved", { id: 1 }); // ERR wrong-payload-rejected
    emit("other"); // ERR undeclared-event-rejected
  } }) };
export const b: ${type}<${arg}> = { source: ${src}, commands: ({ emit }) => { // OK valid-program-accepted
    emit("saved", { id: "1" }); // ERR undeclared-event-rejected
    emit("saved"); // ERR undeclared-event-rejected
    return {};
  } };`;
  }
  files['emit-type.ts'] = `import type { EmitFromEvents, EventDescriptor, EmptyEventMap, EventMap } from "../RenderArgs";
import { event } from "../events";
const events = ${EVENTS};
declare const emit: EmitFromEvents<typeof events>;
export function go() {${EMITS}
}
declare const none: EmitFromEvents<EmptyEventMap>;
none("x", 1); // ERR undeclared-event-rejected
none("x"); // ERR undeclared-event-rejected
// for every payload type
export function anyPayload<P extends object>(e: EmitFromEvents<{ a: EventDescriptor<P> }>, p: P, q: object) {
  e("a", p); // OK declared-event-accepted
  e("a", q); // ERR wrong-payload-rejected
  e("b", p); // ERR undeclared-event-rejected
  e("a"); // ERR payload-required
}
`;
  return files;
}
// ---- render arguments
const IS = `type Is<A, B> = 0 extends 1 & A ? (0 extends 1 & B ? true : false) : 0 extends 1 & B ? false : [A] extends [B] ? ([B] extends [A] ? true : false) : false;
const yes = <T extends true>() => {};`;
const LIB = {
  xstate: {
    states: '(s) => ({ double: s.context.count * 2, flat: s.count, word: s.label, tag: "t" as const })',
    badSnapshot: ['(s) => ({ x: s.nope })', '(s) => ({ x: s.context.nope })'],
    actor: `actor.send({ type: "INC", by: 1 }); // OK command-actor-typed
    actor.send({ type: "RESET" }); // OK command-actor-typed
    actor.send({ type: "NOPE" }); // ERR command-actor-typed
    actor.send({ type: "INC" }); // ERR command-actor-typed
    const c: number = actor.state.context.count; // OK command-actor-typed
    actor.dispatch({ type: "INC", by: 1 }); // ERR command-actor-typed`,
    args: `const s1: number = args.state.context.count; // OK state-typed
  const s2: number = args.state.count; // OK state-typed
  const s3: boolean = args.state.matches("idle"); // OK state-typed
  args.state.nope; // ERR state-typed
  args.state.context.nope; // ERR state-typed
  const s4: string = args.state.count; // ERR state-typed
  args.send({ type: "INC", by: 2 }); // OK send-typed
  args.send({ type: "RESET" }); // OK send-typed
  args.send({ type: "NOPE" }); // ERR send-typed
  args.send({ type: "INC" }); // ERR send-typed
  args.send({ type: "INC", by: "2" }); // ERR send-typed
  args.send("RESET"); // ERR send-typed
  args.send(); // ERR send-typed`,
    flat: true,
  },
  slice: {
    states: '(s) => ({ double: s.counter.count * 2, flat: s.counter.count, word: s.counter.label, tag: "t" as const })',
    badSnapshot: ['(s) => ({ x: s.nope })', '(s) => ({ x: s.counter.nope })', '(s) => ({ x: s.count })'],
    actor: `actor.dispatch(slice.actions.inc(1)); // OK command-actor-typed
    actor.dispatch(slice.actions.reset()); // OK command-actor-typed
    actor.dispatch({ type: "counter/nope" }); // ERR command-actor-typed
    actor.dispatch({ type: "counter/inc", payload: "1" }); // ERR command-actor-typed
    const c: number = actor.getState().counter.count; // OK command-actor-typed
    actor.getState().nope; // ERR command-actor-typed
    actor.send({ type: "counter/reset" }); // ERR command-actor-typed`,
    args: `const s1: number = args.state.counter.count; // OK state-typed
  args.state.nope; // ERR state-typed
  args.state.counter.nope; // ERR state-typed
  const s4: string = args.state.counter.count; // ERR state-typed
  args.send(slice.actions.inc(2)); // OK send-typed
  args.send(slice.actions.reset()); // OK send-typed
  args.send({ type: "counter/inc", payload: 1 }); // OK send-typed
  args.send({ type: "counter/nope" }); // ERR send-typed
  args.send({ type: "counter/inc", payload: "2" }); // ERR send-typed
  args.send({ type: "counter/inc" }); // ERR send-typed
  args.send({ type: "counter/reset" }); // OK send-typed
  args.send("counter/reset"); // ERR send-typed
  args.send(); // ERR send-typed`,
  },
  redux: {
    states: '(s) => ({ double: s.counter.count * 2, flat: s.counter.count, word: s.counter.label, tag: "t" as const })',
    badSnapshot: ['(s) => ({ x: s.nope })', '(s) => ({ x: s.counter.nope })', '(s) => ({ x: s.count })'],
    actor: `actor.dispatch(slice.actions.inc(1)); // OK command-actor-typed
    actor.dispatch(slice.actions.reset()); // OK command-actor-typed
    actor.dispatch("counter/reset"); // ERR command-actor-typed
    const c: number = actor.getState().counter.count; // OK command-actor-typed
    actor.getState().nope; // ERR command-actor-typed
    actor.send({ type: "counter/reset" }); // ERR command-actor-typed`,
    args: `const s1: number = args.state.counter.count; // OK state-typed
  args.state.nope; // ERR state-typed
  args.state.counter.nope; // ERR state-typed
  const s4: string = args.state.counter.count; // ERR state-typed
  args.send(slice.actions.inc(2)); // OK send-typed
  args.send(slice.actions.reset()); // OK send-typed
  args.send("counter/reset"); // ERR send-typed
  args.send({ notype: 1 }); // ERR send-typed
  args.send(); // ERR send-typed`,
  },
  mobx: {
    states: '(s) => ({ double: s.count * 2, flat: s.count, word: s.label, tag: "t" as const })',
    badSnapshot: ['(s) => ({ x: s.nope })'],
    actor: `actor.inc(1); // OK command-actor-typed
    actor.reset(); // OK command-actor-typed
    actor.inc("1"); // ERR command-actor-typed
    actor.nope(); // ERR command-actor-typed
    const c: number = actor.count; // OK command-actor-typed
    actor.send({ type: "reset" }); // ERR command-actor-typed`,
    args: `const s1: number = args.state.count; // OK state-typed
  args.state.nope; // ERR state-typed
  const s4: string = args.state.count; // ERR state-typed
  args.send({ type: "reset" }); // OK send-typed
  args.send({ type: "reset", args: [] }); // OK send-typed
  args.send({ type: "inc", args: [1] }); // OK send-typed
  args.send({ type: "inc" }); // ERR send-typed
  args.send({ type: "inc", args: ["1"] }); // ERR send-typed
  args.send({ type: "inc", args: [] }); // ERR send-typed
  args.send({ type: "inc", args: [1, 2] }); // ERR send-typed
  args.send({ type: "inc", args: 1 }); // ERR send-typed
  args.send({ type: "reset", args: [1] }); // ERR send-typed
  args.send({ type: "nope" }); // ERR send-typed
  args.send({ type: "count" }); // ERR send-typed
  args.send("reset"); // ERR send-typed
  args.send(); // ERR send-typed`,
  },
};
const CMDS = (L) => `commands: ({ actor, host }) => { // OK valid-program-accepted
    ${L.actor}
    const h: HTMLElement = host; // OK host-typed
    host.nope; // ERR host-typed
    return { add: (n: number, s?: string) => n > 0, reset: () => {}, greet: async (who: string) => who.length };
  },`;
const USE = (args, full) => `
  ${args}
  ${full ? `const d1: number = args.double; // OK derived-typed
  const d2: "t" = args.tag; // OK derived-typed
  const d3: string = args.word; // OK derived-typed
  const d4: string = args.double; // ERR derived-typed
  const d5: "u" = args.tag; // ERR derived-typed
  const d6: number = args.flat; // OK derived-typed
  args.double.nope; // ERR derived-typed
  const c1: boolean = args.add(1); // OK commands-typed
  args.add(1, "s"); // OK commands-typed
  args.reset(); // OK commands-typed
  const c2: Promise<number> = args.greet("a"); // OK commands-typed
  args.add("1"); // ERR commands-typed
  args.add(); // ERR commands-typed
  args.add(1, 2); // ERR commands-typed
  args.reset(1); // ERR commands-typed
  args.greet(1); // ERR commands-typed
  args.unknown; // ERR unknown-argument-rejected
  args.unknown(); // ERR unknown-argument-rejected` : `args.double; // ERR unknown-argument-rejected
  args.add; // ERR unknown-argument-rejected
  args.actor; // ERR unknown-argument-rejected
  args.emit; // ERR unknown-argument-rejected`}
`;
export function argWitnesses() {
  const files = {};
  for (const [kn, k] of Object.entries(KINDS)) for (const v of VIA(k)) {
    const L = kn === 'slice' ? LIB.slice : LIB[k.lib];
    const pre = `${v.imp}\nimport type { AdapterPack } from "../IgniteElementFactory";\n${PRE[k.lib]}\n${IS}\n`;
    files[`args-${kn}-${v.n}.ts`] = `${pre}
const register = igniteCore({ ${v.adapter}source: ${k.source}, // OK valid-program-accepted
  states: ${L.states}, // OK snapshot-typed
  ${CMDS(L)}
});
register("x-a", (args) => {${USE(L.args, true)}
  return null;
});
register("x-b", { render(args) {${USE(L.args, true)}
  return null;
} });
type A = AdapterPack<typeof register>;
yes<Is<A["double"], number>>(); // OK derived-typed
yes<Is<A["tag"], "t">>(); // OK derived-typed
yes<Is<A["word"], string>>(); // OK derived-typed
yes<Is<Parameters<A["add"]>, [n: number, s?: string]>>(); // OK commands-typed
yes<Is<ReturnType<A["add"]>, boolean>>(); // OK commands-typed
yes<Is<ReturnType<A["send"]>, void>>(); // OK send-typed
type U = A["unknown"]; // ERR unknown-argument-rejected
declare const args: A;
{${USE(L.args, true)}}
register("x-c", 5); // ERR renderer-form-checked
register("x-d", { noRender: 1 }); // ERR renderer-form-checked
register("x-e", (args: { state: symbol }) => null); // ERR renderer-form-checked
register(5, () => null); // ERR renderer-form-checked
export {};`;
    files[`bare-${kn}-${v.n}.ts`] = `${pre}
const bare = igniteCore({ ${v.adapter}source: ${k.source} }); // OK valid-program-accepted
bare("x-a", (args) => {${USE(L.args, false)}
  return null;
});
const noCommands = igniteCore({ ${v.adapter}source: ${k.source}, states: ${L.states} }); // OK snapshot-typed
noCommands("x-b", (args) => {
  const d: number = args.double; // OK derived-typed
  args.add; // ERR unknown-argument-rejected
  return null;
});
const noStates = igniteCore({ ${v.adapter}source: ${k.source}, commands: ({ actor }) => ({ add: (n: number) => n }), cleanup: false }); // OK valid-program-accepted
noStates("x-c", (args) => {
  const r: number = args.add(1); // OK commands-typed
  args.double; // ERR unknown-argument-rejected
  return null;
});
${L.badSnapshot.map((b) => `igniteCore({ ${v.adapter}source: ${k.source}, states: ${b} }); // ERR snapshot-typed`).join('\n')}
igniteCore({ ${v.adapter}source: ${k.source}, states: () => 5 }); // ERR callback-result-checked
${v.n === 'entry' ? '' : `igniteCore({ ${v.adapter}source: ${k.source}, commands: () => ({ x: 5 }) }); // ERR callback-result-checked`}
igniteCore({ ${v.adapter}source: ${k.source}, cleanup: "no" }); // ERR option-checked
igniteCore({ ${v.adapter}source: ${k.source}, bogus: 1 }); // ERR option-checked
export {};`;
  }
  files['adapter-names.ts'] = `import { igniteCore } from "../IgniteCore";
import { igniteCore as xs } from "../xstate";
import { igniteCore as rx } from "../redux";
import { igniteCore as mx } from "../mobx";
${PRE.xstate}
${PRE.redux}
${PRE.mobx}
igniteCore({ adapter: "redux", source: machine }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "redux", source: actor0 }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "redux", source: observable }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "redux", source: makeObservable }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "xstate", source: slice }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "xstate", source: store }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "xstate", source: makeStore }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "xstate", source: observable }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "xstate", source: makeObservable }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "zustand", source: observable }); // ERR adapter-mismatch-rejected
igniteCore({ adapter: "mobx", source: 5 }); // ERR adapter-mismatch-rejected
igniteCore({ source: 5 }); // ERR adapter-mismatch-rejected
igniteCore({ source: "x" }); // ERR adapter-mismatch-rejected
igniteCore({}); // ERR adapter-mismatch-rejected
igniteCore(5); // ERR adapter-mismatch-rejected
xs({ source: slice }); // ERR adapter-mismatch-rejected
xs({ source: store }); // ERR adapter-mismatch-rejected
xs({ source: observable }); // ERR adapter-mismatch-rejected
xs({ adapter: "redux", source: machine }); // ERR adapter-mismatch-rejected
xs({}); // ERR adapter-mismatch-rejected
rx({ source: machine }); // ERR adapter-mismatch-rejected
rx({ source: observable }); // ERR adapter-mismatch-rejected
rx({ adapter: "mobx", source: store }); // ERR adapter-mismatch-rejected
mx({ source: 5 }); // ERR adapter-mismatch-rejected
mx({ adapter: "xstate", source: observable }); // ERR adapter-mismatch-rejected
const fixed = igniteCore(); // OK valid-program-accepted
fixed("x-s", (args) => {
  args.send({ type: "x" }); // ERR send-typed
  args.unknown; // ERR unknown-argument-rejected
  args.state; // OK state-typed
  return null;
});
export {};`;
  // other shapes of sources
  files['sources.ts'] = `import { igniteCore } from "../IgniteCore";
import { igniteCore as xs } from "../xstate";
import { igniteCore as rx } from "../redux";
import { igniteCore as mx } from "../mobx";
import { setup, createActor, assign } from "xstate";
import { createSlice, configureStore, combineReducers } from "@reduxjs/toolkit";
import type { PayloadAction } from "@reduxjs/toolkit";
const m2 = setup({ types: { context: {} as { user: { name: string } | null; tags: string[] }, events: {} as { type: "login"; name: string } | { type: "logout" } } }).createMachine({ context: { user: null, tags: [] }, initial: "out", states: { out: { on: { login: { target: "in", actions: assign({ user: ({ event }) => ({ name: event.name }) }) } } }, in: { on: { logout: "out" } } } });
const s2 = createSlice({ name: "todo", initialState: { items: [] as { id: number; text: string }[], filter: null as string | null }, reducers: { add: { reducer: (s, a: PayloadAction<{ id: number; text: string }>) => { s.items.push(a.payload); }, prepare: (text: string) => ({ payload: { id: 1, text } }) }, filter: (s, a: PayloadAction<string | undefined>) => { s.filter = a.payload ?? null; }, clear: (s) => { s.items = []; } } });
const other = createSlice({ name: "ui", initialState: { open: false }, reducers: { toggle: (s) => { s.open = !s.open; } } });
const many = () => configureStore({ reducer: { todo: s2.reducer, ui: other.reducer } });
const nested = () => configureStore({ reducer: combineReducers({ todo: s2.reducer, ui: other.reducer }) });
const plain = { count: 0, list: [] as string[], add(x: string, times: number) { void x; void times; }, async load() { return 1; } };
${[['igniteCore', ''], ['xs', '']].map(([f]) => ['m2', 'createActor(m2)'].map((src) => `${f}({ source: ${src}, // OK valid-program-accepted
  states: (s) => ({ who: s.context.user?.name ?? null, tags: s.tags.length, on: s.matches("in") }), // OK snapshot-typed
  commands: ({ actor }) => ({ login: (name: string) => actor.send({ type: "login", name }) }) })("x-a", (a) => { // OK command-actor-typed
  const w: string | null = a.who; // OK derived-typed
  const w2: string = a.who; // ERR derived-typed
  const n: string[] = a.state.tags; // OK state-typed
  const u: string = a.state.user.name; // ERR state-typed
  const v: "out" | "in" = a.state.value; // OK state-typed
  a.state.matches("nope"); // ERR state-typed
  a.login("x"); // OK commands-typed
  a.login(5); // ERR commands-typed
  a.send({ type: "login", name: "x" }); // OK send-typed
  a.send({ type: "login" }); // ERR send-typed
  a.send({ type: "login", name: "x", extra: 1 }); // ERR send-typed
  a.send({ type: "logout" }); // OK send-typed
  return null;
});`).join('\n')).join('\n')}
${['igniteCore', 'rx'].map((f) => `${f}({ source: s2, // OK valid-program-accepted
  states: (s) => ({ n: s.todo.items.length, f: s.todo.filter }), // OK snapshot-typed
  commands: ({ actor }) => ({ add: (t: string) => actor.dispatch(s2.actions.add(t)) }) })("x-a", (a) => { // OK command-actor-typed
  const f: string | null = a.f; // OK derived-typed
  const f2: string = a.f; // ERR derived-typed
  const t: string = a.state.todo.items[0].text; // OK state-typed
  a.state.items; // ERR state-typed
  a.send(s2.actions.add("x")); // OK send-typed
  a.send({ type: "todo/add", payload: { id: 1, text: "x" } }); // OK send-typed
  a.send({ type: "todo/add", payload: { id: 1 } }); // ERR send-typed
  a.send({ type: "todo/add", payload: "x" }); // ERR send-typed
  a.send({ type: "todo/add" }); // ERR send-typed
  a.send({ type: "todo/filter" }); // OK send-typed
  a.send({ type: "todo/filter", payload: "x" }); // OK send-typed
  a.send({ type: "todo/filter", payload: 5 }); // ERR send-typed
  a.send({ type: "todo/clear" }); // OK send-typed
  a.send({ type: "ui/toggle" }); // ERR send-typed
  return null;
});
${['many', 'many()', 'nested'].map((src) => `${f}({ source: ${src}, // OK valid-program-accepted
  states: (s) => ({ n: s.todo.items.length, open: s.ui.open }), // OK snapshot-typed
  commands: ({ actor }) => ({ add: (t: string) => actor.dispatch(s2.actions.add(t)), both: () => actor.getState().ui.open }) })("x-a", (a) => { // OK command-actor-typed
  const o: boolean = a.open; // OK derived-typed
  const o2: boolean = a.state.ui.open; // OK state-typed
  const o3: boolean = a.both(); // OK commands-typed
  a.state.ui.nope; // ERR state-typed
  a.state.other; // ERR state-typed
  a.send(other.actions.toggle()); // OK send-typed
  a.send(s2.actions.add("x")); // OK send-typed
  a.send(s2.actions.add(5)); // ERR send-typed
  return null;
});`).join('\n')}`).join('\n')}
${['igniteCore', 'mx'].map((f) => ['plain', '() => plain'].map((src) => `${f}({ source: ${src}, // OK valid-program-accepted
  states: (s) => ({ n: s.list.length }), // OK snapshot-typed
  commands: ({ actor }) => ({ add: (t: string) => actor.add(t, 1), load: () => actor.load() }) })("x-a", (a) => { // OK command-actor-typed
  const n: number = a.n; // OK derived-typed
  const l: string[] = a.state.list; // OK state-typed
  a.state.nope; // ERR state-typed
  const p: Promise<number> = a.load(); // OK commands-typed
  a.send({ type: "add", args: ["x", 1] }); // OK send-typed
  a.send({ type: "add", args: ["x"] }); // ERR send-typed
  a.send({ type: "add", args: [1, "x"] }); // ERR send-typed
  a.send({ type: "add" }); // ERR send-typed
  a.send({ type: "load" }); // OK send-typed
  a.send({ type: "list" }); // ERR send-typed
  return null;
});`).join('\n')).join('\n')}
export {};`;
  files['render-args-type.ts'] = `import type { RenderArgs } from "../RenderArgs";
${PRE.xstate}
${PRE.redux}
${PRE.mobx}
${IS}
const st = (s: { counter: { count: number } }) => ({ double: s.counter.count * 2 });
const cm = (c: { actor: unknown }) => ({ add: (n: number) => n });
type S = RenderArgs<typeof slice>;
type F = RenderArgs<typeof slice, typeof st, typeof cm>;
yes<Is<S["state"]["counter"]["count"], number>>(); // OK state-typed
yes<Is<F["double"], number>>(); // OK derived-typed
yes<Is<F["add"], (n: number) => number>>(); // OK commands-typed
type X0 = S["double"]; // ERR unknown-argument-rejected
type X1 = F["nope"]; // ERR unknown-argument-rejected
type M = RenderArgs<typeof machine>;
yes<Is<M["state"]["context"]["count"], number>>(); // OK state-typed
yes<Is<M["state"]["count"], number>>(); // OK state-typed
yes<Is<Parameters<M["send"]>[0], { type: "INC"; by: number } | { type: "RESET" }>>(); // OK send-typed
type X2 = M["nope"]; // ERR unknown-argument-rejected
type T = RenderArgs<typeof store>;
yes<Is<T["state"]["counter"]["count"], number>>(); // OK state-typed
type TF = RenderArgs<typeof makeStore>;
yes<Is<TF["state"]["counter"]["count"], number>>(); // OK state-typed
type O = RenderArgs<typeof observable>;
yes<Is<O["state"]["count"], number>>(); // OK state-typed
type OF = RenderArgs<typeof makeObservable>;
yes<Is<OF["state"]["count"], number>>(); // OK state-typed
yes<Is<Parameters<OF["send"]>[0]["type"], "inc" | "reset">>(); // OK send-typed
export {};`;
  return files;
}
/** configuration, renderers, views, custom adapters and strategies */
function setupWitnesses() {
  const files = {};
  files['config.ts'] = `import { defineIgniteConfig, getIgniteConfig, setGlobalStyles, loadIgniteConfig } from "../index";
import type { IgniteConfig } from "../index";
import { igniteConfigVitePlugin } from "../config/vite";
import { IgniteConfigWebpackPlugin } from "../config/webpack";
defineIgniteConfig({}); // OK config-typed
defineIgniteConfig({ styles: "./theme.css", renderer: "lit", strategy: "diff", logging: "warn" }); // OK config-typed
defineIgniteConfig({ renderer: "ignite-jsx", strategy: "replace", logging: "debug" }); // OK config-typed
defineIgniteConfig({ logging: "off" }); // OK config-typed
defineIgniteConfig({ globalStyles: "./theme.css" }); // OK config-typed
defineIgniteConfig({ styles: { href: "./theme.css" } }); // OK config-typed
defineIgniteConfig({ styles: { href: "./theme.css", integrity: "sha", crossOrigin: "anonymous" } }); // OK config-typed
defineIgniteConfig(); // ERR config-typed
defineIgniteConfig(null); // ERR config-typed
defineIgniteConfig("x"); // ERR config-typed
defineIgniteConfig({ renderer: "react" }); // ERR renderer-typed
defineIgniteConfig({ renderer: "jsx" }); // ERR renderer-typed
defineIgniteConfig({ renderer: "" }); // ERR renderer-typed
defineIgniteConfig({ renderer: null }); // ERR renderer-typed
defineIgniteConfig({ renderer: "lit" as string }); // ERR renderer-typed
defineIgniteConfig({ styles: ["./a.css"] }); // ERR styles-typed
defineIgniteConfig({ styles: [] }); // ERR styles-typed
defineIgniteConfig({ styles: {} }); // ERR styles-typed
defineIgniteConfig({ styles: { path: "./a.css" } }); // ERR styles-typed
defineIgniteConfig({ styles: { href: 5 } }); // ERR styles-typed
defineIgniteConfig({ styles: { href: "./a.css", integrity: 5 } }); // ERR styles-typed
defineIgniteConfig({ styles: { href: "./a.css", crossOrigin: true } }); // ERR styles-typed
defineIgniteConfig({ styles: { href: "./a.css", media: "print" } }); // ERR styles-typed
defineIgniteConfig({ styles: null }); // ERR styles-typed
defineIgniteConfig({ styles: 5 }); // ERR styles-typed
defineIgniteConfig({ globalStyles: ["./a.css"] }); // ERR styles-typed
defineIgniteConfig({ strategy: 5 }); // ERR config-typed
defineIgniteConfig({ logging: true }); // ERR config-typed
defineIgniteConfig({ style: "./a.css" }); // ERR unknown-option-rejected
defineIgniteConfig({ theme: "dark" }); // ERR unknown-option-rejected
setGlobalStyles("./a.css"); // OK styles-typed
setGlobalStyles({ href: "./a.css" }); // OK styles-typed
setGlobalStyles(undefined); // OK styles-typed
setGlobalStyles(["./a.css"]); // ERR styles-typed
setGlobalStyles({ integrity: "x" }); // ERR styles-typed
setGlobalStyles(5); // ERR styles-typed
setGlobalStyles(null); // ERR styles-typed
const c = getIgniteConfig();
c.renderer; // ERR config-may-be-absent
c?.renderer; // OK config-typed
c?.theme; // ERR unknown-option-rejected
const r: IgniteConfig = defineIgniteConfig({}); // OK config-typed
loadIgniteConfig(() => Promise.resolve({ default: r })); // OK config-typed
loadIgniteConfig(() => Promise.resolve(r)); // OK config-typed
loadIgniteConfig(async () => ({ default: defineIgniteConfig({}) })); // OK config-typed
loadIgniteConfig(r); // ERR config-typed
loadIgniteConfig(() => r); // ERR config-typed
loadIgniteConfig("./ignite.config.ts"); // ERR config-typed
loadIgniteConfig(() => Promise.resolve({ default: { renderer: "react" as const } })); // ERR renderer-typed
loadIgniteConfig(r).then; // ERR config-typed
igniteConfigVitePlugin(); // OK plugin-options-typed
igniteConfigVitePlugin({}); // OK plugin-options-typed
igniteConfigVitePlugin({ configPath: "./x.ts", root: "/r", injectTo: "body" }); // OK plugin-options-typed
igniteConfigVitePlugin({ injectTo: "head" }); // OK plugin-options-typed
igniteConfigVitePlugin({ injectTo: "head-prepend" }); // OK plugin-options-typed
igniteConfigVitePlugin({ injectTo: "body-prepend" }); // OK plugin-options-typed
igniteConfigVitePlugin({ injectTo: "footer" }); // ERR plugin-options-typed
igniteConfigVitePlugin({ injectTo: "head" as string }); // ERR plugin-options-typed
igniteConfigVitePlugin({ configPath: 5 }); // ERR plugin-options-typed
igniteConfigVitePlugin({ configPath: ["./x.ts"] }); // ERR plugin-options-typed
igniteConfigVitePlugin({ root: true }); // ERR plugin-options-typed
igniteConfigVitePlugin({ config: "./x.ts" }); // ERR plugin-options-typed
new IgniteConfigWebpackPlugin(); // OK plugin-options-typed
new IgniteConfigWebpackPlugin({ configPath: "./x.ts" }); // OK plugin-options-typed
new IgniteConfigWebpackPlugin({ configPath: 5 }); // ERR plugin-options-typed
new IgniteConfigWebpackPlugin({ path: "./x.ts" }); // ERR plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ context: "/r", options: {} }); // OK plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ context: "/r", options: { entry: "./a.js" } }); // OK plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ context: "/r", options: { entry: ["./a.js"] } }); // OK plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ context: "/r", options: { entry: { a: "./a.js", b: { import: ["./b.js"], dependOn: "a" } } } }); // OK plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ context: "/r", options: { entry: () => "./a.js", mode: "production" } }); // OK plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ context: "/r", options: { entry: async () => ({ a: "./a.js" }) } }); // OK plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ context: "/r", options: { entry: 5 } }); // ERR plugin-options-typed
new IgniteConfigWebpackPlugin().apply({ options: {} }); // ERR plugin-options-typed
export {};`;
  const views = (define) => `
${define}() => "text"); // OK view-typed
${define}() => 5); // OK view-typed
${define}() => null); // OK view-typed
${define}() => undefined); // OK view-typed
${define}() => false); // OK view-typed
${define}() => jsx("p", { children: "x", onClick: () => {} })); // OK view-typed
${define}() => [jsx("p", null), "x", 5, null, [jsx("b", {})]]); // OK view-typed
${define}() => jsx(Fragment, { children: ["a", "b"] })); // OK view-typed
${define}() => html\`<p></p>\`); // OK view-typed
${define}() => ({})); // ERR view-typed
${define}() => ({ type: "p" })); // ERR view-typed
${define}() => new Date()); // ERR view-typed
${define}() => Symbol("x")); // ERR view-typed
${define}() => () => "x"); // ERR view-typed
${define}async () => "x"); // ERR view-typed
${define}() => [{}]); // ERR view-typed
${define}() => document.createElement("p")); // ERR view-typed
${define}{ render: () => "x" }); // OK renderer-form-typed
${define}class { render() { return "x"; } }); // OK renderer-form-typed
${define}{}); // ERR renderer-form-typed
${define}{ render: "x" }); // ERR renderer-form-typed
${define}{ draw: () => "x" }); // ERR renderer-form-typed
${define}class { draw() { return "x"; } }); // ERR renderer-form-typed
${define}class { constructor(x: number) { void x; } render() { return "x"; } }); // ERR renderer-form-typed
${define}{ render: () => ({}) }); // ERR view-typed
${define}class { render() { return {}; } }); // ERR view-typed
${define}"x"); // ERR renderer-form-typed
${define}null); // ERR renderer-form-typed
${define}(a: { missing: string }) => a.missing); // ERR renderer-form-typed
`.trim();
  for (const [k, K] of Object.entries(KINDS)) files[`views-${k}.ts`] = `import { igniteCore } from "../IgniteCore";
import { jsx, Fragment } from "../jsx";
import { html } from "lit-html";
${PRE[K.lib]}
const component = igniteCore({ source: ${K.source} });
component("x-a"); // ERR renderer-form-typed
component(5, () => "x"); // ERR renderer-form-typed
component(() => "x"); // ERR renderer-form-typed
${views('component("x-a", ')}
export {};`;
  files['jsx.ts'] = `import { jsx, jsxs, jsxDEV, Fragment } from "../jsx";
import type { IgniteJsxElement, IgniteJsxChild } from "../jsx";
${['jsx', 'jsxs', 'jsxDEV'].map((f) => `${f}("p", {}); // OK jsx-typed
${f}("p", null); // OK jsx-typed
${f}("p", { class: "a", style: { color: "red" }, onClick: () => {}, children: ["a", 1, null, undefined, true, [${f}("b", {})]] }, "k"); // OK jsx-typed
${f}("p", {}, 5); // OK jsx-typed
${f}("p", {}, null); // OK jsx-typed
${f}("p", {}, undefined); // OK jsx-typed
${f}(Fragment, { children: "x" }); // OK jsx-typed
${f}((props) => props.children, {}); // OK jsx-typed
${f}(() => null, {}); // OK jsx-typed
${f}(5, {}); // ERR jsx-typed
${f}(null, {}); // ERR jsx-typed
${f}({}, {}); // ERR jsx-typed
${f}(Symbol("other"), {}); // ERR jsx-typed
${f}(() => ({}), {}); // ERR jsx-typed
${f}("p", "x"); // ERR jsx-typed
${f}("p", 5); // ERR jsx-typed
${f}("p", {}, {}); // ERR jsx-typed
${f}("p", {}, true); // ERR jsx-typed
${f}("p", { children: {} }); // ERR children-typed
${f}("p", { children: [{}] }); // ERR children-typed
${f}("p", { children: () => "x" }); // ERR children-typed
${f}("p", { children: Symbol("x") }); // ERR children-typed
${f}("p", { children: new Date() }); // ERR children-typed
const e_${f}: IgniteJsxElement = ${f}("p", {}); // OK jsx-typed
const c_${f}: IgniteJsxChild = ${f}("p", {}); // OK jsx-typed
const s_${f}: string = ${f}("p", {}); // ERR jsx-typed`).join('\n')}
export {};`;
  files['views.tsx'] = `import { igniteCore } from "../IgniteCore";
import { Fragment } from "../jsx";
import type { IgniteJsxChild, IgniteJsxElement } from "../jsx";
${PRE.xstate}
const component = igniteCore({ source: machine });
const Greeting = (p: { name: string; times?: number; children?: IgniteJsxChild }) => <b>{p.name}{p.children}</b>; // OK tsx-typed
const Bad = () => ({});
const e1: IgniteJsxElement = <p class="a" onClick={() => {}} style={{ color: "red" }} data-x={1}>text {5} {null} {false}</p>; // OK tsx-typed
const e2 = <x-child some-prop={[1]} />; // OK tsx-typed
const e3 = <Greeting name="a" />; // OK tsx-typed
const e4 = <Greeting name="a" times={2} key="k">text</Greeting>; // OK tsx-typed
const e5 = <Greeting name="a" key={5} />; // OK tsx-typed
const e6 = <Greeting name="a" key={null} />; // OK tsx-typed
const e7 = <Greeting />; // ERR component-props-typed
const e8 = <Greeting name={5} />; // ERR component-props-typed
const e9 = <Greeting name="a" times="2" />; // ERR component-props-typed
const e10 = <Greeting name="a" other="x" />; // ERR component-props-typed
const e11 = <Greeting name="a" key={{}} />; // ERR key-typed
const e12 = <Greeting name="a" key={true} />; // ERR key-typed
const e13 = <Bad />; // ERR tsx-typed
const e14: string = <p />; // ERR tsx-typed
const e15 = <Missing />; // ERR tsx-typed
component("x-a", ({ state, send }) => <p onClick={() => send({ type: "RESET" })}>{state.count}</p>); // OK tsx-typed
component("x-b", ({ state }) => <p>{state.nope}</p>); // ERR tsx-typed
component("x-c", ({ send }) => <p onClick={() => send({ type: "NOPE" })} />); // ERR tsx-typed
component("x-d", class { render() { return <p />; } }); // OK tsx-typed
component("x-e", { render: () => [<p />, <b />] }); // OK tsx-typed
void [e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, Fragment];
export {};`;
  files['factory.ts'] = `import { igniteElementFactory, registerRenderStrategy, StateScope, event } from "../index";
import type IgniteAdapter from "../IgniteAdapter";
import { createLitRenderStrategy } from "../renderers/lit";
import { createIgniteJsxRenderStrategy } from "../renderers/ignite-jsx";
declare const make: () => IgniteAdapter<{ count: number }, { type: "inc"; by: number }>;
const component = igniteElementFactory(make); // OK adapter-typed
component("x-a", (args) => {
  const n: number = args.state.count; // OK adapter-typed
  const s: string = args.state.count; // ERR adapter-typed
  args.state.nope; // ERR adapter-typed
  args.send({ type: "inc", by: 1 }); // OK adapter-typed
  args.send({ type: "inc" }); // ERR adapter-typed
  args.send({ type: "dec", by: 1 }); // ERR adapter-typed
  args.send("inc"); // ERR adapter-typed
  args.send(); // ERR adapter-typed
  args.nope; // ERR adapter-typed
  return String(n) + s;
});
igniteElementFactory(make, { scope: StateScope.Shared, cleanup: false }); // OK adapter-typed
igniteElementFactory(make, { scope: StateScope.Isolated }); // OK adapter-typed
igniteElementFactory(make, { createRenderStrategy: createIgniteJsxRenderStrategy }); // OK strategy-typed
igniteElementFactory(make, { createRenderStrategy: createLitRenderStrategy }); // OK strategy-typed
igniteElementFactory(make, { scope: "global" }); // ERR adapter-typed
igniteElementFactory(make, { cleanup: "yes" }); // ERR adapter-typed
igniteElementFactory(make, { shared: true }); // ERR adapter-typed
igniteElementFactory(make()); // ERR adapter-typed
igniteElementFactory(); // ERR adapter-typed
igniteElementFactory(() => ({})); // ERR adapter-typed
igniteElementFactory(() => ({ subscribe: () => ({ unsubscribe: () => {} }), send: () => {}, getState: () => 1 })); // ERR adapter-typed
igniteElementFactory(() => ({ subscribe: () => {}, send: () => {}, getState: () => 1, stop: () => {} })); // ERR adapter-typed
igniteElementFactory(() => ({ subscribe: () => ({ unsubscribe: () => {} }), send: () => {}, getState: () => 1, stop: () => {} })); // OK adapter-typed
igniteElementFactory(make, { createRenderStrategy: () => ({ render: () => {} }) }); // ERR strategy-typed
igniteElementFactory(make, { createRenderStrategy: () => ({ attach: () => {} }) }); // ERR strategy-typed
igniteElementFactory(make, { createRenderStrategy: () => ({ attach: () => {}, render: () => {} }) }); // OK strategy-typed
igniteElementFactory(make, { createRenderStrategy: createIgniteJsxRenderStrategy() }); // ERR strategy-typed
registerRenderStrategy("mine", () => ({ attach: () => {}, render: () => {} })); // OK strategy-typed
registerRenderStrategy("lit", createLitRenderStrategy as never); // OK strategy-typed
registerRenderStrategy("mine", { attach: () => {}, render: () => {} }); // ERR strategy-typed
registerRenderStrategy("mine", () => ({ attach: () => {} })); // ERR strategy-typed
registerRenderStrategy("mine"); // ERR strategy-typed
registerRenderStrategy(5, () => ({ attach: () => {}, render: () => {} })); // ERR strategy-typed
void event;
export {};`;
  return files;
}
export function runTypes(id, cx) {
  if (id === 'C34') cx.rule('configuration, plugins, renderers, views, custom adapters', (r) => checkWitnesses(r, setupWitnesses()));
  else if (id === 'C25') cx.rule('emit: declared events and payloads', (r) => checkWitnesses(r, emitWitnesses()));
  else cx.rule('render arguments, command actors, adapter names', (r) => checkWitnesses(r, argWitnesses()));
}

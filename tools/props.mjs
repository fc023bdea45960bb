// Writes /verif/properties.jsonl (one property per line). Run: node tools/props.mjs
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
const P = [];
const p = (id, title, statement, over, text, why, files, mechanism, observe, state) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, ...(state ? { state } : {}), mechanism: mechanism.map(([name, where]) => ({ name, where })), observe_at: observe, hook_needed: null } });
const AD = ['src/adapters/XStateAdapter.ts', 'src/adapters/ReduxAdapter.ts', 'src/adapters/MobxAdapter.ts'];
p('C01', 'A stopped adapter is inert',
  'From the moment stop() is called on an adapter (XState, Redux or MobX), no listener is ever called again, no event sent through the adapter reaches the state source, getState() keeps returning the state as it was when it was stopped, and a new subscribe() never delivers anything. Stopping twice has no further effect. This also holds when stop() is called from inside a listener, during a dispatch or during the first delivery to a new subscriber.',
  ['histories', 'schedules'], 'all sequences of subscribe/unsubscribe/send/external source change/stop, including ones issued re-entrantly from a listener, for every source shape of every adapter',
  'The unit tests run a few straight-line sequences; they never stop an adapter from inside a delivery or keep changing the source in every order afterwards.',
  AD, [['stop flags and captured last state', 'the three createXxxAdapter factories']], ['listener calls', 'source.send/dispatch/method calls', 'getState()']);
p('C02', 'Every subscriber sees the current state and every later change',
  'A listener passed to subscribe() is called at once with the current state (once, also when it is subscribed from inside another delivery), then exactly once with the new state for every later change of the source, even one made during that first call, while it is subscribed, whichever adapter is used and however many listeners there are. It is never called after its unsubscribe(), even when unsubscribe() happens during a delivery, and one listener unsubscribing never costs another listener a delivery.',
  ['histories', 'schedules'], 'all interleavings of up to three listeners subscribing, unsubscribing (also re-entrantly) and of state changes',
  'Tests sample one or two listeners in one order; the guarantee is about every interleaving, including unsubscription during a delivery.',
  AD, [['listener bookkeeping and initial notification', 'subscribe() of each adapter']], ['listener calls and their argument']);
p('C03', 'Adapters never leak subscriptions on the state source',
  'An adapter holds no more subscriptions (actor subscriptions, store subscriptions or reactions) on its source than it has subscribers, holds none when nobody is subscribed to it, and holds none once it is stopped. This is so in every reachable history, including stop() or unsubscribe() called from inside the first delivery.',
  ['histories', 'schedules'], 'all reachable adapter states of every source shape',
  'Leaks do not change any value a test looks at; they show only in particular interleavings.',
  AD, [['source subscription kept while there are listeners', 'subscribe/unsubscribe/stop of each adapter']], ['live subscriptions registered on the source']);
p('C04', 'Adapters only stop the sources they created',
  'An actor, store or observable handed in by the user is never stopped, disposed or modified by an adapter, whatever happens to the adapter. An actor the adapter creates from a machine is started before it is used and stopped exactly once, when the adapter is stopped.',
  ['histories'], 'all histories of adapter operations over every kind of source',
  'Tests check one stop() per adapter; ownership must hold along every history.',
  AD, [['ownership decided per source kind', 'factory branch of each adapter']], ['actor.start/stop calls', 'calls on user-supplied sources']);
p('C05', 'Shared and isolated scope are kept apart',
  'Adapters built from a live source (started actor, store, observable) report the shared scope and all observe that one source; adapters built from a blueprint (machine, slice, factory function) report the isolated scope and each get a source of their own, created once per adapter. The snapshot and command-actor resolvers always answer for the very adapter they are given.',
  ['histories', 'inputs'], 'all source kinds and all histories over two adapters made from one factory',
  'Tests create one adapter per case; mixing up two live adapters of the same factory stays invisible.',
  AD, [['scope tag, per-adapter closures, resolver lookup', 'factories of each adapter']], ['factory.scope, adapter.scope', 'resolveStateSnapshot/resolveCommandActor results']);
p('C06', 'Events reach the source exactly once and unmodified',
  'Every event sent through a running adapter is delivered to that adapter’s own source exactly once, as the same value: as an event for XState, as an action for Redux (action objects as they are), as a call of the named method with the given payload for MobX. A state read straight after the send already shows its effect, and sending is not affected by whether anyone is subscribed.',
  ['histories', 'inputs'], 'all events and all histories in which they can be sent',
  'Tests send a handful of well-formed events in one adapter state.',
  AD, [['send()', 'each adapter']], ['calls that reach the source', 'getState() after send()']);
const EL = ['src/IgniteElement.ts', 'src/IgniteElementFactory.ts'];
p('C07', 'A connected element always shows the current state',
  'Connecting an element renders it exactly once with the current state (whatever that state is, including falsy values), and while it stays connected every state change renders it exactly once with the new state; an element that is reconnected while its adapter still runs behaves like a newly connected one. Nothing is rendered before the first connection. A renderer may be a function, an object with a render method (keeping its own this) or a class with a render method (instantiated per isolated element); anything else is rejected.',
  ['histories', 'inputs', 'schedules'], 'all histories of create/connect/disconnect/change over two elements, also when elements are disconnected from inside a render',
  'Tests drive one element through one mount/unmount cycle with truthy states.',
  EL, [['subscription that renders when active', 'IgniteElement'], ['renderer resolution', 'igniteElementFactory']], ['calls of the renderer and of the render strategy']);
p('C08', 'A disconnected element is inert',
  'After an element has been disconnected it renders nothing, not even through forceRender(), sends nothing to its adapter (neither send events dispatched on it nor a send function kept from an earlier render), and holds neither a subscription nor a send listener. Disconnecting an isolated element stops its adapter exactly once.',
  ['histories', 'schedules'], 'all histories, including disconnection from inside a render or a notification',
  'Tests check a single disconnect at rest.',
  EL, [['active flag, unsubscribe, listener removal, adapter stop', 'IgniteElement.disconnectedCallback']], ['renders, adapter sends, live subscriptions and listeners after disconnect']);
p('C09', 'Shared adapters live exactly as long as someone uses them',
  'All elements of a shared component (also under several tag names) use one adapter; it is stopped exactly once, when the last connected element is disconnected, never while another element is connected, and never at all when cleanup is disabled; an element created after that asks the adapter factory anew. Each isolated element has an adapter of its own that is never shared.',
  ['histories', 'configurations'], 'all connect/disconnect orders of the elements of one component, for both scopes and cleanup settings',
  'Reference counting goes wrong only for particular orders of connect and disconnect.',
  EL, [['instance count and release', 'igniteElementFactory']], ['adapter.stop calls', 'which adapter each element uses']);
p('C10', 'Events sent on an element reach its own adapter once',
  'A "send" event dispatched on a connected element, or a call of the send function given to its renderer, forwards the event (its detail, for a CustomEvent with a detail) to that element’s own adapter exactly once; reconnecting does not multiply deliveries, other event types are ignored and no other element’s adapter is touched.',
  ['histories', 'inputs'], 'all histories of two elements and all events',
  'Tests send one event after one connect.',
  EL, [['send listener and send()', 'IgniteElement']], ['adapter.send calls']);
const FA = ['src/createComponentFactory.ts', 'src/IgniteElementFactory.ts', 'src/RenderArgs.ts'];
p('C11', 'Derived states are always computed from the latest snapshot',
  'Every value a component’s states callback exposes is, at each render, the value computed from the current snapshot of that element’s own adapter, never a cached one. state and send given to the renderer are always the real ones, even if states, commands or additional arguments use the same names; additional arguments, states and commands all reach the renderer, and a states/commands callback that does not return a plain object (or a command that is not a function) is rejected with an error.',
  ['histories', 'inputs'], 'all snapshots, all histories of changes, any number of elements',
  'Tests read derived values once, right after creation.',
  FA, [['read-through getters and merge order', 'createComponentFactoryWithRenderer'], ['spread order of render arguments', 'igniteElementFactory']], ['renderer arguments at every render']);
p('C12', 'Commands and emit act for their own element',
  'The commands callback receives the actor of the element’s own adapter, the element itself as host and an emit function; emit dispatches on that host exactly one CustomEvent of the given type with the given detail that bubbles and crosses shadow boundaries. Outside production, emitting a type that is not declared in the events map throws and dispatches nothing (also for names such as "toString"); declared types always go through, and in production every type does.',
  ['inputs', 'configurations'], 'all event names and payloads, both environments, several elements of one component',
  'Tests emit one declared and one undeclared name on one element.',
  FA, [['command context and emit', 'createComponentFactoryWithRenderer']], ['events dispatched on the host', 'arguments of the commands callback']);
p('C13', 'igniteCore picks the right adapter and forwards every option',
  'igniteCore chooses the adapter for its source: machines and actors use XState, stores and slices Redux, observables MobX, functions by what they return, an explicit adapter always wins, and an unrecognised source or adapter name is rejected with an error. The source, states, commands, events and cleanup options reach the component unchanged for every adapter and source kind, and a component without a source renders a static state.',
  ['inputs', 'configurations'], 'all source shapes × all option subsets × both ways of naming the adapter',
  'The option matrix is sampled sparsely; a dropped option in one branch goes unnoticed.',
  ['src/IgniteCore.ts', 'src/igniteCore/xstate.ts', 'src/igniteCore/redux.ts', 'src/igniteCore/mobx.ts', 'src/utils/adapterGuards.ts', 'src/utils/mobxGuards.ts'], [['adapter inference', 'igniteCore'], ['option forwarding', 'igniteCoreXState/Redux/Mobx']], ['which adapter runs, what reaches the renderer']);
const RE = ['src/renderers/jsx/renderer.ts', 'src/renderers/jsx/IgniteJsxRenderStrategy.ts', 'src/renderers/jsx/types.ts'];
p('C14', 'Re-rendering converges to the same DOM as a fresh render',
  'After any sequence of renders the Ignite JSX renderer leaves exactly the node structure (elements, their order and nesting, text) that a fresh render of the last view would produce; nothing of earlier views survives, not even after a render that threw. Strings and numbers always become text, never markup; null, undefined and booleans render nothing visible; fragments, arrays and function components contribute their children in order.',
  ['inputs', 'histories'], 'all pairs (and sequences) of views: any child kinds, counts and nesting',
  'Tests diff a few chosen pairs of views.',
  RE, [['normalisation, append-only compatibility, patching and fallback replace', 'renderIgniteJsx and friends']], ['DOM under the content root']);
p('C15', 'Re-rendering converges attributes, styles and listeners',
  'After a re-render every element carries exactly the attributes, properties, class, style declarations and event listeners a fresh render of the last view would give it: changed ones updated, dropped or nullish/false ones removed, no stale handler ever called and no handler attached twice. children and ref never appear as attributes.',
  ['inputs', 'histories'], 'all pairs of prop objects over the kinds of keys and values the renderer distinguishes',
  'Tests check single-prop transitions; combinations and value kinds are unbounded.',
  RE, [['patchProps/patchStyle/patchEventListener/removeProp', 'renderer.ts']], ['attributes, properties, style, listeners of the DOM nodes']);
p('C16', 'Diffing keeps DOM nodes; opting out replaces them',
  'In diff mode, when the new view has the same shape as the previous one or only appends children, existing DOM nodes are kept (same node objects, never taken out of the document and put back) and only text and properties change, even on many successive renders. With the replace strategy, the diff flag disabled, or a host opted out before its first render (nodiff/hydrated attribute, denylisted tag), every render rebuilds the nodes; an element whose own tag is denylisted is rebuilt while its siblings are kept.',
  ['inputs', 'configurations'], 'all same-shape or append-only view pairs × all opt-out settings',
  'Tests check identity for a few views and one setting at a time.',
  [...RE, 'src/renderers/jsx/noDiffDenylist.ts'], [['patch in place', 'renderIgniteJsx'], ['mode selection', 'IgniteJsxRenderStrategy']], ['identity of DOM nodes before and after']);
p('C17', 'SVG, slots and unknown children are rendered correctly',
  'svg elements and their descendants are created in the SVG namespace with SVG attribute names (camelCase names become kebab-case except those SVG itself spells in camelCase), except content of foreignObject, which is HTML again. slot elements never get rendered children, values that are no valid child never throw, and event prop names map to the kebab-case DOM event name (onMyEvent to my-event), the same when a listener is attached and removed.',
  ['inputs'], 'all nestings of svg/foreignObject/HTML/slot and all child values',
  'Tests cover one svg sample.',
  RE, [['namespace propagation', 'renderer.ts']], ['namespaceURI and attribute names of created nodes']);
p('C18', 'Global styles are injected exactly once per shadow root',
  'Every shadow root an element renders into gets exactly one stylesheet link for the configured global styles (href, and integrity/crossOrigin when given), however often it is attached or flushed, even if the styles are configured again. If styles are configured only later, roots attached before get the link when pending styles are flushed (as loading the config does); a style string that is not a stylesheet path injects nothing, and array styles are rejected.',
  ['histories', 'inputs'], 'all orders of setting styles, attaching roots and flushing',
  'Tests attach one root after the styles are set.',
  ['src/injectStyles.ts', 'src/globalStyles.ts', 'src/renderers/jsx/IgniteJsxRenderStrategy.ts', 'src/renderers/LitRenderStrategy.ts'], [['initialized and pending roots', 'injectStyles/flushPendingStyles']], ['link elements in the shadow root']);
p('C19', 'Configuration is normalised and published the same way everywhere',
  'defineIgniteConfig returns and publishes process-wide one normalised configuration: styles (or, if absent, the deprecated globalStyles, with a warning), a supported renderer or the lit fallback with a warning, strategy and logging as given, and nothing else; it never modifies its argument and applies styles globally. Loading a config accepts a module with a default export or a bare config object, ignores anything else, applies it, flushes pending styles and loads the renderer it names (Ignite JSX by default) before it resolves; on a server it loads no renderer.',
  ['inputs', 'configurations'], 'all config objects and module shapes, browser and server',
  'Tests sample a few configs.',
  ['src/config.ts', 'src/config/loadIgniteConfig.ts'], [['normalizeConfig/defineIgniteConfig', 'config.ts'], ['loadIgniteConfig', 'loadIgniteConfig.ts']], ['returned and published config, global styles, loaded modules']);
p('C20', 'The configured renderer is used, with a safe fallback',
  'A component uses the render strategy of the renderer configured when the component factory is created (Ignite JSX if none is configured), or an explicitly supplied strategy, which always wins; each element gets a strategy instance of its own. If a configured renderer other than Ignite JSX was never registered, Ignite JSX (or else any registered strategy) is used with a warning naming the configured one; if Ignite JSX itself is not registered, any registered strategy is used. With none registered creating the factory fails with an error; the registry is shared by all copies of the library on the page.',
  ['configurations', 'histories'], 'all registries and configurations',
  'Tests set up two or three registry states.',
  ['src/renderers/resolveConfiguredRenderStrategy.ts', 'src/IgniteElementFactory.ts', 'src/renderers/lit.ts', 'src/renderers/ignite-jsx.ts'], [['registry lookup and fallback', 'resolveConfiguredRenderStrategy']], ['which factory creates the strategy']);
p('C21', 'The webpack plugin prepends the config to every entry',
  'With a config file present the webpack plugin makes the config loader the first module of every entry point, whatever form the entry takes (string, array, descriptor, named entries, function, none), keeps everything else of each entry (a function entry is still asked on every build), never adds it twice and never modifies the user’s own objects. Without a config file the compiler options are left untouched.',
  ['inputs', 'configurations'], 'all entry shapes, including nested promises of entries',
  'Tests cover one value per shape.',
  ['src/plugins/webpackIgniteConfigPlugin.ts', 'src/plugins/configFile.ts'], [['applyConfigToEntry/prependConfig', 'webpackIgniteConfigPlugin.ts']], ['compiler.options.entry']);
p('C22', 'The Vite plugin finds and loads the right config file',
  'An explicitly given config path is used if that file exists (relative to the root unless absolute) and nothing else is tried; otherwise the first existing default file in the documented order is used. The injected module script imports exactly that file by a specifier the browser can load (root-relative "./…" inside the root, /@fs/ outside), at the requested position (head-prepend by default), and nothing is injected when no file is found; an explicit root option wins over Vite’s.',
  ['inputs', 'configurations'], 'all option combinations, existence patterns of the candidate files and path relations',
  'Tests use a few temp directories.',
  ['src/plugins/configFile.ts', 'src/plugins/viteIgniteConfigPlugin.ts'], [['resolveConfigFile', 'configFile.ts'], ['specifier and tag construction', 'viteIgniteConfigPlugin.ts']], ['returned tags', 'resolved path']);
p('C23', 'Every entry point can be imported without a DOM',
  'Importing any entry point of the package, and defining components with it, works in a runtime without HTMLElement, customElements, document or window: module evaluation never touches a missing browser global. The fallback never replaces globals that exist.',
  ['configurations', 'programs'], 'all entry points × presence or absence of each browser global',
  'Tests run in jsdom, where the globals exist.',
  ['src/internal/setupDomPolyfill.ts', 'src/index.ts', 'src/xstate.ts', 'src/redux.ts', 'src/mobx.ts', 'src/renderers/lit.ts', 'src/renderers/ignite-jsx.ts'], [['polyfill imported before any class extends HTMLElement', 'entry modules']], ['module evaluation']);
p('C24', 'Entry points pull in only the libraries they need',
  'The XState, Redux, MobX and renderer entry points load no optional peer library other than their own: at run time the xstate entry reaches neither Redux nor MobX, the redux entry neither XState nor MobX, the mobx entry neither XState nor Redux, and the Ignite JSX renderer and JSX runtime do not reach lit. Every entry of package.json is backed by a source module the build emits.',
  ['programs', 'configurations'], 'the transitive static import graph of every entry point',
  'With all peers installed in the test environment an extra import is invisible.',
  ['package.json', 'vite.config.ts', 'src/xstate.ts', 'src/redux.ts', 'src/mobx.ts', 'src/renderers/ignite-jsx.ts', 'src/jsx/jsx-runtime.ts'], [['separate entry modules', 'src/*.ts']], ['static import graph']);
p('C25', 'The types reject undeclared events and wrong payloads',
  'For every component whose events map is declared, a call of emit type-checks exactly when the event is declared and the payload has the declared type (and is omitted only when the event has none); this holds for the XState, Redux and MobX variants of igniteCore and through inference, without type arguments.',
  ['programs'], 'all well-typed and ill-typed uses of emit',
  'The test run does not type-check, so a widened type passes every test.',
  ['src/RenderArgs.ts', 'src/IgniteCore.ts', 'src/igniteCore/types.ts', 'src/events.ts'], [['EmitFromEvents and EventsDefinition', 'RenderArgs.ts, igniteCore/types.ts']], ['tsc diagnostics']);
p('C26', 'The types give renderers the real state, send, states and commands',
  'The render arguments igniteCore infers expose exactly state, send, the derived states and the commands with their precise types: send accepts only events of the source, unknown arguments are compile errors, command actors have the type of their source, and a mismatched adapter name is rejected.',
  ['programs'], 'all uses of the render arguments for the three libraries',
  'As for C25: vitest does not type-check.',
  ['src/RenderArgs.ts', 'src/createComponentFactory.ts', 'src/IgniteCore.ts', 'src/igniteCore/types.ts', 'src/utils/igniteRedux.ts', 'src/adapters/XStateAdapter.ts', 'src/adapters/ReduxAdapter.ts'], [['inference through IgniteCoreReturn', 'igniteCore/types.ts']], ['tsc diagnostics']);
p('C27', 'Release scripts never print or misdirect secrets',
  'No secret (a freshly created npm token, the GitHub token, an OTP) is ever written to the console or into an error message, and the tokens are sent only to the GitHub API over HTTPS. A refresh that fails at any step (command, missing configuration, refused request) is reported to the caller as a failure; one that is reported as a success has stored the new token in the secret of the configured repository, authorised with the GitHub token.',
  ['inputs', 'programs'], 'all paths through the release scripts',
  'The script tests never look at what is printed.',
  ['scripts/refresh-npm-token.js', 'scripts/release-beta.mjs'], [['no logging of values derived from secrets', 'scripts']], ['console output, thrown errors, fetch targets']);
p('C28', 'A release is published only after all gates have passed',
  'The beta release script reaches npm publish only after the working tree was found clean, npm authentication succeeded, and changeset status, tests, build and the version bump have all succeeded, in that run; any failing step ends the script with a failure exit code and nothing is published after it. When every step succeeds it publishes exactly once, under the beta tag; the dry-run flag reaches the publish command exactly when given, and so does a one-time password that was given or typed in: the script asks for one unless one was given (by flag or in NPM_CONFIG_OTP), and with the skip flag it neither asks for one nor uses one given by flag.',
  ['fault_sequences', 'configurations'], 'all combinations of failing steps and flags',
  'The script has tests for few failure combinations.',
  ['scripts/release-beta.mjs'], [['sequence of blocking steps', 'main()']], ['commands executed, exit code']);
p('C29', 'JSX factories agree and leave their input alone',
  'jsx, jsxs and jsxDEV build the same element for the same type, props and key: the type, a copy of the props with children as an array (given children in order), and the key or null. They never modify the props object they are given, and the development and production runtimes share one Fragment.',
  ['inputs'], 'all types, props objects and keys',
  'Tests compare a few literals.',
  ['src/renderers/jsx/jsx-runtime.ts', 'src/renderers/jsx/jsx-dev-runtime.ts', 'src/jsx/jsx-runtime.ts', 'src/jsx/jsx-dev-runtime.ts', 'src/renderers/jsx/types.ts'], [['createElement', 'jsx-runtime.ts']], ['returned elements']);
p('C30', 'Text being composed and the caret survive re-renders',
  'Re-rendering an input while the user composes text or has a selection never moves the caret or drops uncommitted input.',
  ['schedules'], 'all browser input states', 'Depends on live browser editing state that jsdom does not have.',
  ['src/renderers/jsx/renderer.ts'], [['isComposing guard', 'applyProperty']], ['browser caret and IME state']);
p('C31', 'Renders stay fast and bundles stay small',
  'The documented performance figures (render time, bundle size) hold.',
  ['inputs'], 'all view sizes', 'Measured quantities.', ['docs', 'package.json'], [['append-only diff, separate entries', 'src/renderers/jsx']], ['benchmarks']);
p('C32', 'The Lit strategy draws every view into its own shadow root',
  'Every view an element renders with the Lit strategy is handed unchanged to lit exactly once, to be drawn into the shadow root that this very strategy was last attached to, so that successive views update one place; this still holds when an element is disconnected and connected again, and strategies of different elements never mix. Rendering before the strategy was ever attached fails with an error and draws nothing; attaching and detaching draw nothing, and apart from the stylesheet link the strategy itself adds and removes no nodes.',
  ['histories'], 'all orders of attach, detach and render over two strategies and two roots, and of connect/disconnect over two elements',
  'Tests attach one strategy to one root once.',
  ['src/renderers/LitRenderStrategy.ts', 'src/IgniteElement.ts'], [['host kept per strategy', 'LitRenderStrategy']], ['calls of lit-html render and their container']);
p('C33', 'Renderer fallbacks are reported at the configured level',
  'When the Ignite JSX renderer re-renders by rebuilding content that it would otherwise patch, it reports it: on every re-render of an opted-out host (nodiff or hydrated attribute, denylisted tag), with the replace strategy or with diffing disabled, for every re-rendered element with a denylisted tag, and when children are removed or reordered. The report goes to console.warn with logging "warn" and to console.debug with "debug"; with logging off, absent or unknown nothing is printed at all. Same-shape and append-only renders are never reported.',
  ['inputs', 'configurations'], 'all logging levels × reasons for rebuilding × kinds of change, at the root and nested',
  'Tests look at one fallback with one level.',
  ['src/renderers/jsx/IgniteJsxRenderStrategy.ts', 'src/renderers/jsx/renderer.ts'], [['logFallback and onFallbackReplace', 'IgniteJsxRenderStrategy']], ['console output']);
p('C34', 'The types reject wrong configuration, renderers, views and adapters',
  'Code that type-checks against the package uses it as documented: configuration and plugin options are accepted exactly with the documented names and value types (array styles, style objects without href, unknown renderers, positions and options are compile errors), a component takes a function, an object or a parameterless class with render, whose result must be a lit template or an Ignite JSX child, JSX factories accept only element types, children and keys that can be rendered, and a custom adapter or render strategy must provide every required method and fixes the types of state and send in the renderer.',
  ['programs'], 'all uses of the configuration, plugin, JSX, component and factory APIs',
  'The test run does not type-check, so a widened or narrowed type passes every test.',
  ['src/config.ts', 'src/globalStyles.ts', 'src/IgniteElementFactory.ts', 'src/IgniteAdapter.ts', 'src/renderers/RenderStrategy.ts', 'src/renderers/jsx/types.ts', 'src/renderers/jsx/jsx-runtime.ts', 'src/plugins/viteIgniteConfigPlugin.ts', 'src/plugins/webpackIgniteConfigPlugin.ts'], [['exported types', 'the public entry points']], ['tsc diagnostics']);
fs.writeFileSync(path.join(path.dirname(fileURLToPath(import.meta.url)), '..', 'properties.jsonl'), P.map((x) => JSON.stringify(x)).join('\n') + '\n');
for (const x of P) if (x.title.length > 80) console.error('long title', x.id);

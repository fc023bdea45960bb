import { runScripts } from './scripts.mjs';
import { runAdapters } from './adapters.mjs';
import { runElement } from './element.mjs';
import { runFacade, runCoreClient } from './facade.mjs';
import { runConfig } from './config.mjs';
import { runPlugins } from './plugins.mjs';
import { runModules } from './modules.mjs';
import { runStrategies } from './strategies.mjs';
import { runTypes } from './types.mjs';
import { runRenderer, runFactories } from './renderer.mjs';

const SRC_ASSUME = ['XState/Redux/MobX behave as their published contracts (modelled in engine/world.mjs)', 'listeners are distinct functions that return normally', 'single-threaded JavaScript: operations interleave only through re-entrant callbacks'];
const AI = 'Trace-partitioned abstract interpretation of the TypeScript syntax tree: the code is never run; every operation of a most-general client is applied to the abstract heap until no new abstract state appears (fixpoint), and each obligation is checked on every abstract trace.';
const T_FIX = 'abstract interpretation: typestate fixpoint under a most-general client';
const N_FIX = 'Decides the property for every history of the most-general client over the abstract heap (evidence reports states, obligations, undecided ones). Trusts the models of the libraries and of the DOM in engine/.';
const def = (technique, note, explanation, assumptions, rule, run) => ({ technique, note, explanation, rule, assumptions, run });
const adapters = (id, rule) => def(T_FIX, N_FIX, AI, SRC_ASSUME, rule, (cx) => runAdapters(id, cx));
const element = (id, rule) => def(T_FIX, N_FIX, AI, ['the adapter honours the adapter contract (C01-C06)', 'the browser calls connectedCallback/disconnectedCallback alternately', 'render functions return normally'], rule, (cx) => { runElement(id, cx); if (id !== 'C10') runCoreClient(id, cx); });
const facade = (id, rule) => def('abstract interpretation over all option subsets, environments and short histories', 'Decides the property for every option subset, environment and callback result kind, over all histories of two elements up to the stated length. Trusts the models in engine/.', AI, ['the adapter honours the adapter contract (C01-C06)', 'callbacks return normally unless stated'], rule, (cx) => runFacade(id, cx));
const renderer = (id, rule) => def('abstract interpretation: DOM effect analysis against a specification of the view', 'Decides the property for all views up to the stated number of children, nesting and renders, with texts, prop names and prop values kept abstract. Trusts the DOM model in engine/dom.mjs.', AI, ['nobody but the renderer changes the nodes it manages', 'components are pure functions of their props'], rule, (cx) => runRenderer(id, cx));
const config = (id, rule, extra = []) => def('abstract interpretation over all configurations, registries and page histories', 'Decides the property for every configuration subset, registry content and history of the modelled page; style texts are a fixed set of representatives. Trusts the DOM model in engine/dom.mjs.', AI, ['module evaluation order as in ES modules', ...extra], rule, (cx) => runConfig(id, cx));
const plugins = (id, rule) => def('abstract interpretation over all option forms and file-system contents', 'Decides the property for every entry form / option subset and every set of existing files, over a fixed set of representative path shapes (POSIX). Trusts node:path.', AI, ['POSIX paths', 'the file system does not change during a build', 'webpack and Vite call the plugin as documented'], rule, (cx) => runPlugins(id, cx));
export const CHECKS = {
  C01: adapters('C01', 'after stop(): no event reaches the source, no listener is called, getState() denotes the state captured at stop()'),
  C02: adapters('C02', 'each live subscription is called with the current state on subscribe and once per later change; never after its end'),
  C03: adapters('C03', 'whenever nobody is subscribed or the adapter is stopped, the source holds no subscription of the adapter'),
  C04: adapters('C04', 'user-supplied sources are never stopped or modified; actors created by the adapter are started before use and stopped exactly once with it'),
  C05: adapters('C05', 'scope reported truthfully; one source per isolated adapter; resolvers answer for the adapter they are given'),
  C07: element('C07', 'a connected element renders the current state on connect and exactly once after each change'),
  C08: element('C08', 'a disconnected element renders nothing, sends nothing, and holds no subscription; an isolated adapter is stopped with it'),
  C09: element('C09', 'one adapter per shared component, stopped exactly when the last connected element disconnects, never with cleanup disabled'),
  C10: element('C10', 'events sent on or by a connected element reach its own adapter exactly once'),
  C06: adapters('C06', 'send reaches the own source exactly once, unmodified; the next read shows its effect'),
  C11: facade('C11', 'at every render: derived values = states(current snapshot of the own adapter); state/send real; extras and commands present; invalid callback results rejected'),
  C12: facade('C12', 'emit dispatches exactly one bubbling, composed CustomEvent on its own host; undeclared types rejected outside production'),
  C13: facade('C13', 'adapter chosen by source kind; source/states/commands/events/cleanup take effect for every source kind and entry point'),
  C14: renderer('C14', 'after every render the visible DOM under the content root = the tree the view denotes (elements, nesting, merged text); no markup sinks'),
  C15: renderer('C15', 'after every render attributes, properties, style and listeners of an element = those of a fresh render, which = the documented effect of each prop'),
  C16: renderer('C16', 'diff mode: nodes of a same-shape or append-only view keep identity and place; opted-out hosts and tags rebuild every node'),
  C17: renderer('C17', 'namespace of every created node = that of its svg/foreignObject context; slots empty; svg attribute and event names stable'),
  C18: config('C18', 'on every history of attach/render/configure/flush: exactly one matching link per attached root once styles are configured and flushed or attached; none for non-stylesheet strings; arrays throw', ['styles are configured at most once', 'lit-html leaves nodes it did not create alone']),
  C19: config('C19', 'published = returned = specification of the normalised config; argument not written; every import() reached is awaited before the promise resolves', ['promises settle in program order']),
  C20: config('C20', 'strategy of an element = explicit one, else that of the renderer configured at factory creation, else Ignite JSX, else any registered; otherwise Error'),
  C21: plugins('C21', 'every entry point of the resulting options = [config loader, ...original modules] with all other keys; user objects not written; no config file => options unchanged'),
  C22: plugins('C22', 'config file = specification (explicit path only, else first existing default); injected script = one awaited module import of exactly that file at the requested position'),
  C23: def('abstract interpretation of module evaluation in a runtime without browser globals', 'Decides the property for every entry point, import order start and subset of existing globals, and for component definition with every source shape.', AI, ['the state libraries themselves can be imported without a DOM'], 'no entry point and no component definition reads a browser global that does not exist; existing globals keep their value', (cx) => runModules('C23', cx)),
  C24: def('import-graph reachability over the syntax trees, with type-only imports erased as the compiler does', 'Decides the property for every entry: the run-time import graph is finite and followed completely (dynamic imports only where they run at load time).', 'Reachability over the static import graph of every build entry.', ['the bundler keeps peer libraries external'], 'packages reachable from an entry without a call are its own library only; every package.json export has a build entry with a source', (cx) => runModules('C24', cx)),
  C25: def('type-level analysis: compile-pass / compile-fail witnesses decided by the TypeScript checker', 'Decides each witness obligation exactly; the property is quantified over event maps through representative payload kinds and a generic witness.', 'Witness programs for every source kind, every way to call igniteCore and both option orders are type-checked against the sources; every marked line is an obligation (accept or reject).', ['representative payload types stand for their kind'], 'lines marked ERR are compile errors and all others are accepted', (cx) => runTypes('C25', cx)),
  C26: def('type-level analysis: compile-pass / compile-fail witnesses decided by the TypeScript checker', 'Decides each witness obligation exactly, for one representative source per kind.', 'Witness programs for every source kind and every way to call igniteCore are type-checked against the sources; every marked line is an obligation (accept or reject).', ['representative sources stand for their kind'], 'lines marked ERR are compile errors and all others are accepted', (cx) => runTypes('C26', cx)),
  C27: def('abstract interpretation of the release scripts with secret values as opaque symbols (taint)', 'Decides the property on every path: every outcome of every command and request, every flag set, every presence of the environment variables the scripts name.', AI, ['a failed command reports its command line and an error text of its own', 'responses do not echo the request'], 'no printed value, thrown error or request outside https://api.github.com/ contains a term over a secret', (cx) => runScripts('C27', cx)),
  C28: def('abstract interpretation of the release script over every outcome of every step', 'Decides the property for every combination of failing steps, working-tree states and flags.', AI, ['a command succeeds exactly when its exit status is 0'], 'publish reached => clean tree and all gates passed in this run; any failed step => failure exit and no further release step', (cx) => runScripts('C28', cx)),
  C29: def('abstract interpretation of the JSX factories over all argument shapes', 'Decides the property for every type, props shape, children shape and key.', AI, [], 'result = {type, copy of props with children array, key ?? null}; arguments not written', (cx) => runFactories('C29', cx)),
  C32: def('abstract interpretation: typestate fixpoint of the Lit strategy under every order of attach, detach and render', N_FIX, AI, ['lit-html draws into the container it is given'], 'each view = one call of lit render(view, root last attached); nothing drawn before attach; the strategy itself changes no node', (cx) => runStrategies('C32', cx)),
  C33: def('abstract interpretation: effect analysis of the console over every logging level, opt-out and change of the view', 'Decides the property for every logging level, every reason for rebuilding and every kind of change of a list of up to three children (four in thorough), at the root and nested. Trusts the DOM model in engine/dom.mjs.', AI, [], 'console output of a render: none unless logging is warn/debug; then only at that level, at least once when content is rebuilt as documented, never for in-place renders', (cx) => runStrategies('C33', cx)),
  C34: def('type-level analysis: compile-pass / compile-fail witnesses decided by the TypeScript checker', 'Decides each witness obligation exactly, for representative values of every kind.', 'Witness programs using the configuration, plugins, JSX factories, component factories and custom adapters are type-checked against the sources; every marked line is an obligation (accept or reject).', ['representative values stand for their kind'], 'lines marked ERR are compile errors and all others are accepted', (cx) => runTypes('C34', cx)),
};

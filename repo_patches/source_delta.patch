From 0c6fd22e4a3d82b1c82261fc8b12ef139b7f03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:29 +0000
Subject: [PATCH 01/21] fix: freeze the Redux adapter's state at the moment it
 is stopped

---
 src/adapters/ReduxAdapter.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 4974a77..9093ede 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -93,14 +93,20 @@ const buildAdapter = <
 				return;
 			}
 			store.dispatch(event as Parameters<typeof store.dispatch>[0]);
-			lastKnownState = store.getState();
+			if (!isStopped) {
+				lastKnownState = store.getState();
+			}
 		},
 		getState() {
 			return isStopped ? lastKnownState : store.getState();
 		},
 		stop() {
-			cleanupSubscriptions();
+			if (isStopped) {
+				return;
+			}
 			isStopped = true;
+			cleanupSubscriptions();
+			lastKnownState = store.getState();
 		},
 		scope,
 	};
-- 
2.43.0


From ed1e117612fcbbe005934b6f08fb89c07dfc0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:29 +0000
Subject: [PATCH 02/21] fix: do not deliver Redux state to a listener that
 unsubscribed during the dispatch

---
 src/adapters/ReduxAdapter.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 9093ede..5f30db1 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -69,7 +69,11 @@ const buildAdapter = <
 
 			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
-				listener(store.getState());
+				// Redux notifies a snapshot of its listeners, so a subscription ended
+				// during a dispatch would otherwise still be called once.
+				if (unsubscribers.has(unsubscribe)) {
+					listener(store.getState());
+				}
 			});
 
 			const unsubscribe = () => {
-- 
2.43.0


From 5697b4be13bc49f296d187db2fea128164a21c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:29 +0000
Subject: [PATCH 03/21] fix: do not subscribe to the Redux store when the
 adapter is stopped by the initial delivery

---
 src/adapters/ReduxAdapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 5f30db1..22eef7e 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -68,6 +68,10 @@ const buildAdapter = <
 			}
 
 			listener(store.getState());
+			if (isStopped) {
+				return { unsubscribe: () => {} };
+			}
+
 			const storeUnsubscribe = store.subscribe(() => {
 				// Redux notifies a snapshot of its listeners, so a subscription ended
 				// during a dispatch would otherwise still be called once.
-- 
2.43.0


From e4ab0f5008f8c257bb68337ff33ddd8e00684f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:29 +0000
Subject: [PATCH 04/21] fix: dispose the MobX autorun when the adapter is
 stopped by the initial delivery

---
 src/adapters/MobxAdapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 1da9536..bdb552b 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -147,6 +147,10 @@ function createAdapterEntryFromStore<State extends object>(
 			lastSnapshot = snapshot;
 			notifyListeners(snapshot);
 		});
+		if (isStopped) {
+			// The first run may have stopped the adapter before the disposer existed.
+			cleanupAutorun();
+		}
 	}
 
 	function cleanupAutorun() {
-- 
2.43.0


From 6ae1e6becd0679d1db46b6dfe38136ed397c340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:29 +0000
Subject: [PATCH 05/21] fix: keep the state frozen when an adapter is stopped
 while it handles an event

---
 src/adapters/MobxAdapter.ts   | 4 +++-
 src/adapters/XStateAdapter.ts | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index bdb552b..5273608 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -202,7 +202,9 @@ function createAdapterEntryFromStore<State extends object>(
 				} else {
 					action.call(store);
 				}
-				lastSnapshot = cloneState();
+				if (!isStopped) {
+					lastSnapshot = cloneState();
+				}
 			} else {
 				console.warn(`[MobxAdapter] Unknown event type: ${String(event.type)}`);
 			}
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 07f9d2f..8ee0966 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -189,7 +189,9 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 				return;
 			}
 			actor.send(event);
-			lastKnownSnapshot = actor.getSnapshot();
+			if (!isStopped) {
+				lastKnownSnapshot = actor.getSnapshot();
+			}
 		},
 		getState() {
 			const snapshot = isStopped ? lastKnownSnapshot : actor.getSnapshot();
@@ -231,7 +233,9 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 				return;
 			}
 			actor.send(event);
-			lastKnownSnapshot = actor.getSnapshot();
+			if (!isStopped) {
+				lastKnownSnapshot = actor.getSnapshot();
+			}
 		},
 		get state() {
 			return adapter.getState();
-- 
2.43.0


From dec9bfb22402f2efacb4d2d1638b9dc2a5f28e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 06/21] fix: render elements whose state is falsy (0, "",
 false, null)

---
 src/IgniteElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index eb30fdf..c2e67c1 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -74,7 +74,7 @@ export default abstract class IgniteElement<
 	}
 
 	private renderTemplate(): void {
-		if (!this._isActive || !this._currentState) {
+		if (!this._isActive || this._currentState === undefined) {
 			console.warn(`[IgniteElement] State is not initialized`);
 			return;
 		}
-- 
2.43.0


From 038694b97d38fab4965e0c1aa2aadddda4d1f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 07/21] fix: reject undeclared events named like an
 Object.prototype member

---
 src/createComponentFactory.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/createComponentFactory.ts b/src/createComponentFactory.ts
index 776ec5c..d116b04 100644
--- a/src/createComponentFactory.ts
+++ b/src/createComponentFactory.ts
@@ -244,7 +244,7 @@ export function createComponentFactoryWithRenderer<
 	const createEmit = (host: HTMLElement): EmitFromEvents<Events> =>
 		((type: keyof Events & string, detail: unknown) => {
 			if (isDevelopment()) {
-				if (!(type in eventDefinitions)) {
+				if (!Object.prototype.hasOwnProperty.call(eventDefinitions, type)) {
 					throw new Error(
 						`[createComponentFactory] Unknown event "${type}". Declare it in the events map before emitting.`,
 					);
-- 
2.43.0


From c26e62e489462c2959f51b4bb8f91d3fe0496f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 08/21] fix: drop a style declaration whose value becomes null
 or undefined

---
 src/renderers/jsx/renderer.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ed642d6..3976f42 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -431,6 +431,8 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 				if (style.getPropertyValue(cssProperty) !== nextValue) {
 					style.setProperty(cssProperty, nextValue);
 				}
+			} else {
+				style.removeProperty(toKebabCase(key));
 			}
 		}
 		return;
-- 
2.43.0


From f57488f1892deee57078fc13adeb76a641e5175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 09/21] fix: clear a removed value prop instead of showing
 "undefined"

---
 src/renderers/jsx/renderer.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 3976f42..bd985a9 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -505,8 +505,8 @@ function removeProp(
 	}
 
 	if (!isSvg && key in element && key !== "list") {
-		// Reset property to undefined to avoid stale values.
-		Reflect.set(element as HTMLElement, key, undefined);
+		// Reset property to avoid stale values; form controls stringify undefined.
+		Reflect.set(element as HTMLElement, key, key === "value" ? "" : undefined);
 	}
 
 	const attrName = isSvg ? normalizeSvgAttributeName(key) : key;
-- 
2.43.0


From a6e3538f3bb21f9e673cf4220b1808379370b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 10/21] fix: import a config file below a dot directory by a
 relative specifier

---
 src/plugins/viteIgniteConfigPlugin.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2da021c..2215837 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -124,8 +124,7 @@ function getImportSpecifier(
 	if (root) {
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
-			const normalized = toPosixPath(relativePath);
-			return normalized.startsWith(".") ? normalized : `./${normalized}`;
+			return `./${toPosixPath(relativePath)}`;
 		}
 	}
 
-- 
2.43.0


From f72a5b577da6006f4c057004d33460cfb4a5014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 11/21] fix: do not print the new npm token

---
 scripts/refresh-npm-token.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index d64f4bb..41d690b 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -17,7 +17,7 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
-		console.log("✅ New token generated successfully:", newToken);
+		console.log("✅ New token generated successfully.");
 
 		// Validate environment variables
 		const githubToken = process.env.GITHUB_TOKEN;
-- 
2.43.0


From fb5407d6b3725c686c7d8057dc421ec35c7b3ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:27 +0000
Subject: [PATCH 12/21] fix: load the config in webpack's default entry

webpack normalises a missing entry to { main: {} } before it applies
plugins and fills in ./src afterwards, so the plugin skipped it.
---
 src/plugins/webpackIgniteConfigPlugin.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins/webpackIgniteConfigPlugin.ts b/src/plugins/webpackIgniteConfigPlugin.ts
index 02ae4fc..5868eda 100644
--- a/src/plugins/webpackIgniteConfigPlugin.ts
+++ b/src/plugins/webpackIgniteConfigPlugin.ts
@@ -57,6 +57,12 @@ function prependConfig(
 		};
 	}
 
+	if (entry && typeof entry === "object") {
+		// webpack gives entries without modules (its default entry) "./src", but
+		// only after the plugins have been applied.
+		return { ...(entry as object), import: [moduleId, "./src"] };
+	}
+
 	return entry;
 }
 
-- 
2.43.0


From 6fa4657a973b04b8f5c7db4272f053a4458b912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:29 +0000
Subject: [PATCH 13/21] fix: infer the declared events in the Redux entry
 point's igniteCore

---
 src/igniteCore/redux.ts | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/igniteCore/redux.ts b/src/igniteCore/redux.ts
index 523f16d..0c1a6a1 100644
--- a/src/igniteCore/redux.ts
+++ b/src/igniteCore/redux.ts
@@ -32,6 +32,46 @@ type ReduxConfigFor<
 		? ReduxBlueprintConfig<Source, Events, StatesResult, CommandsResult>
 		: never;
 
+export function igniteCoreRedux<
+	Source extends ReduxBlueprintSource,
+	Events extends EventMap = EmptyEventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends Record<never, FacadeCommandFunction> = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: ReduxBlueprintConfig<Source, Events, StatesResult, CommandsResult>,
+): IgniteCoreReturn<
+	InferStateAndEvent<Source>["State"],
+	InferStateAndEvent<Source>["Event"],
+	InferStateAndEvent<Source>["State"],
+	StatesResult,
+	ReduxCommandActorFor<Source>,
+	CommandsResult,
+	Events
+>;
+
+export function igniteCoreRedux<
+	Source extends ReduxInstanceSource,
+	Events extends EventMap = EmptyEventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends Record<never, FacadeCommandFunction> = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: ReduxInstanceConfig<Source, Events, StatesResult, CommandsResult>,
+): IgniteCoreReturn<
+	InferStateAndEvent<Source>["State"],
+	InferStateAndEvent<Source>["Event"],
+	InferStateAndEvent<Source>["State"],
+	StatesResult,
+	ReduxCommandActorFor<Source>,
+	CommandsResult,
+	Events
+>;
+
 export function igniteCoreRedux<
 	Source extends ReduxBlueprintSource | ReduxInstanceSource,
 	Events extends EventMap = EmptyEventMap,
-- 
2.43.0


From e3c681f45a515a1379310960802a0400f621016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:54 +0000
Subject: [PATCH 14/21] fix: keep every camelCase SVG attribute name

Only nine of the attributes SVG spells in camelCase were recognised; the
others (gradientTransform, stdDeviation, refX, pathLength, ...) were
written in kebab-case and had no effect.
---
 src/renderers/jsx/renderer.ts | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index bd985a9..55ab144 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -18,6 +18,55 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"startOffset",
 	"textLength",
 	"lengthAdjust",
+	"attributeName",
+	"attributeType",
+	"baseFrequency",
+	"baseProfile",
+	"calcMode",
+	"diffuseConstant",
+	"edgeMode",
+	"filterUnits",
+	"glyphRef",
+	"gradientTransform",
+	"kernelMatrix",
+	"kernelUnitLength",
+	"keyPoints",
+	"keySplines",
+	"keyTimes",
+	"limitingConeAngle",
+	"markerHeight",
+	"markerUnits",
+	"markerWidth",
+	"maskContentUnits",
+	"maskUnits",
+	"numOctaves",
+	"pathLength",
+	"patternContentUnits",
+	"patternTransform",
+	"pointsAtX",
+	"pointsAtY",
+	"pointsAtZ",
+	"preserveAlpha",
+	"primitiveUnits",
+	"refX",
+	"refY",
+	"repeatCount",
+	"repeatDur",
+	"requiredExtensions",
+	"requiredFeatures",
+	"specularConstant",
+	"specularExponent",
+	"stdDeviation",
+	"stitchTiles",
+	"surfaceScale",
+	"systemLanguage",
+	"tableValues",
+	"targetX",
+	"targetY",
+	"viewTarget",
+	"xChannelSelector",
+	"yChannelSelector",
+	"zoomAndPan",
 ]);
 
 type NormalizedNode =
-- 
2.43.0


From 2c8d6e5b1fd64d1ab4950c7c859d464e563d560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:20 +0000
Subject: [PATCH 15/21] fix: a MobX listener subscribed during the first
 delivery no longer starts a second autorun

---
 src/adapters/MobxAdapter.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 5273608..9c20c13 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -164,12 +164,15 @@ function createAdapterEntryFromStore<State extends object>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			const wasRunning = disposer !== null;
+			// Not "disposer !== null": a listener may subscribe another one while the
+			// first run of the autorun is still delivering.
+			const wasRunning = listeners.size > 0;
 			listeners.add(listener);
-			ensureAutorun();
 
 			if (wasRunning) {
 				listener(lastSnapshot);
+			} else {
+				ensureAutorun();
 			}
 
 			return {
-- 
2.43.0


From 8eaf4edb762514abf71f7ce897be3645559639d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:42 +0000
Subject: [PATCH 16/21] fix: a listener subscribed during a notification is no
 longer given the same state twice

---
 src/adapters/MobxAdapter.ts   | 7 +++++--
 src/adapters/XStateAdapter.ts | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 9c20c13..9d4de05 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -133,8 +133,11 @@ function createAdapterEntryFromStore<State extends object>(
 	}
 
 	function notifyListeners(snapshot: State) {
-		for (const listener of listeners) {
-			listener(snapshot);
+		// Listeners added during the delivery already got this state on subscribing.
+		for (const listener of Array.from(listeners)) {
+			if (listeners.has(listener)) {
+				listener(snapshot);
+			}
 		}
 	}
 
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 8ee0966..8d58ff7 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -125,8 +125,11 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 
 	function notify(snapshot: StateFrom<Machine>) {
 		const state = toExtendedState(snapshot);
-		for (const listener of listeners) {
-			listener(state);
+		// Listeners added during the delivery already got this state on subscribing.
+		for (const listener of Array.from(listeners)) {
+			if (listeners.has(listener)) {
+				listener(state);
+			}
 		}
 	}
 
-- 
2.43.0


From a7988e49e8faccf2ea7847a057c4f1393f9f323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:26 +0000
Subject: [PATCH 17/21] fix: a Redux listener no longer misses an action
 dispatched during its first delivery

---
 src/adapters/ReduxAdapter.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 22eef7e..102f195 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -67,11 +67,6 @@ const buildAdapter = <
 				return { unsubscribe: () => {} };
 			}
 
-			listener(store.getState());
-			if (isStopped) {
-				return { unsubscribe: () => {} };
-			}
-
 			const storeUnsubscribe = store.subscribe(() => {
 				// Redux notifies a snapshot of its listeners, so a subscription ended
 				// during a dispatch would otherwise still be called once.
@@ -88,6 +83,9 @@ const buildAdapter = <
 			};
 
 			unsubscribers.add(unsubscribe);
+			// Subscribed first: an action dispatched while the listener handles the
+			// initial state must reach it too.
+			listener(store.getState());
 
 			return {
 				unsubscribe,
-- 
2.43.0


From 0cc3c484c4f2d89583b847f276ad80af11903121 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:11:51 +0000
Subject: [PATCH 18/21] fix: a MobX listener no longer misses a change made
 during its first delivery

---
 src/adapters/MobxAdapter.ts | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 9d4de05..17ef322 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -145,15 +145,17 @@ function createAdapterEntryFromStore<State extends object>(
 		if (disposer) {
 			return;
 		}
+		// MobX does not rerun an autorun for changes made during its first run, so
+		// that run only starts observing; subscribe() delivers the current state.
+		let isStarting = true;
 		disposer = autorun(() => {
 			const snapshot = cloneState();
 			lastSnapshot = snapshot;
-			notifyListeners(snapshot);
+			if (!isStarting) {
+				notifyListeners(snapshot);
+			}
 		});
-		if (isStopped) {
-			// The first run may have stopped the adapter before the disposer existed.
-			cleanupAutorun();
-		}
+		isStarting = false;
 	}
 
 	function cleanupAutorun() {
@@ -167,16 +169,10 @@ function createAdapterEntryFromStore<State extends object>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			// Not "disposer !== null": a listener may subscribe another one while the
-			// first run of the autorun is still delivering.
-			const wasRunning = listeners.size > 0;
 			listeners.add(listener);
-
-			if (wasRunning) {
-				listener(lastSnapshot);
-			} else {
-				ensureAutorun();
-			}
+			ensureAutorun();
+			lastSnapshot = cloneState();
+			listener(lastSnapshot);
 
 			return {
 				unsubscribe: () => {
-- 
2.43.0


From 010b7762af963e05f268a6a2eaa8b2ee2cd3b1d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:49:26 +0000
Subject: [PATCH 19/21] fix: a JSX render that throws no longer leaves stale
 nodes and attributes behind later ones

---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 32 ++++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index e6ad3c0..1d542d2 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -84,19 +84,25 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 					? "flag-disabled"
 					: null);
 
-		this.previousTree =
-			this.previousTree === null
-				? mountIgniteJsx(this.contentRoot, view)
-				: renderIgniteJsx(
-						this.contentRoot,
-						view,
-						this.previousTree ?? undefined,
-						{
-							mode,
-							onFallbackReplace: (reason) =>
-								this.logFallback(reason, this.getHostTag()),
-						},
-					);
+		try {
+			this.previousTree =
+				this.previousTree === null
+					? mountIgniteJsx(this.contentRoot, view)
+					: renderIgniteJsx(
+							this.contentRoot,
+							view,
+							this.previousTree ?? undefined,
+							{
+								mode,
+								onFallbackReplace: (reason) =>
+									this.logFallback(reason, this.getHostTag()),
+							},
+						);
+		} catch (error) {
+			// The DOM may be half patched: the next render must start afresh.
+			this.previousTree = null;
+			throw error;
+		}
 
 		if (forceReason) {
 			this.logFallback(forceReason, this.getHostTag());
-- 
2.43.0


From 7e13067db4edf709f1e2c73912a51f867638c719 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:50:06 +0000
Subject: [PATCH 20/21] fix: the form prop is set as an attribute, its property
 being read-only

---
 src/renderers/jsx/renderer.ts | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 55ab144..b9a9d86 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -447,8 +447,13 @@ function patchProps(
 			continue;
 		}
 
-		if (!isSvgElement && key in element && key !== "list") {
-			applyProperty(element as HTMLElement, key, next);
+		// A read-only property (form) is set through the attribute.
+		if (
+			!isSvgElement &&
+			key in element &&
+			key !== "list" &&
+			applyProperty(element as HTMLElement, key, next)
+		) {
 			continue;
 		}
 
@@ -568,19 +573,17 @@ function applyProperty(
 	element: HTMLElement,
 	key: string,
 	value: unknown,
-): void {
+): boolean {
 	if (key === "value" || key === "checked") {
 		const current = Reflect.get(element, key);
 		if (current !== value && !(isComposingInput(element) && key === "value")) {
-			Reflect.set(element, key, value);
+			return Reflect.set(element, key, value);
 		}
-		return;
+		return true;
 	}
 
 	const current = Reflect.get(element, key);
-	if (current !== value) {
-		Reflect.set(element, key, value);
-	}
+	return current === value || Reflect.set(element, key, value);
 }
 
 function isComposingInput(element: HTMLElement): boolean {
-- 
2.43.0


From 56430ef3b5a925a9864bfc1e00f09dd4078fd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:45 +0000
Subject: [PATCH 21/21] fix: honour nodiff and hydrated attributes set after
 the element was created

---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 41 ++++++++++++--------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index 1d542d2..55fe0b2 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -50,22 +50,6 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		root.setAttribute("data-ignite-jsx-root", "");
 		host.appendChild(root);
 		this.contentRoot = root;
-
-		const hostElement = (host as ShadowRoot & { host?: Element }).host;
-		const tagName = hostElement?.tagName?.toLowerCase();
-		const isDenylistedHost = isNoDiffDenylistedTag(tagName);
-		if (
-			hostElement?.hasAttribute?.("data-ignite-nodiff") ||
-			hostElement?.hasAttribute?.("data-ignite-hydrated") ||
-			isDenylistedHost
-		) {
-			this.forceReplace = true;
-			this.forceReplaceReason = isDenylistedHost
-				? `denylist:${tagName}`
-				: hostElement?.hasAttribute?.("data-ignite-hydrated")
-					? "hydrated"
-					: "nodiff-attr";
-		}
 	}
 
 	render(view: IgniteJsxChild): void {
@@ -75,6 +59,10 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 			);
 		}
 
+		if (!this.forceReplace) {
+			this.detectOptOut();
+		}
+
 		const mode = this.forceReplace || !this.diffEnabled ? "replace" : this.mode;
 		const forceReason =
 			this.forceReplaceReason ??
@@ -117,6 +105,27 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		this.previousTree = null;
 	}
 
+	// Looked up when rendering: elements made by document.createElement (as nested
+	// JSX elements are) get their attributes after the strategy has been attached.
+	private detectOptOut(): void {
+		const hostElement = (this.contentRoot?.getRootNode() as ShadowRoot | null)
+			?.host;
+		const tagName = hostElement?.tagName?.toLowerCase();
+		const isDenylistedHost = isNoDiffDenylistedTag(tagName);
+		if (
+			hostElement?.hasAttribute?.("data-ignite-nodiff") ||
+			hostElement?.hasAttribute?.("data-ignite-hydrated") ||
+			isDenylistedHost
+		) {
+			this.forceReplace = true;
+			this.forceReplaceReason = isDenylistedHost
+				? `denylist:${tagName}`
+				: hostElement?.hasAttribute?.("data-ignite-hydrated")
+					? "hydrated"
+					: "nodiff-attr";
+		}
+	}
+
 	private getHostTag(): string | null {
 		const host = (this.contentRoot?.getRootNode() as ShadowRoot | null)?.host;
 		return host?.tagName?.toLowerCase() ?? null;
-- 
2.43.0


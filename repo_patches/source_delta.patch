From 92d3647a4c81fbc49f41ba8924bb8e9dc09135fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 01/33] fix: compare keys by same-value when applying patches

A NaN key lost its content and a 0 to -0 change crashed, because the diff
compares keys with Object.is but the patch compared them with !==.
---
 src/commit.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index 125c7e2..669b98f 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -4,6 +4,7 @@ import {
   type RenderNode,
   type RenderRoot,
 } from './base.js';
+import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
   mountChild(node, null);
@@ -41,7 +42,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
+  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
-- 
2.43.0


From 288019fdb5be14dd14f78d12dd30ffc00e4d8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 02/33] fix: place child nodes in their final order

Children inserted at the end of a nested fragment or of a component's list
were put at the end of the whole part, and a child whose type changed was
placed by siblings that had not been moved yet. Apply the mutations of a
fragment from last to first and always search the new siblings.
---
 src/base.ts    | 10 ++++---
 src/commit.ts  | 76 ++++++++++++++++++++++++++------------------------
 src/runtime.ts | 25 ++++++++++-------
 3 files changed, 61 insertions(+), 50 deletions(-)

diff --git a/src/base.ts b/src/base.ts
index 7803f46..3dec815 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -76,8 +76,9 @@ export interface Middleware {
 export type Mutation =
   | {
       type: MutationType.INSERT;
-      node: RenderNode;
-      afterNode: RenderNode | undefined;
+      oldNode: undefined;
+      newNode: RenderNode;
+      index: number;
     }
   | {
       type: MutationType.UPDATE;
@@ -89,12 +90,13 @@ export type Mutation =
       type: MutationType.UPDATE_AND_MOVE;
       oldNode: RenderNode;
       newNode: RenderNode;
-      afterNode: RenderNode | undefined;
       index: number;
     }
   | {
       type: MutationType.REMOVE;
-      node: RenderNode;
+      oldNode: RenderNode;
+      newNode: undefined;
+      index: number;
     };
 
 export type Owner = object;
diff --git a/src/commit.ts b/src/commit.ts
index 669b98f..bdd9558 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -1,5 +1,6 @@
 import {
   Bind,
+  type Mutation,
   MutationType,
   type RenderNode,
   type RenderRoot,
@@ -59,46 +60,49 @@ function applyPatch(
   } else if (typeof newNode.type === 'function') {
     applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
   } else {
-    for (const mutation of newNode.state.mutations.splice(0)) {
-      switch (mutation.type) {
-        case MutationType.INSERT:
-          mountChild(
-            mutation.node,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.UPDATE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          break;
-        case MutationType.UPDATE_AND_MOVE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          moveChild(
-            mutation.newNode,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.REMOVE:
-          unmountChild(mutation.node);
-          break;
+    const mutations = newNode.state.mutations.splice(0).sort(compareMutations);
+    const placements: Mutation[] = [];
+    for (const mutation of mutations) {
+      if (
+        mutation.type === MutationType.REMOVE ||
+        mutation.newNode.type === Bind
+      ) {
+        applyMutation(mutation, newNode);
+      } else {
+        placements.push(mutation);
       }
     }
+    // Place child nodes from last to first, so that the following siblings are
+    // already in place when a child is mounted or moved.
+    for (const mutation of placements.reverse()) {
+      applyMutation(mutation, newNode);
+    }
+  }
+}
+
+function applyMutation(mutation: Mutation, parent: RenderNode): void {
+  const { type, oldNode, newNode, index } = mutation;
+  switch (type) {
+    case MutationType.INSERT:
+      mountChild(newNode, getSiblingDOMNode(newNode));
+      break;
+    case MutationType.UPDATE:
+      applyPatch(oldNode, newNode, index, parent);
+      break;
+    case MutationType.UPDATE_AND_MOVE:
+      applyPatch(oldNode, newNode, index, parent);
+      moveChild(newNode, getSiblingDOMNode(newNode));
+      break;
+    case MutationType.REMOVE:
+      unmountChild(oldNode);
+      break;
   }
 }
 
+function compareMutations(mutation1: Mutation, mutation2: Mutation): number {
+  return mutation1.index - mutation2.index;
+}
+
 function getChildDOMNode(node: RenderNode): ChildNode | null {
   if (typeof node.type === 'object') {
     return node.state.block.staticNodes[0]!;
@@ -116,7 +120,7 @@ function getSiblingDOMNode(node: RenderNode): ChildNode | null {
   const part = node.part;
   // Only called on non-detached nodes, so parent is never null.
   while (node.parent!.type != null) {
-    const children = isCommitted(node) ? node.parent!.right : node.parent!.left;
+    const children = node.parent!.left;
     for (let i = node.index + 1, l = children.length; i < l; i++) {
       const child = children[i]!;
       if (child.part !== part) {
diff --git a/src/runtime.ts b/src/runtime.ts
index 7c6a91e..6bde5bd 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -339,7 +339,9 @@ export class Runtime implements Renderer, Dispatcher {
           if (oldChild !== undefined) {
             newMutations.push({
               type: MutationType.REMOVE,
-              node: oldChild,
+              oldNode: oldChild,
+              newNode: undefined,
+              index: oldHead,
             });
           }
           oldHead++;
@@ -357,8 +359,9 @@ export class Runtime implements Renderer, Dispatcher {
           );
           newMutations.push({
             type: MutationType.INSERT,
-            node: newChild,
-            afterNode: newChildren[newTail + 1],
+            oldNode: undefined,
+            newNode: newChild,
+            index: newHead,
           });
           newChildren[newHead] = newChild;
           newHead++;
@@ -427,14 +430,12 @@ export class Runtime implements Renderer, Dispatcher {
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldTail]!,
           newNode: tailChild,
-          afterNode: oldChildren[oldHead],
           index: newHead,
         });
         newMutations.push({
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldHead]!,
           newNode: headChild,
-          afterNode: newChildren[newTail + 1],
           index: newTail,
         });
         newChildren[newHead] = tailChild;
@@ -450,14 +451,18 @@ export class Runtime implements Renderer, Dispatcher {
           const oldChild = oldChildren[oldHead]!;
           newMutations.push({
             type: MutationType.REMOVE,
-            node: oldChild,
+            oldNode: oldChild,
+            newNode: undefined,
+            index: oldHead,
           });
           oldHead++;
         } else if (!newKeyToIndexMap.has(oldKeys[oldTail]!)) {
           const oldChild = oldChildren[oldTail]!;
           newMutations.push({
             type: MutationType.REMOVE,
-            node: oldChild,
+            oldNode: oldChild,
+            newNode: undefined,
+            index: oldTail,
           });
           oldTail--;
         } else {
@@ -481,7 +486,6 @@ export class Runtime implements Renderer, Dispatcher {
               type: MutationType.UPDATE_AND_MOVE,
               oldNode: oldChildren[oldIndex]!,
               newNode: newChild,
-              afterNode: newChildren[newTail + 1],
               index: newTail,
             });
             newChildren[newTail] = newChild;
@@ -496,8 +500,9 @@ export class Runtime implements Renderer, Dispatcher {
             );
             newMutations.push({
               type: MutationType.INSERT,
-              node: newChild,
-              afterNode: newChildren[newTail + 1],
+              oldNode: undefined,
+              newNode: newChild,
+              index: newTail,
             });
             newChildren[newTail] = newChild;
           }
-- 
2.43.0


From d1c25f6415fb2a03263d5777425df01db2a79113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 03/33] fix: keep a failed batch from leaving unmounted
 children behind

An update prepared in a batch that failed later stored its children in the
live node; the next placement next to that component used their DOM nodes,
which were never mounted.
---
 src/component.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 1153477..0a3567e 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -509,9 +509,12 @@ class UpdateComponent implements Transaction {
     }
     const subScope = node.state.scope.enter(node.type);
     const newElement = node.state.instance.render(node.props, subScope, lanes);
-    node.left = [renderer.diff(node.right[0]!, newElement, subScope, 0, node)];
+    const newChildren = [
+      renderer.diff(node.right[0]!, newElement, subScope, 0, node),
+    ];
     return () => {
       if (node.parent !== null) {
+        node.left = newChildren;
         patch(node.right[0]!, node.left[0]!);
         node.state.instance.connect(node);
         node.right = node.left;
-- 
2.43.0


From ca7bbfde15da76d958c99eace991475bc0905cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 04/33] fix: process updates of the same priority in request
 order

The queue is a heap, so updates that compare equal came out in any order and
an earlier root render could overwrite a later one.
---
 src/runtime.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 6bde5bd..88144bb 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -616,7 +616,10 @@ function compareUpdates(update1: Update, update2: Update): number {
   }
   const level1 = update1.transaction.scope.level;
   const level2 = update2.transaction.scope.level;
-  return level1 - level2;
+  if (level1 !== level2) {
+    return level1 - level2;
+  }
+  return update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From db1c5b60d4d04fa65361894bd84438cb3ed8d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 05/33] fix: keep every staged update from being stranded

A flush stopped at the first update that was not staged yet and forgot the
staged lanes, so updates behind it were never processed. Staged updates of
different priorities were also prepared together, so that a component was
rendered before its ancestors and a commit handler could be ignored.
---
 src/runtime.ts | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 88144bb..690968a 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -520,23 +520,33 @@ export class Runtime implements Renderer, Dispatcher {
       // Only updates of equal priority are batched. The queue is lane-ordered,
       // so a UserHandlerLane update is followed only by equal/lower-priority
       // updates; stopping there commits it as its own batch.
+      const deferredUpdates: Update[] = [];
       do {
         const update = this._updateQueue.peek();
-        if (
-          update === undefined ||
-          ((update.lanes & this._stagedLanes) !== update.lanes &&
-            getHighestPriorityLane(this._flushLanes) <
-              getHighestPriorityLane(update.lanes))
-        ) {
-          // The update is not staged yet and lower-priority than the batch;
-          // defer it so it commits as its own batch.
+        if (update === undefined) {
+          break;
+        }
+        if ((update.lanes & this._stagedLanes) !== update.lanes) {
+          // The update is not staged yet, but the updates behind it may be.
+          deferredUpdates.push(this._updateQueue.dequeue()!);
+          continue;
+        }
+        if (!this._isBatchable(update)) {
           break;
         }
         this._flushLanes |= update.lanes;
         this._updateBatch.push(this._updateQueue.dequeue()!);
       } while (!(this._flushLanes & UserHandlerLane));
 
+      let deferredLanes = NoLanes;
+      for (const update of deferredUpdates) {
+        deferredLanes |= update.lanes;
+        this._updateQueue.enqueue(update);
+      }
+
       if (this._flushLanes === NoLanes) {
+        // Deferred updates wait for their remaining lanes only.
+        this._stagedLanes &= deferredLanes;
         break;
       }
 
@@ -582,8 +592,16 @@ export class Runtime implements Renderer, Dispatcher {
         this._flushLanes = NoLanes;
       }
     }
+  }
 
-    this._stagedLanes = NoLanes;
+  private _isBatchable(update: Update): boolean {
+    if (this._updateBatch.length === 0) {
+      return true;
+    }
+    return (
+      getHighestPriorityLane(update.lanes) ===
+      getHighestPriorityLane(this._flushLanes)
+    );
   }
 }
 
-- 
2.43.0


From 3b002e3d66e2df518656cebd33c7dc4f85d90654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 06/33] fix: commit updates of the same root one after another

Unmounting and rendering a root in one batch left the container empty, because
the new tree was prepared as a change of the tree that was then unmounted.
---
 src/runtime.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 690968a..2d24516 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -598,9 +598,19 @@ export class Runtime implements Renderer, Dispatcher {
     if (this._updateBatch.length === 0) {
       return true;
     }
-    return (
-      getHighestPriorityLane(update.lanes) ===
+    if (
+      getHighestPriorityLane(update.lanes) !==
       getHighestPriorityLane(this._flushLanes)
+    ) {
+      return false;
+    }
+    // Updates of the same root build on each other's commit.
+    const { level, owner } = update.transaction.scope;
+    return (
+      level > 0 ||
+      this._updateBatch.every(
+        ({ transaction }) => transaction.scope.owner !== owner,
+      )
     );
   }
 }
-- 
2.43.0


From 652124c0567e8fedd7c6c272c211c90643c803ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 07/33] fix: do not compute eager state while actions are
 skipped

An action dispatched while a lower-priority action was still skipped was
evaluated against a state without that action, so it could be dropped as
unchanged or overwrite the skipped action's result.
---
 src/component.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 0a3567e..ad97aba 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -374,7 +374,10 @@ export class RenderContext {
           const { pendingActions, currentState, reducer } = dispatcher;
           let eagerState: TState | undefined;
 
-          if (pendingActions.length === 0) {
+          if (
+            pendingActions.length === 0 &&
+            hook.memoizedActions.length === 0
+          ) {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = reducer(currentState, payload);
 
@@ -400,12 +403,13 @@ export class RenderContext {
         currentState: getInitialState(initialState),
         pendingActions: [],
       };
-      currentHook = {
+      const hook: Hook.ReducerHook<TState, TAction> = {
         type: HookType.REDUCER,
         memoizedState: dispatcher.currentState,
         memoizedActions: [],
         dispatcher,
       };
+      currentHook = hook;
       this._hooks.push(currentHook);
     }
 
-- 
2.43.0


From 9c2102d0f93052a3459aa146bc71262c40095833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 08/33] fix: empty an attribute when its value becomes true

---
 src/dom/part.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index dd78029..91efe77 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -55,12 +55,13 @@ export class AttributePart extends DOMPart {
   }
 
   override commitMount(value: unknown): void {
-    if (value == null) {
+    if (value == null || value === false) {
       this._node.removeAttribute(this._name);
-    } else if (typeof value === 'boolean') {
-      this._node.toggleAttribute(this._name, value);
     } else {
-      this._node.setAttribute(this._name, toStringOrEmpty(value));
+      this._node.setAttribute(
+        this._name,
+        value === true ? '' : toStringOrEmpty(value),
+      );
     }
   }
 
-- 
2.43.0


From 3946b3738e2aae56d32ad4e415caec8a15acbb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 09/33] fix: keep a reference that moves to another place on
 its element

---
 src/component.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index ad97aba..f883abb 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -446,6 +446,8 @@ export class RenderContext {
 
 export class Ref<T> implements Bindable {
   current: T;
+  /** @internal */
+  _binding: object | null = null;
 
   constructor(current: T) {
     this.current = current;
@@ -456,9 +458,12 @@ export class Ref<T> implements Bindable {
 
   [toElement](): VElement {
     return createBind((instance: T) => {
+      // The same instance may be bound again before it is unbound elsewhere.
+      const binding = {};
       this.current = instance;
+      this._binding = binding;
       return () => {
-        if (this.current === instance) {
+        if (this.current === instance && this._binding === binding) {
           this.current = null as T;
         }
       };
-- 
2.43.0


From d80eb8ca0e71003b535bb0c233669ce470000602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 10/33] fix: keep classes and styles that move between elements
 of an array

---
 src/dom/part.ts | 120 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 90 insertions(+), 30 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 91efe77..2f7b356 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -73,14 +73,24 @@ export class AttributePart extends DOMPart {
 }
 
 export class ClassPart extends AttributePart {
+  // Elements of an array share the part, so a class is only removed when no
+  // element requests it anymore.
+  private readonly _requests: Map<string, number> = new Map();
+
   override commitMount(value: unknown): void {
-    updateClass(this._node.classList, {}, normalizeClass(value));
+    updateClass(
+      this._node.classList,
+      this._requests,
+      {},
+      normalizeClass(value),
+    );
   }
 
   override commitUpdate(oldValue: unknown, newValue: unknown): void {
     if (!is(oldValue, newValue)) {
       updateClass(
         this._node.classList,
+        this._requests,
         normalizeClass(oldValue),
         normalizeClass(newValue),
       );
@@ -89,7 +99,12 @@ export class ClassPart extends AttributePart {
 
   override commitUnmount(value: unknown, cascade: boolean): void {
     if (!cascade) {
-      updateClass(this._node.classList, normalizeClass(value), {});
+      updateClass(
+        this._node.classList,
+        this._requests,
+        normalizeClass(value),
+        {},
+      );
     }
   }
 }
@@ -271,14 +286,24 @@ export class ElementPart extends DOMPart {
 }
 
 export class StylePart extends AttributePart {
+  // Elements of an array share the part, so a property is only removed when no
+  // element requests it anymore.
+  private readonly _requests: Map<string, number> = new Map();
+
   override commitMount(value: unknown): void {
-    updateStyle((this._node as HTMLElement).style, {}, normalizeStyle(value));
+    updateStyle(
+      (this._node as HTMLElement).style,
+      this._requests,
+      {},
+      normalizeStyle(value),
+    );
   }
 
   override commitUpdate(oldValue: unknown, newValue: unknown): void {
     if (!is(oldValue, newValue)) {
       updateStyle(
         (this._node as HTMLElement).style,
+        this._requests,
         normalizeStyle(oldValue),
         normalizeStyle(newValue),
       );
@@ -287,7 +312,12 @@ export class StylePart extends AttributePart {
 
   override commitUnmount(value: unknown, cascade: boolean): void {
     if (!cascade) {
-      updateStyle((this._node as HTMLElement).style, normalizeStyle(value), {});
+      updateStyle(
+        (this._node as HTMLElement).style,
+        this._requests,
+        normalizeStyle(value),
+        {},
+      );
     }
   }
 }
@@ -366,54 +396,84 @@ function parseCSSText(cssText: string): StyleMap {
   return styleMap;
 }
 
-function toggleClass(
-  classList: DOMTokenList,
-  component: string,
-  enabled: boolean,
-): void {
-  for (const token of component.trim().split(CLASS_TOKEN_SEPARATOR_PATTERN)) {
-    if (token !== '') {
-      classList.toggle(token, enabled);
+function addRequest(requests: Map<string, number>, name: string): void {
+  requests.set(name, (requests.get(name) ?? 0) + 1);
+}
+
+function removeRequest(requests: Map<string, number>, name: string): boolean {
+  const count = requests.get(name) ?? 0;
+  if (count > 1) {
+    requests.set(name, count - 1);
+    return false;
+  }
+  requests.delete(name);
+  return true;
+}
+
+function getRequestedTokens(classMap: ClassMap): Set<string> {
+  const tokens = new Set<string>();
+  for (const component of Object.keys(classMap)) {
+    for (const token of component.trim().split(CLASS_TOKEN_SEPARATOR_PATTERN)) {
+      if (token !== '') {
+        if (classMap[component]) {
+          tokens.add(token);
+        } else {
+          tokens.delete(token);
+        }
+      }
+    }
+  }
+  return tokens;
+}
+
+function getRequestedProperties(styleMap: StyleMap): Map<string, string> {
+  const properties = new Map<string, string>();
+  for (const key of Object.keys(styleMap)) {
+    const value = styleMap[key];
+    if (value != null) {
+      properties.set(toCSSPropertyName(key), value);
     }
   }
+  return properties;
 }
 
 function updateClass(
   classList: DOMTokenList,
+  requests: Map<string, number>,
   oldTokens: ClassMap,
   newTokens: ClassMap,
 ): void {
-  for (const component of Object.keys(oldTokens)) {
-    if (!Object.hasOwn(newTokens, component)) {
-      toggleClass(classList, component, false);
-    }
+  for (const token of getRequestedTokens(newTokens)) {
+    addRequest(requests, token);
+    classList.toggle(token, true);
   }
 
-  for (const component of Object.keys(newTokens)) {
-    toggleClass(classList, component, newTokens[component]!);
+  for (const token of getRequestedTokens(oldTokens)) {
+    if (removeRequest(requests, token)) {
+      classList.toggle(token, false);
+    }
   }
 }
 
 function updateStyle(
   style: CSSStyleDeclaration,
+  requests: Map<string, number>,
   oldProps: StyleMap,
   newProps: StyleMap,
 ): void {
-  for (const key of Object.keys(oldProps)) {
-    if (
-      oldProps[key] != null &&
-      (!Object.hasOwn(newProps, key) || newProps[key] == null)
-    ) {
-      const name = toCSSPropertyName(key);
+  const newProperties = getRequestedProperties(newProps);
+
+  for (const name of newProperties.keys()) {
+    addRequest(requests, name);
+  }
+
+  for (const name of getRequestedProperties(oldProps).keys()) {
+    if (removeRequest(requests, name)) {
       style.removeProperty(name);
     }
   }
 
-  for (const key of Object.keys(newProps)) {
-    const value = newProps[key];
-    if (value != null) {
-      const name = toCSSPropertyName(key);
-      style.setProperty(name, value);
-    }
+  for (const [name, value] of newProperties) {
+    style.setProperty(name, value);
   }
 }
-- 
2.43.0


From b364779154566745feb8aa2348604602978382f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 11/33] fix: do not skip a state update whose state was never
 committed

---
 src/component.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index f883abb..3719e99 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -134,6 +134,8 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   _context: RenderContext | null = null;
   /** @internal */
   _connectedNode: RenderNode.ComponentNode<TProps> | null = null;
+  /** @internal */
+  _isStale: boolean = false;
 
   constructor(
     componentFn: ComponentFunction<TProps, TReturn>,
@@ -149,6 +151,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
     this._pendingLanes &= ~lanes;
+    this._isStale = true;
     if (this._context !== null) {
       this._context._scope = scope;
       this._context._lanes = lanes;
@@ -181,6 +184,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
       }
     }
     this._connectedNode = node;
+    this._isStale = false;
   }
 
   disconnect(): void {
@@ -381,7 +385,12 @@ export class RenderContext {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = reducer(currentState, payload);
 
-            if (areStatesEqual(eagerState, currentState)) {
+            // The current state may not have been committed, since the batch
+            // that rendered it failed.
+            if (
+              !this._instance._isStale &&
+              areStatesEqual(eagerState, currentState)
+            ) {
               return {
                 id: -1,
                 lanes: NoLanes,
-- 
2.43.0


From 932f11b59f59cff17aa237e8cb24e1eb59febd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 12/33] fix: treat every middleware registration as its own

---
 src/runtime.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 2d24516..52d3f26 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -302,9 +302,13 @@ export class Runtime implements Renderer, Dispatcher {
   }
 
   use(middleware: Middleware): () => void {
-    this._middlewares.push(middleware);
+    // The same middleware may be registered more than once.
+    const registration: Middleware = {
+      handle: (update, render) => middleware.handle(update, render),
+    };
+    this._middlewares.push(registration);
     return () => {
-      const index = this._middlewares.indexOf(middleware);
+      const index = this._middlewares.indexOf(registration);
       if (index >= 0) {
         // Must not be called from within Middleware.handle() before the
         // remaining middleware have run; pipeline indices shift, which is
-- 
2.43.0


From 0487e37ca35d4b8ca8aa8bb821055c7d5d85ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 13/33] fix: clear the pending flag of overlapping and throwing
 transitions

---
 src/addons/hooks.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d49b3f1..4b6577e 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -105,15 +105,22 @@ export function Transition(): HookFunction<
   ]
 > {
   return (context) => {
-    const [isPending, setIsPending] = context.useState(false);
+    // Actions may overlap, so the flag is cleared when the last one finishes.
+    const [pendingCount, setPendingCount] = context.useState(0);
 
     const startTransition = <T>(action: (transition: number) => T): T => {
       return context.startTransition((transition) => {
         const endTransition = () => {
-          setIsPending(false, { transition });
+          setPendingCount((count) => count - 1, { transition });
         };
-        setIsPending(true, { flushSync: true });
-        const result = action(transition);
+        setPendingCount((count) => count + 1, { flushSync: true });
+        let result: T;
+        try {
+          result = action(transition);
+        } catch (error) {
+          endTransition();
+          throw error;
+        }
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
         } else {
@@ -123,6 +130,6 @@ export function Transition(): HookFunction<
       });
     };
 
-    return [isPending, startTransition];
+    return [pendingCount > 0, startTransition];
   };
 }
-- 
2.43.0


From 4d2a79859dc05f6dbbee28b0faa4073aa19a8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 14/33] fix: tell partials apart by where their strings belong

---
 src/velement.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/velement.ts b/src/velement.ts
index dae71c6..622d0c6 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -52,8 +52,10 @@ export class Partial {
     for (let i = 0, l = values.length; i < l; i++) {
       const value = values[i]!;
       if (value instanceof Partial) {
-        literalStrings.push(...value.strings);
-        literalPositions.push(i);
+        for (const string of value.strings) {
+          literalStrings.push(string);
+          literalPositions.push(i);
+        }
         flattenedValues.push(...value.values);
       } else {
         flattenedValues.push(value);
-- 
2.43.0


From 5d43f25d6145b5defb7f6332fbe40ae581b5e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 15/33] fix: continue with the next routes when child routes do
 not match

---
 src/addons/router/router.ts | 73 ++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/addons/router/router.ts b/src/addons/router/router.ts
index 88c336b..892c8eb 100644
--- a/src/addons/router/router.ts
+++ b/src/addons/router/router.ts
@@ -32,6 +32,11 @@ type CollectCaptures<TPatterns> = TPatterns extends [infer Head, ...infer Tail]
     ? []
     : unknown[];
 
+interface RouteMatch<TResult> {
+  route: Route<TResult, Pattern[], any>;
+  captures: unknown[];
+}
+
 export class Router<TResult> {
   private readonly _routes: Route<TResult, Pattern[], []>[] = [];
 
@@ -41,39 +46,8 @@ export class Router<TResult> {
 
   match(url: string): TResult | undefined {
     const components = stripLeadingSlash(url).split('/');
-    const collectedCaptures: unknown[] = [];
-
-    let routes = this._routes;
-    let routeIndex = 0;
-    let componentIndex = 0;
-
-    while (routeIndex < routes.length) {
-      const { patterns, childRoutes, resolver } = routes[routeIndex]!;
-      const captures = collectCaptures(
-        patterns,
-        components,
-        componentIndex,
-        url,
-      );
-
-      if (captures !== null) {
-        collectedCaptures.push(...captures);
-        if (components.length === componentIndex + patterns.length) {
-          return resolver?.(collectedCaptures, url);
-        }
-        if (childRoutes.length > 0) {
-          routes = childRoutes;
-          routeIndex = 0;
-          componentIndex += patterns.length;
-        } else {
-          routeIndex++;
-        }
-      } else {
-        routeIndex++;
-      }
-    }
-
-    return undefined;
+    const match = matchRoutes(this._routes, components, 0, [], url);
+    return match?.route.resolver?.(match.captures, url);
   }
 }
 
@@ -122,6 +96,39 @@ function collectCaptures<TPatterns extends Pattern[]>(
   return captures as CollectCaptures<TPatterns>;
 }
 
+function matchRoutes<TResult>(
+  routes: Route<TResult, Pattern[], any>[],
+  components: string[],
+  startIndex: number,
+  inheritCaptures: unknown[],
+  url: string,
+): RouteMatch<TResult> | null {
+  for (const route of routes) {
+    const { patterns, childRoutes } = route;
+    const ownCaptures = collectCaptures(patterns, components, startIndex, url);
+
+    if (ownCaptures !== null) {
+      const captures = [...inheritCaptures, ...ownCaptures];
+      const endIndex = startIndex + patterns.length;
+      if (components.length === endIndex) {
+        return { route, captures };
+      }
+      const match = matchRoutes(
+        childRoutes,
+        components,
+        endIndex,
+        captures,
+        url,
+      );
+      if (match !== null) {
+        return match;
+      }
+    }
+  }
+
+  return null;
+}
+
 function stripLeadingSlash(path: string): string {
   return path[0] === '/' ? path.slice(1) : path;
 }
-- 
2.43.0


From 74142852962c631a1d44429217a756f3f23f77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 16/33] fix: do not take NaN for an integer

---
 src/addons/router/matchers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/router/matchers.ts b/src/addons/router/matchers.ts
index 11b6438..a6c7e12 100644
--- a/src/addons/router/matchers.ts
+++ b/src/addons/router/matchers.ts
@@ -27,7 +27,7 @@ export function encoded(component: string): string {
 
 export function integer(component: string): number | undefined {
   const n = Number.parseInt(component, 10);
-  return n.toString() === component ? n : undefined;
+  return Number.isInteger(n) && n.toString() === component ? n : undefined;
 }
 
 export function keyword<const T extends string>(s: T): Matcher<T> {
-- 
2.43.0


From 9780a88d81b66818435c4796b6ecc13543fe544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 17/33] fix: do not notify subscribers taken off during the
 notification

---
 src/addons/signal/linked-list.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/linked-list.ts b/src/addons/signal/linked-list.ts
index a93a955..3a68d5e 100644
--- a/src/addons/signal/linked-list.ts
+++ b/src/addons/signal/linked-list.ts
@@ -20,7 +20,10 @@ export class LinkedList<T> implements Iterable<T> {
 
   *[Symbol.iterator](): Generator<T> {
     for (let node = this._head; node !== null; node = node.next) {
-      yield node.value;
+      // The node may have been deleted while the list is being iterated.
+      if (node.owner === this) {
+        yield node.value;
+      }
     }
   }
 
-- 
2.43.0


From 706192d0ea85d7571649f8d492a535575c89af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 18/33] fix: reading a missing property does not make it appear

---
 src/addons/signal/derivable.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8c288c3..4eab0d9 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -359,6 +359,7 @@ function resolveProperty<T>(
   const descriptor = getPropertyDescriptor(target, key);
 
   if (descriptor === undefined) {
+    // The property does not exist until it is set.
     return new Derivable(
       new Atom<unknown>(undefined),
       receiver,
@@ -366,7 +367,8 @@ function resolveProperty<T>(
       FLAG_CONFIGURABLE_PROPERTY |
         FLAG_ENUMERABLE_PROPERTY |
         FLAG_WRITABLE_PROPERTY |
-        FLAG_DYNAMIC_PROPERTY,
+        FLAG_DYNAMIC_PROPERTY |
+        FLAG_DELETED_PROPERTY,
     );
   }
 
-- 
2.43.0


From c4552dab5c11e2665206914bb23c0dec54d3984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 19/33] fix: a deleted property has no value and tells those
 who use it

---
 src/addons/signal/derivable.ts | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 4eab0d9..490310c 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -160,6 +160,16 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
+  const source = prop._source;
+  if (prop._key === null || prop._flags & FLAG_DELETED_PROPERTY) {
+    return;
+  }
+  if (source instanceof Atom) {
+    source.write(undefined);
+    source.invalidate({ type: 'delete', source, path: [] });
+    detachProperties(prop);
+    prop._flags &= ~FLAG_DIRTY_VALUE;
+  }
   for (
     let owner = prop._owner, reversePath = [prop._key!];
     owner !== null;
@@ -181,6 +191,15 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   prop._flags |= FLAG_DELETED_PROPERTY;
 }
 
+function detachProperties<T>(receiver: Derivable<T>): void {
+  if (receiver._properties !== null) {
+    for (const prop of receiver._properties.values()) {
+      prop._owner = null;
+    }
+    receiver._properties.clear();
+  }
+}
+
 function draftTarget<T>(
   receiver: Derivable<T>,
   target: T & object,
@@ -468,12 +487,7 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
     owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
-      prop._owner = null;
-    }
-    receiver._properties.clear();
-  }
+  detachProperties(receiver);
   receiver._flags |= FLAG_PENDING_VALUE;
   receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
-- 
2.43.0


From f85cf1c300c3decef3596fe4d98de425cb19ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 20/33] fix: drafts stay with the object they were taken of

---
 src/addons/signal/derivable.ts | 87 ++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 31 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 490310c..90254aa 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -1,3 +1,4 @@
+import { is } from '../../compare.js';
 import {
   Accessor,
   Atom,
@@ -10,6 +11,11 @@ import {
 
 const UNWRAP_TAG = Symbol();
 
+const detachedOwners: WeakMap<
+  Map<NormalizedKey, Derivable<unknown>>,
+  Derivable<any>
+> = new WeakMap();
+
 const NO_FLAGS /*                   */ = 0;
 const FLAG_NEEDS_COMMIT /*          */ = 0b0000001;
 const FLAG_PENDING_VALUE /*         */ = 0b0000010;
@@ -165,9 +171,9 @@ function deleteProperty<T>(prop: Derivable<T>): void {
     return;
   }
   if (source instanceof Atom) {
+    detachProperties(prop, source.value);
     source.write(undefined);
     source.invalidate({ type: 'delete', source, path: [] });
-    detachProperties(prop);
     prop._flags &= ~FLAG_DIRTY_VALUE;
   }
   for (
@@ -191,12 +197,23 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   prop._flags |= FLAG_DELETED_PROPERTY;
 }
 
-function detachProperties<T>(receiver: Derivable<T>): void {
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
-      prop._owner = null;
+function detachProperties<T>(receiver: Derivable<T>, oldValue: T): void {
+  const properties = receiver._properties;
+  if (properties !== null) {
+    // The properties and the drafts of the old value no longer belong to the
+    // receiver, but they still see each other.
+    const owner: Derivable<any> = new Derivable(
+      new Atom(oldValue),
+      null,
+      null,
+      receiver._flags & FLAG_NEEDS_COMMIT,
+    );
+    for (const prop of properties.values()) {
+      prop._owner = owner;
     }
-    receiver._properties.clear();
+    owner._properties = properties;
+    detachedOwners.set(properties, owner);
+    receiver._properties = null;
   }
 }
 
@@ -205,9 +222,15 @@ function draftTarget<T>(
   target: T & object,
   trackProperty: typeof getProperty = getProperty,
 ): { proxy: T; revoke: () => void } {
+  receiver._properties ??= new Map();
+  const properties = receiver._properties;
+  const getReceiver = (): Derivable<any> =>
+    receiver._properties === properties
+      ? receiver
+      : detachedOwners.get(properties)!;
   const { proxy, revoke } = Proxy.revocable(target, {
     deleteProperty(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(getReceiver(), target, key);
       const success = !!(prop._flags & FLAG_CONFIGURABLE_PROPERTY);
       if (success) {
         deleteProperty(prop);
@@ -216,9 +239,9 @@ function draftTarget<T>(
     },
     get(target, key, _proxyReceiver) {
       if (key === UNWRAP_TAG) {
-        return commitValue(receiver);
+        return commitValue(getReceiver());
       }
-      const prop = trackProperty(receiver, target, key);
+      const prop = trackProperty(getReceiver(), target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -233,7 +256,7 @@ function draftTarget<T>(
       return commitValue(prop);
     },
     getOwnPropertyDescriptor(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(getReceiver(), target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -248,7 +271,7 @@ function draftTarget<T>(
       return Reflect.getOwnPropertyDescriptor(target, key);
     },
     set(target, key, value, _proxyReceiver) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(getReceiver(), target, key);
       const success = !!(prop._flags & FLAG_WRITABLE_PROPERTY);
       if (success) {
         setPendingValue(prop, finalizeValue(value));
@@ -259,33 +282,31 @@ function draftTarget<T>(
       if (key === UNWRAP_TAG) {
         return true;
       }
-      const prop = receiver._properties?.get(key);
+      const prop = properties.get(key);
       return prop !== undefined
         ? !(prop._flags & FLAG_DELETED_PROPERTY)
         : Reflect.has(target, key);
     },
     ownKeys(target) {
       const baseKeys = Reflect.ownKeys(target);
-      if (receiver._properties !== null) {
-        const deletedKeys: NormalizedKey[] = [];
-        const dynamicKeys: NormalizedKey[] = [];
-        for (const [key, prop] of receiver._properties.entries()) {
-          if (prop._flags & FLAG_DELETED_PROPERTY) {
-            deletedKeys.push(key);
-          } else if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
-            dynamicKeys.push(key);
-          }
+      const deletedKeys: NormalizedKey[] = [];
+      const dynamicKeys: NormalizedKey[] = [];
+      for (const [key, prop] of properties.entries()) {
+        if (prop._flags & FLAG_DELETED_PROPERTY) {
+          deletedKeys.push(key);
+        } else if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
+          dynamicKeys.push(key);
         }
-        if (deletedKeys.length > 0 || dynamicKeys.length > 0) {
-          const derivedKeys = new Set(baseKeys);
-          for (const key of deletedKeys) {
-            derivedKeys.delete(key);
-          }
-          for (const key of dynamicKeys) {
-            derivedKeys.add(key);
-          }
-          return [...derivedKeys];
+      }
+      if (deletedKeys.length > 0 || dynamicKeys.length > 0) {
+        const derivedKeys = new Set(baseKeys);
+        for (const key of deletedKeys) {
+          derivedKeys.delete(key);
         }
+        for (const key of dynamicKeys) {
+          derivedKeys.add(key);
+        }
+        return [...derivedKeys];
       }
       return baseKeys;
     },
@@ -465,6 +486,8 @@ function resolveProperty<T>(
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   const oldValue = receiver._source.value;
+  const needsReset =
+    !is(oldValue, newValue) || (receiver._flags & FLAG_NEEDS_COMMIT) !== 0;
   // Intentionally throws a TypeError if signal is a Computed (which has no setter).
   (receiver._source as WritableSignal<T>).value = newValue;
   for (
@@ -487,7 +510,9 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
     owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  detachProperties(receiver);
+  if (needsReset) {
+    detachProperties(receiver, oldValue);
+  }
   receiver._flags |= FLAG_PENDING_VALUE;
   receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
-- 
2.43.0


From 56bd462d11046a88fae8648e6b3773015a7f4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 21/33] fix: keep the length of an array in step with its
 elements

---
 src/addons/signal/derivable.ts | 52 ++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 90254aa..4f2211e 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -165,17 +165,22 @@ function commitValue<T>(receiver: Derivable<T>): T {
   return pendingValue;
 }
 
-function deleteProperty<T>(prop: Derivable<T>): void {
+function clearProperty<T>(prop: Derivable<T>): void {
   const source = prop._source;
-  if (prop._key === null || prop._flags & FLAG_DELETED_PROPERTY) {
-    return;
-  }
   if (source instanceof Atom) {
     detachProperties(prop, source.value);
     source.write(undefined);
     source.invalidate({ type: 'delete', source, path: [] });
     prop._flags &= ~FLAG_DIRTY_VALUE;
   }
+  prop._flags |= FLAG_DYNAMIC_PROPERTY | FLAG_DELETED_PROPERTY;
+}
+
+function deleteProperty<T>(prop: Derivable<T>): void {
+  if (prop._key === null || prop._flags & FLAG_DELETED_PROPERTY) {
+    return;
+  }
+  clearProperty(prop);
   for (
     let owner = prop._owner, reversePath = [prop._key!];
     owner !== null;
@@ -194,7 +199,6 @@ function deleteProperty<T>(prop: Derivable<T>): void {
     owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  prop._flags |= FLAG_DELETED_PROPERTY;
 }
 
 function detachProperties<T>(receiver: Derivable<T>, oldValue: T): void {
@@ -381,6 +385,14 @@ function getPropertyFlags(descriptor: PropertyDescriptor): number {
   return flags;
 }
 
+function isArrayIndex(key: NormalizedKey): key is string {
+  if (typeof key !== 'string') {
+    return false;
+  }
+  const index = Number(key) >>> 0;
+  return index.toString() === key && index !== 0xffffffff;
+}
+
 function isNonPrimitive(value: unknown): value is object {
   return (
     value !== null && (typeof value === 'object' || typeof value === 'function')
@@ -513,6 +525,9 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   if (needsReset) {
     detachProperties(receiver, oldValue);
   }
+  if (receiver._owner !== null) {
+    syncArrayLength(receiver._owner, receiver._key!, oldValue, newValue);
+  }
   receiver._flags |= FLAG_PENDING_VALUE;
   receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
@@ -525,3 +540,30 @@ function shallowClone<T>(target: T): T {
         Object.getOwnPropertyDescriptors(target),
       );
 }
+
+function syncArrayLength(
+  owner: Derivable<unknown>,
+  key: NormalizedKey,
+  oldValue: unknown,
+  newValue: unknown,
+): void {
+  const target = owner._source.value;
+  if (!Array.isArray(target)) {
+    return;
+  }
+  if (key === 'length') {
+    for (let i = newValue as number; i < (oldValue as number); i++) {
+      const prop = getProperty(owner, target, i.toString());
+      if (!(prop._flags & FLAG_DELETED_PROPERTY)) {
+        clearProperty(prop);
+      }
+    }
+  } else if (isArrayIndex(key)) {
+    const prop = getProperty(owner, target, 'length');
+    const length = Number(key) + 1;
+    if ((prop._source.value as number) < length) {
+      (prop._source as WritableSignal<unknown>).value = length;
+      prop._flags |= FLAG_PENDING_VALUE;
+    }
+  }
+}
-- 
2.43.0


From 30f68c65c89a8f1aaf58841b72cdd22b0e4b007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 22/33] fix: a draft describes its properties with what was
 written

---
 src/addons/signal/derivable.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 4f2211e..2952b9d 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -266,13 +266,18 @@ function draftTarget<T>(
       }
       if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
         return {
-          value: prop._source.value,
+          value: prop.value,
           writable: true,
           enumerable: true,
           configurable: true,
         };
       }
-      return Reflect.getOwnPropertyDescriptor(target, key);
+      const descriptor: PropertyDescriptor | undefined =
+        Reflect.getOwnPropertyDescriptor(target, key);
+      if (descriptor?.writable) {
+        descriptor.value = prop.value;
+      }
+      return descriptor;
     },
     set(target, key, value, _proxyReceiver) {
       const prop = getProperty(getReceiver(), target, key);
-- 
2.43.0


From eff4cb1b0ea98670fde494bdf8127756ba82176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 23/33] fix: commit what accessors write and accept writes to
 them in drafts

---
 src/addons/signal/derivable.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 2952b9d..444a7fc 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -149,6 +149,16 @@ export function unwrap<T>(value: T): T {
 function commitValue<T>(receiver: Derivable<T>): T {
   let pendingValue = receiver._source.value;
   if (receiver._flags & FLAG_NEEDS_COMMIT) {
+    // Accessors write to other properties, so they have to come first.
+    for (const prop of receiver._properties!.values()) {
+      if (
+        prop._source instanceof Accessor &&
+        prop._flags & FLAG_PENDING_VALUE
+      ) {
+        commitValue(prop);
+        prop._flags &= ~FLAG_PENDING_VALUE;
+      }
+    }
     pendingValue = shallowClone(pendingValue);
     for (const [key, prop] of receiver._properties!.entries()) {
       if (prop._flags & FLAG_DELETED_PROPERTY) {
@@ -454,7 +464,7 @@ function resolveProperty<T>(
       ),
       receiver,
       key,
-      flags,
+      flags | FLAG_WRITABLE_PROPERTY,
     );
   }
 
-- 
2.43.0


From ca3d97c7e9c6c2e5a6bb9b4cece384743d38e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 24/33] fix: subscribers of derivable state see what was
 written

---
 src/addons/signal/derivable.ts | 108 +++++++++++++++++++++------------
 src/addons/signal/signal.ts    |  10 ++-
 2 files changed, 78 insertions(+), 40 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 444a7fc..ebcaddc 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -3,6 +3,7 @@ import {
   Accessor,
   Atom,
   Computed,
+  type InvalidateEvent,
   Signal,
   type Subscriber,
   type Unsubscribe,
@@ -175,40 +176,43 @@ function commitValue<T>(receiver: Derivable<T>): T {
   return pendingValue;
 }
 
+function advanceOwners<T>(receiver: Derivable<T>): void {
+  for (let owner = receiver._owner; owner !== null; owner = owner._owner) {
+    owner._flags |= FLAG_DIRTY_VALUE;
+    if (owner._source instanceof WritableSignal) {
+      owner._source.advance();
+    }
+  }
+}
+
 function clearProperty<T>(prop: Derivable<T>): void {
   const source = prop._source;
+  prop._flags |= FLAG_DYNAMIC_PROPERTY | FLAG_DELETED_PROPERTY;
   if (source instanceof Atom) {
     detachProperties(prop, source.value);
-    source.write(undefined);
-    source.invalidate({ type: 'delete', source, path: [] });
     prop._flags &= ~FLAG_DIRTY_VALUE;
+    source.write(undefined);
+    source.advance();
   }
-  prop._flags |= FLAG_DYNAMIC_PROPERTY | FLAG_DELETED_PROPERTY;
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
+  const source = prop._source;
   if (prop._key === null || prop._flags & FLAG_DELETED_PROPERTY) {
     return;
   }
   clearProperty(prop);
-  for (
-    let owner = prop._owner, reversePath = [prop._key!];
-    owner !== null;
-    owner = owner._owner
-  ) {
-    if (owner._source instanceof WritableSignal) {
-      const level = reversePath.length;
-      owner._source.invalidate({
-        type: 'delete',
-        source: prop._source,
-        get path() {
-          return reversePath.slice(0, level).reverse();
-        },
-      });
-    }
-    owner._flags |= FLAG_DIRTY_VALUE;
-    reversePath.push(owner._key!);
+  advanceOwners(prop);
+  if (source instanceof Atom) {
+    source.notify({ type: 'delete', source, path: [] });
   }
+  notifyOwners(prop, (path) => ({
+    type: 'delete',
+    source,
+    get path() {
+      return path();
+    },
+  }));
 }
 
 function detachProperties<T>(receiver: Derivable<T>, oldValue: T): void {
@@ -511,12 +515,10 @@ function resolveProperty<T>(
   return new Derivable(new Atom(value), receiver, key, flags);
 }
 
-function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
-  const oldValue = receiver._source.value;
-  const needsReset =
-    !is(oldValue, newValue) || (receiver._flags & FLAG_NEEDS_COMMIT) !== 0;
-  // Intentionally throws a TypeError if signal is a Computed (which has no setter).
-  (receiver._source as WritableSignal<T>).value = newValue;
+function notifyOwners<T>(
+  receiver: Derivable<T>,
+  createEvent: (path: () => PropertyKey[]) => InvalidateEvent,
+): void {
   for (
     let owner = receiver._owner, reversePath = [receiver._key!];
     owner !== null;
@@ -524,27 +526,51 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   ) {
     if (owner._source instanceof WritableSignal) {
       const level = reversePath.length;
-      owner._source.invalidate({
-        type: 'set',
-        source: receiver._source,
-        get path() {
-          return reversePath.slice(0, level).reverse();
-        },
-        oldValue,
-        newValue,
-      });
+      owner._source.notify(
+        createEvent(() => reversePath.slice(0, level).reverse()),
+      );
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  if (needsReset) {
+}
+
+function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
+  const source = receiver._source;
+  const oldValue = source.value;
+  if (!(source instanceof WritableSignal)) {
+    // Intentionally throws a TypeError because the signal has no setter.
+    (source as WritableSignal<T>).value = newValue;
+    return;
+  }
+  // Everything has to be up to date before any subscriber is notified.
+  const isChanged = !is(oldValue, newValue);
+  if (isChanged || receiver._flags & FLAG_NEEDS_COMMIT) {
     detachProperties(receiver, oldValue);
   }
+  receiver._flags |= FLAG_PENDING_VALUE;
+  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
+  if (isChanged || source instanceof Accessor) {
+    source.write(newValue);
+  }
+  if (isChanged) {
+    source.advance();
+  }
+  advanceOwners(receiver);
   if (receiver._owner !== null) {
     syncArrayLength(receiver._owner, receiver._key!, oldValue, newValue);
   }
-  receiver._flags |= FLAG_PENDING_VALUE;
-  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
+  if (isChanged) {
+    source.notify({ type: 'set', source, path: [], oldValue, newValue });
+  }
+  notifyOwners(receiver, (path) => ({
+    type: 'set',
+    source,
+    get path() {
+      return path();
+    },
+    oldValue,
+    newValue,
+  }));
 }
 
 function shallowClone<T>(target: T): T {
@@ -569,8 +595,12 @@ function syncArrayLength(
   if (key === 'length') {
     for (let i = newValue as number; i < (oldValue as number); i++) {
       const prop = getProperty(owner, target, i.toString());
+      const source = prop._source;
       if (!(prop._flags & FLAG_DELETED_PROPERTY)) {
         clearProperty(prop);
+        if (source instanceof Atom) {
+          source.notify({ type: 'delete', source, path: [] });
+        }
       }
     }
   } else if (isArrayIndex(key)) {
diff --git a/src/addons/signal/signal.ts b/src/addons/signal/signal.ts
index 164eb59..23009b2 100644
--- a/src/addons/signal/signal.ts
+++ b/src/addons/signal/signal.ts
@@ -122,8 +122,16 @@ export abstract class WritableSignal<T> extends Signal<T> {
     return this._version;
   }
 
-  invalidate<T>(event: InvalidateEvent<T>): void {
+  advance(): void {
     this._version++;
+  }
+
+  invalidate<T>(event: InvalidateEvent<T>): void {
+    this.advance();
+    this.notify(event);
+  }
+
+  notify<T>(event: InvalidateEvent<T>): void {
     for (const subscriber of this._subscribers) {
       subscriber(event as InvalidateEvent<unknown>);
     }
-- 
2.43.0


From be55ad319081b6849ac75786b407d933191d2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 25/33] fix: getters of derivable state follow what they read

---
 src/addons/signal/derivable.ts | 223 +++++++++++++++++++++++----------
 1 file changed, 156 insertions(+), 67 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index ebcaddc..756b172 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -1,8 +1,6 @@
 import { is } from '../../compare.js';
 import {
-  Accessor,
   Atom,
-  Computed,
   type InvalidateEvent,
   Signal,
   type Subscriber,
@@ -143,6 +141,126 @@ export class Shallow<T> extends Signal<T> {
   }
 }
 
+/**
+ * The result of a getter. It depends on what the getter has read the last time.
+ */
+class Getter<T> extends Signal<T> {
+  private readonly _get: (onRead: (source: Signal<unknown>) => void) => T;
+  private readonly _subscriptions: Set<{
+    subscriber: Subscriber;
+    unsubscribes: Map<Signal<unknown>, Unsubscribe>;
+  }> = new Set();
+  private _dependencies: Set<Signal<unknown>> = new Set();
+  private _memoizedResult: T;
+  private _memoizedVersion: number = 0;
+  private _baseVersion: number = 0;
+
+  constructor(get: (onRead: (source: Signal<unknown>) => void) => T) {
+    super();
+    this._get = get;
+    this._memoizedResult = this._compute(0);
+  }
+
+  get value(): T {
+    const currentVersion = this.version;
+    if (this._memoizedVersion < currentVersion) {
+      this._memoizedResult = this._compute(currentVersion);
+      this._memoizedVersion = currentVersion;
+    }
+    return this._memoizedResult;
+  }
+
+  get version(): number {
+    return this._baseVersion + sumVersions(this._dependencies);
+  }
+
+  subscribe(subscriber: Subscriber): Unsubscribe {
+    const subscription = { subscriber, unsubscribes: new Map() };
+    for (const dependency of this._dependencies) {
+      subscription.unsubscribes.set(
+        dependency,
+        dependency.subscribe(subscriber),
+      );
+    }
+    this._subscriptions.add(subscription);
+    return () => {
+      for (const unsubscribe of subscription.unsubscribes.values()) {
+        unsubscribe();
+      }
+      this._subscriptions.delete(subscription);
+    };
+  }
+
+  private _compute(currentVersion: number): T {
+    const dependencies = new Set<Signal<unknown>>();
+    const get = this._get;
+    const result = get((source) => {
+      dependencies.add(source);
+    });
+    for (const { subscriber, unsubscribes } of this._subscriptions) {
+      for (const [dependency, unsubscribe] of unsubscribes) {
+        if (!dependencies.has(dependency)) {
+          unsubscribe();
+          unsubscribes.delete(dependency);
+        }
+      }
+      for (const dependency of dependencies) {
+        if (!unsubscribes.has(dependency)) {
+          unsubscribes.set(dependency, dependency.subscribe(subscriber));
+        }
+      }
+    }
+    this._dependencies = dependencies;
+    // The version never decreases when the dependencies change.
+    this._baseVersion = currentVersion - sumVersions(dependencies);
+    return result;
+  }
+}
+
+/**
+ * Writing goes through the setter, which tells what it has changed.
+ */
+class GetterSetter<T> extends WritableSignal<T> {
+  private readonly _getter: Getter<T>;
+  private readonly _setter: (value: T) => void;
+
+  constructor(getter: Getter<T>, setter: (value: T) => void) {
+    super();
+    this._getter = getter;
+    this._setter = setter;
+  }
+
+  override get version(): number {
+    return super.version + this._getter.version;
+  }
+
+  read(): T {
+    return this._getter.value;
+  }
+
+  override subscribe(subscriber: Subscriber): Unsubscribe {
+    const unsubscribe = super.subscribe(subscriber);
+    const unsubscribeGetter = this._getter.subscribe(subscriber);
+    return () => {
+      unsubscribe();
+      unsubscribeGetter();
+    };
+  }
+
+  write(value: T): void {
+    const set = this._setter;
+    set(value);
+  }
+}
+
+function sumVersions(signals: Iterable<Signal<unknown>>): number {
+  let version = 0;
+  for (const signal of signals) {
+    version += signal.version;
+  }
+  return version;
+}
+
 export function unwrap<T>(value: T): T {
   return (value as any)?.[UNWRAP_TAG] ?? value;
 }
@@ -153,7 +271,7 @@ function commitValue<T>(receiver: Derivable<T>): T {
     // Accessors write to other properties, so they have to come first.
     for (const prop of receiver._properties!.values()) {
       if (
-        prop._source instanceof Accessor &&
+        prop._source instanceof GetterSetter &&
         prop._flags & FLAG_PENDING_VALUE
       ) {
         commitValue(prop);
@@ -238,7 +356,7 @@ function detachProperties<T>(receiver: Derivable<T>, oldValue: T): void {
 function draftTarget<T>(
   receiver: Derivable<T>,
   target: T & object,
-  trackProperty: typeof getProperty = getProperty,
+  onRead?: (source: Signal<unknown>) => void,
 ): { proxy: T; revoke: () => void } {
   receiver._properties ??= new Map();
   const properties = receiver._properties;
@@ -259,7 +377,8 @@ function draftTarget<T>(
       if (key === UNWRAP_TAG) {
         return commitValue(getReceiver());
       }
-      const prop = trackProperty(getReceiver(), target, key);
+      const prop = getProperty(getReceiver(), target, key);
+      onRead?.(prop._source);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -306,12 +425,14 @@ function draftTarget<T>(
         return true;
       }
       const prop = properties.get(key);
+      onRead?.(receiver._source);
       return prop !== undefined
         ? !(prop._flags & FLAG_DELETED_PROPERTY)
         : Reflect.has(target, key);
     },
     ownKeys(target) {
       const baseKeys = Reflect.ownKeys(target);
+      onRead?.(receiver._source);
       const deletedKeys: NormalizedKey[] = [];
       const dynamicKeys: NormalizedKey[] = [];
       for (const [key, prop] of properties.entries()) {
@@ -446,72 +567,36 @@ function resolveProperty<T>(
   const { get, set, value } = descriptor;
   const flags = getPropertyFlags(descriptor);
 
-  if (get !== undefined && set !== undefined) {
+  if (get !== undefined) {
+    const getter = new Getter((onRead) => {
+      const { proxy, revoke } = draftTarget(receiver, target, onRead);
+      try {
+        return finalizeValue(get.call(proxy));
+      } finally {
+        revoke();
+      }
+    });
+
+    if (set === undefined) {
+      return new Derivable(getter, receiver, key, flags);
+    }
+
+    const setter = (newValue: unknown) => {
+      const { proxy, revoke } = draftTarget(receiver, target);
+      try {
+        set.call(proxy, finalizeValue(newValue));
+      } finally {
+        revoke();
+      }
+    };
     return new Derivable(
-      new Accessor(
-        () => {
-          const { proxy, revoke } = draftTarget(receiver, target);
-          try {
-            return finalizeValue(get.call(proxy));
-          } finally {
-            revoke();
-          }
-        },
-        (newValue) => {
-          const { proxy, revoke } = draftTarget(receiver, target);
-          try {
-            set.call(proxy, finalizeValue(newValue));
-          } finally {
-            revoke();
-          }
-        },
-      ),
+      new GetterSetter(getter, setter),
       receiver,
       key,
       flags | FLAG_WRITABLE_PROPERTY,
     );
   }
 
-  if (get !== undefined) {
-    const dependencies: Signal<any>[] = [];
-    const { proxy, revoke } = draftTarget(
-      receiver,
-      target,
-      (receiver, target, key) => {
-        const prop = getProperty(receiver, target, key);
-        dependencies.push(prop._source);
-        return prop;
-      },
-    );
-    try {
-      const initialResult = finalizeValue(get.call(proxy));
-      const initialVersion = dependencies.reduce(
-        (version, dependency) => version + dependency.version,
-        0,
-      );
-      return new Derivable(
-        new Computed(
-          () => {
-            const { proxy, revoke } = draftTarget(receiver, target);
-            try {
-              return finalizeValue(get.call(proxy));
-            } finally {
-              revoke();
-            }
-          },
-          dependencies,
-          initialResult,
-          initialVersion,
-        ),
-        receiver,
-        key,
-        flags,
-      );
-    } finally {
-      revoke();
-    }
-  }
-
   return new Derivable(new Atom(value), receiver, key, flags);
 }
 
@@ -542,6 +627,12 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
     (source as WritableSignal<T>).value = newValue;
     return;
   }
+  if (source instanceof GetterSetter) {
+    detachProperties(receiver, oldValue);
+    receiver._flags &= ~FLAG_DIRTY_VALUE;
+    source.write(newValue);
+    return;
+  }
   // Everything has to be up to date before any subscriber is notified.
   const isChanged = !is(oldValue, newValue);
   if (isChanged || receiver._flags & FLAG_NEEDS_COMMIT) {
@@ -549,10 +640,8 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   }
   receiver._flags |= FLAG_PENDING_VALUE;
   receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
-  if (isChanged || source instanceof Accessor) {
-    source.write(newValue);
-  }
   if (isChanged) {
+    source.write(newValue);
     source.advance();
   }
   advanceOwners(receiver);
-- 
2.43.0


From 40a91b9081984d16801173ffcc5b50c0a6a99034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 26/33] fix: allow holes in attributes whose name the parser
 changes the case of

The HTML parser gives SVG and MathML attributes such as viewBox their mixed
case name, so comparing it with the lower-cased source name rejected them.
---
 src/dom/template.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index 9d37626..b12a8f8 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -213,7 +213,7 @@ function collectAttributeHoles(
       const caseSensitiveName = extractAttributeName(strings[holes.length]!);
 
       DEBUG: {
-        if (caseSensitiveName?.toLowerCase() !== name) {
+        if (caseSensitiveName?.toLowerCase() !== name.toLowerCase()) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             `The attribute name must be "${name}", but got "${caseSensitiveName}". There are unclosed tags or duplicate attributes.`,
-- 
2.43.0


From 274b066454fefe1a05100060e250da8edec0482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 27/33] fix: honor the delay of updates on hosts without
 scheduler.postTask

---
 src/dom/adapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index b383209..81887f4 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -57,6 +57,10 @@ export class DOMAdapter implements HostAdapter {
       return scheduler.postTask(callback, options);
     } else {
       return new Promise((resolve) => {
+        if (options?.delay) {
+          setTimeout(resolve, options.delay);
+          return;
+        }
         switch (options?.priority) {
           case 'user-blocking': {
             const channel = new MessageChannel();
-- 
2.43.0


From 8a86e057ec04fb692bdf52529424df8fdc1c3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 28/33] fix: do not render a component twice in one batch when
 it is updated while rendering

---
 src/component.ts | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 3719e99..28e62c6 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -129,7 +129,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   /** @internal */
   readonly _dispatcher: Dispatcher;
   /** @internal */
-  _pendingLanes: Lanes = NoLanes;
+  _pendingUpdates: UpdateComponent[] = [];
   /** @internal */
   _context: RenderContext | null = null;
   /** @internal */
@@ -146,11 +146,16 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   }
 
   get pendingLanes(): Lanes {
-    return this._pendingLanes;
+    return this._pendingUpdates.reduce(
+      (lanes, update) => lanes | update.pendingLanes,
+      NoLanes,
+    );
   }
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
-    this._pendingLanes &= ~lanes;
+    this._pendingUpdates = this._pendingUpdates.filter(
+      (update) => (update.pendingLanes &= ~lanes) !== NoLanes,
+    );
     this._isStale = true;
     if (this._context !== null) {
       this._context._scope = scope;
@@ -217,11 +222,10 @@ export class RenderContext {
 
   forceUpdate(options?: UpdateOptions): UpdateHandle {
     const instance = this._instance;
-    const handle = instance._dispatcher.schedule(
-      new UpdateComponent(instance, this._scope),
-      options,
-    );
-    instance._pendingLanes |= handle.lanes;
+    const update = new UpdateComponent(instance, this._scope);
+    const handle = instance._dispatcher.schedule(update, options);
+    update.pendingLanes = handle.lanes;
+    instance._pendingUpdates.push(update);
     return handle;
   }
 
@@ -506,6 +510,10 @@ export function createComponent<TProps = {}, TReturn = unknown>(
 class UpdateComponent implements Transaction {
   private readonly _instance: FunctionComponent;
   private readonly _scope: Scope;
+  // The lanes in which the component has not been rendered since the update
+  // was requested. An update requested while rendering belongs to a later
+  // batch, so it must not revive an earlier one that is already rendered.
+  pendingLanes: Lanes = NoLanes;
 
   constructor(instance: FunctionComponent, scope: Scope) {
     this._instance = instance;
@@ -516,13 +524,10 @@ class UpdateComponent implements Transaction {
     return this._scope;
   }
 
-  get pendingLanes(): Lanes {
-    return this._instance._pendingLanes;
-  }
-
   prepare(lanes: Lanes, renderer: Renderer): Commit {
     const node = this._instance._connectedNode;
     if (node === null) {
+      this._instance._pendingUpdates = [];
       return noop;
     }
     const subScope = node.state.scope.enter(node.type);
-- 
2.43.0


From e4450774a5183f5089a6da600a5d0bdf17af1cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 29/33] fix: keep the rendered tree consistent when an effect
 or reference throws

---
 src/commit.ts    | 21 +++++++++++++++++++++
 src/component.ts |  9 +++++----
 src/dom/part.ts  |  7 ++++---
 src/runtime.ts   |  9 +++++++--
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index bdd9558..81b4374 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -7,6 +7,27 @@ import {
 } from './base.js';
 import { is } from './compare.js';
 
+const commitErrors: unknown[] = [];
+
+/**
+ * Runs a callback of the user. Its error is kept until the commit is complete,
+ * so that the rendered tree stays consistent with the document.
+ */
+export function attempt<T>(callback: () => T): T | undefined {
+  try {
+    return callback();
+  } catch (error) {
+    commitErrors.push(error);
+    return undefined;
+  }
+}
+
+export function raiseErrors(): void {
+  if (commitErrors.length > 0) {
+    throw commitErrors.splice(0)[0];
+  }
+}
+
 export function mount(node: RenderNode): void {
   mountChild(node, null);
   afterCommit(node);
diff --git a/src/component.ts b/src/component.ts
index 28e62c6..e31d5ce 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -17,7 +17,7 @@ import {
   type VElement,
   VNode,
 } from './base.js';
-import { patch } from './commit.js';
+import { attempt, patch } from './commit.js';
 import { areDependenciesChanged, is } from './compare.js';
 import { RenderError } from './error.js';
 import { NoLanes } from './lane.js';
@@ -183,9 +183,10 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   connect(node: RenderNode.ComponentNode<TProps>): void {
     for (const hook of this._context!._hooks) {
       if (hook.type === HookType.EFFECT && hook.dirty) {
-        hook.cleanup?.();
-        hook.cleanup = hook.setup();
+        const { setup, cleanup } = hook;
         hook.dirty = false;
+        attempt(() => cleanup?.());
+        hook.cleanup = attempt(setup);
       }
     }
     this._connectedNode = node;
@@ -195,7 +196,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   disconnect(): void {
     for (const hook of this._context!._hooks) {
       if (hook.type === HookType.EFFECT && hook.cleanup !== undefined) {
-        hook.cleanup();
+        attempt(hook.cleanup);
         hook.cleanup = undefined;
       }
     }
diff --git a/src/dom/part.ts b/src/dom/part.ts
index 2f7b356..7c8a2ab 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -1,4 +1,5 @@
 import type { Block, Container, Part } from '../base.js';
+import { attempt } from '../commit.js';
 import { is, isObject, sequentialEqual } from '../compare.js';
 import { generateNodeFrame } from './debug.js';
 import { DOMAdapterError } from './error.js';
@@ -267,20 +268,20 @@ export class ElementPart extends DOMPart {
           'Element values must be a function, null or undefined.',
         );
       }
-      this._cleanup = value(this._node);
+      this._cleanup = attempt(() => value(this._node));
     }
   }
 
   override commitUpdate(oldValue: unknown, newValue: unknown): void {
     if (oldValue !== newValue) {
-      this._cleanup?.();
+      attempt(() => this._cleanup?.());
       this._cleanup = undefined;
       this.commitMount(newValue);
     }
   }
 
   override commitUnmount(_value: unknown, _cascade: boolean): void {
-    this._cleanup?.();
+    attempt(() => this._cleanup?.());
     this._cleanup = undefined;
   }
 }
diff --git a/src/runtime.ts b/src/runtime.ts
index 52d3f26..8ec2654 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -21,6 +21,7 @@ import {
   type VPortal,
   type VTemplate,
 } from './base.js';
+import { raiseErrors } from './commit.js';
 import { is } from './compare.js';
 import {
   getHighestPriorityLane,
@@ -568,8 +569,12 @@ export class Runtime implements Renderer, Dispatcher {
 
         if (commitBatch.length > 0) {
           const callback = () => {
-            for (const commit of commitBatch) {
-              commit();
+            try {
+              for (const commit of commitBatch) {
+                commit();
+              }
+            } finally {
+              raiseErrors();
             }
           };
           if (this._flushLanes & SyncLane) {
-- 
2.43.0


From ecfb83029665d2966f6654b0c8a24c17f8880c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:39 +0000
Subject: [PATCH 30/33] fix: keep the rendered tree consistent when a value
 cannot be bound

---
 src/commit.ts | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 81b4374..4a918de 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -13,11 +13,15 @@ const commitErrors: unknown[] = [];
  * Runs a callback of the user. Its error is kept until the commit is complete,
  * so that the rendered tree stays consistent with the document.
  */
-export function attempt<T>(callback: () => T): T | undefined {
+export function attempt<T>(
+  callback: () => T,
+  onError?: () => void,
+): T | undefined {
   try {
     return callback();
   } catch (error) {
     commitErrors.push(error);
+    onError?.();
     return undefined;
   }
 }
@@ -68,9 +72,12 @@ function applyPatch(
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
-    newNode.part.commitUpdate(
-      (oldNode as RenderNode.BindNode).props.value,
-      newNode.props.value,
+    const oldProps = (oldNode as RenderNode.BindNode).props;
+    attempt(
+      () => newNode.part.commitUpdate(oldProps.value, newNode.props.value),
+      () => {
+        newNode.props = oldProps;
+      },
     );
   } else if (typeof newNode.type === 'object') {
     const oldChildren = newNode.right;
@@ -163,7 +170,12 @@ function isCommitted(node: RenderNode): boolean {
 
 function mountChild(child: RenderNode, afterNode: ChildNode | null): void {
   if (child.type === Bind) {
-    child.part.commitMount(child.props.value);
+    attempt(
+      () => child.part.commitMount(child.props.value),
+      () => {
+        child.props = { value: {} }; // differs from any other value
+      },
+    );
   } else if (typeof child.type === 'object') {
     for (const grandchild of child.left) {
       mountChild(grandchild, null);
-- 
2.43.0


From 69a2242a9bf1e314a75f310436499e83cf6660db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 31/33] fix: ignore results of reference functions and effects
 that are no cleanup

---
 src/component.ts | 6 +++++-
 src/dom/part.ts  | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index e31d5ce..123f6c3 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -186,7 +186,11 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
         const { setup, cleanup } = hook;
         hook.dirty = false;
         attempt(() => cleanup?.());
-        hook.cleanup = attempt(setup);
+        const newCleanup: unknown = attempt(setup);
+        hook.cleanup =
+          typeof newCleanup === 'function'
+            ? (newCleanup as EffectCleanup)
+            : undefined;
       }
     }
     this._connectedNode = node;
diff --git a/src/dom/part.ts b/src/dom/part.ts
index 7c8a2ab..30e1030 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -268,7 +268,8 @@ export class ElementPart extends DOMPart {
           'Element values must be a function, null or undefined.',
         );
       }
-      this._cleanup = attempt(() => value(this._node));
+      const cleanup = attempt(() => value(this._node));
+      this._cleanup = typeof cleanup === 'function' ? cleanup : undefined;
     }
   }
 
-- 
2.43.0


From cd7d03c80035bc0f909f8d210825a62c94e71849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:16 +0000
Subject: [PATCH 32/33] fix: reduce actions of a passthrough state from its
 current initial state

---
 src/component.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 123f6c3..db7a0f8 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -365,7 +365,10 @@ export class RenderContext {
       for (const action of memoizedActions) {
         const { payload, lanes, revertLanes } = action;
         if ((lanes & renderLanes) === lanes) {
-          nextState = action.eagerState ?? reducer(nextState, payload);
+          // The eager state is based on the initial state of an earlier render.
+          nextState =
+            (options.passthrough ? undefined : action.eagerState) ??
+            reducer(nextState, payload);
           action.lanes = revertLanes;
         } else if ((revertLanes & renderLanes) === revertLanes) {
           action.revertLanes = NoLanes;
-- 
2.43.0


From cbee82d9fe304479fd10bb725040c9c6727fe79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:16 +0000
Subject: [PATCH 33/33] fix: tell templates of different modes with the same
 strings apart

---
 src/commit.ts      | 18 +++++++++++++++++-
 src/dom/adapter.ts | 17 +++++++++++++----
 src/runtime.ts     |  4 ++--
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 4a918de..f833b1f 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -4,6 +4,8 @@ import {
   MutationType,
   type RenderNode,
   type RenderRoot,
+  type VElement,
+  type VTemplate,
 } from './base.js';
 import { is } from './compare.js';
 
@@ -32,6 +34,20 @@ export function raiseErrors(): void {
   }
 }
 
+export function isSameKind(
+  node: RenderNode,
+  other: RenderNode | VElement,
+): boolean {
+  return (
+    node.type === other.type &&
+    is(node.key, other.key) &&
+    // The same strings may be used by tags of different modes.
+    (!Array.isArray(node.type) ||
+      (node.props as VTemplate['props']).mode ===
+        (other.props as VTemplate['props']).mode)
+  );
+}
+
 export function mount(node: RenderNode): void {
   mountChild(node, null);
   afterCommit(node);
@@ -68,7 +84,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
+  if (!isSameKind(oldNode, newNode)) {
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index 81887f4..4e52610 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -1,4 +1,9 @@
-import type { HostAdapter, VPortal, VTemplate } from '../base.js';
+import type {
+  HostAdapter,
+  TemplateMode,
+  VPortal,
+  VTemplate,
+} from '../base.js';
 import { DOMBlock } from './block.js';
 import { ContainerPart } from './part.js';
 import { DOMTemplate } from './template.js';
@@ -6,8 +11,10 @@ import { DOMTemplate } from './template.js';
 export class DOMAdapter implements HostAdapter {
   private readonly _document: Document;
   private readonly _identifier = generateUniqueIdentifier(8);
-  private readonly _templateCache: WeakMap<readonly string[], DOMTemplate> =
-    new WeakMap();
+  private readonly _templateCache: WeakMap<
+    readonly string[],
+    Map<TemplateMode, DOMTemplate>
+  > = new WeakMap();
 
   constructor(document: Document = window.document) {
     this._document = document;
@@ -36,8 +43,10 @@ export class DOMAdapter implements HostAdapter {
   }
 
   renderTemplate(element: VTemplate): DOMBlock {
+    // The same strings may be used by tags of different modes.
     return this._templateCache
-      .getOrInsertComputed(element.type, () =>
+      .getOrInsertComputed(element.type, () => new Map())
+      .getOrInsertComputed(element.props.mode, () =>
         DOMTemplate.parse(
           element.type,
           element.children,
diff --git a/src/runtime.ts b/src/runtime.ts
index 8ec2654..7564b07 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -21,7 +21,7 @@ import {
   type VPortal,
   type VTemplate,
 } from './base.js';
-import { raiseErrors } from './commit.js';
+import { isSameKind, raiseErrors } from './commit.js';
 import { is } from './compare.js';
 import {
   getHighestPriorityLane,
@@ -61,7 +61,7 @@ export class Runtime implements Renderer, Dispatcher {
     index: number,
     parent: RenderNode | RenderRoot,
   ): RenderNode {
-    if (oldNode.type !== newElement.type || !is(oldNode.key, newElement.key)) {
+    if (!isSameKind(oldNode, newElement)) {
       return this.render(newElement, scope, index, parent, oldNode.part);
     }
     if (oldNode.props === newElement.props) {
-- 
2.43.0


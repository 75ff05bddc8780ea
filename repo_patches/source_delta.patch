From f5c6afc4b15b47cc17bea23dc21336a0f59273fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 01/61] fix: directive: keep the callback list returned by
 removeFromCallbacks

The result was discarded, so the list kept its length: the last entry was
duplicated (and called twice) and removing the last one did nothing.
---
 directive/controller/instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index bf50e72..0d672aa 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -359,12 +359,12 @@ func (i *directiveInstance) handleIdleStateLocked() {
 
 // removeReleaseCallbackLocked removes a release callback while i.c.mtx is locked.
 func (i *directiveInstance) removeReleaseCallbackLocked(cb *callback[func()]) {
-	removeFromCallbacks(i.rels, cb)
+	i.rels = removeFromCallbacks(i.rels, cb)
 }
 
 // removeIdleCallbackLocked removes a idle callback while i.c.mtx is locked.
 func (i *directiveInstance) removeIdleCallbackLocked(cb *callback[directive.IdleCallback]) {
-	removeFromCallbacks(i.idles, cb)
+	i.idles = removeFromCallbacks(i.idles, cb)
 }
 
 // addValueLocked adds a value to the instance while i.c.mtx is locked
-- 
2.43.0


From e71582903d4dee5c5a677471761145968116467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 02/61] fix: directive: rescan the running directives after
 superseding one

removeLocked unlocks the mutex to call callbacks and removes from the list
being ranged over: the loop continued with stale elements and indexes,
removing the wrong instance or missing an equivalent one.
---
 directive/controller/controller.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 30a7243..196a7df 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -63,13 +63,16 @@ func (c *Controller) AddDirective(
 
 	// Check if any equivalent directives exist, if applicable.
 	if eqDir, eqDirOk := dir.(directive.DirectiveWithEquiv); eqDirOk {
-		for diIdx, di := range c.dir {
+		for diIdx := 0; diIdx < len(c.dir); diIdx++ {
+			di := c.dir[diIdx]
 			if !di.released.Load() && eqDir.IsEquivalent(di.dir) {
 				// Directive is equivalent to di.
 				spDir, spDirOk := eqDir.(directive.DirectiveWithSuperceeds)
 				if spDirOk && spDir.Superceeds(di.dir) {
 					// Remove the other directive (superceed it)
 					di.removeLocked(diIdx)
+					// mtx was unlocked to call callbacks: scan the list again.
+					diIdx = -1
 				} else {
 					// Add a reference to the other directive & return.
 					return di, di.addReferenceLocked(ref, false), nil
-- 
2.43.0


From 3b4b1b77d3f84a6b74d4449dbe82cf196db162c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 03/61] fix: directive: do not attach resolvers of removed
 handlers or disposed instances

The handlers are called while the mutex is unlocked. If the handler is
removed or the instance disposed meanwhile, the resolvers were attached and
started anyway and nothing ever stopped them.
---
 directive/controller/instance.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 0d672aa..310509f 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -616,6 +616,10 @@ func (i *directiveInstance) callHandlerUnlocked(handler *handler) (res []*resolv
 
 // attachStartResolverLocked attaches and starts a resolver while i.c.mtx is locked
 func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
+	// the instance or handler may have been removed while c.mtx was unlocked
+	if i.released.Load() || res.hnd.rel.Load() {
+		return
+	}
 	i.res = append(i.res, res)
 	if i.full {
 		res.idle = true
-- 
2.43.0


From 63cfeae938c28de92cab747b922f5f6093d6cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 04/61] fix: directive: iterate over copies when removing the
 resolvers of a handler

Removing a resolver unlocks the mutex to call callbacks, which may change
both lists: directives or resolvers were skipped (leaving resolvers of the
removed handler running) or visited through a stale index.
---
 directive/controller/controller.go | 3 ++-
 directive/controller/instance.go   | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 196a7df..ba4c36a 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -200,7 +200,8 @@ func (c *Controller) removeHandlerLocked(hnd *handler) bool {
 		return false
 	}
 	// cancel all resolvers associated with the handler
-	for _, di := range c.dir {
+	// note: removing resolvers unlocks mtx to call callbacks, iterate over a copy.
+	for _, di := range slices.Clone(c.dir) {
 		di.removeHandlerLocked(hnd)
 	}
 	return true
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 310509f..23dbc5d 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -697,11 +697,10 @@ func (i *directiveInstance) removeLocked(diIdx int) {
 // removeHandlerLocked removes all resolvers associated with the handler.
 // caller locks c.mtx
 func (i *directiveInstance) removeHandlerLocked(hnd *handler) {
-	for idx := 0; idx < len(i.res); idx++ {
-		res := i.res[idx]
+	// note: removing resolvers unlocks mtx to call callbacks, iterate over a copy.
+	for _, res := range slices.Clone(i.res) {
 		if res.hnd == hnd {
-			i.removeResolverLocked(idx, res)
-			idx--
+			i.removeResolverLocked(-1, res)
 		}
 	}
 }
-- 
2.43.0


From 79d6d42068923b5b798160a1f24baf670f93edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 05/61] fix: directive: iterate over copies when the value cap
 is reached or lifted

Stopping or starting a resolver may unlock the mutex to call idle callbacks.
Resolvers removed meanwhile were restarted after removal and the cap state
could have changed under the loop.
---
 directive/controller/instance.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 23dbc5d..9c4f18a 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -280,8 +280,12 @@ func (i *directiveInstance) handleFullLocked() {
 	// we have enough values, reaching the maxVals cap
 	// mark resolvers with values as idle
 	// cancel non-idle resolvers with no values
-	for _, res := range i.res {
-		if res.idle {
+	// note: stopping resolvers unlocks mtx to call callbacks, iterate over a copy.
+	for _, res := range slices.Clone(i.res) {
+		if !i.full {
+			break
+		}
+		if res.idle || !slices.Contains(i.res, res) {
 			continue
 		}
 		if !res.exited && len(res.vals) == 0 {
@@ -304,7 +308,11 @@ func (i *directiveInstance) handleNotFullLocked() {
 
 	i.full = false
 	// restart resolvers that exited with errors and/or were killed
-	for _, res := range i.res {
+	// note: starting resolvers unlocks mtx to call callbacks, iterate over a copy.
+	for _, res := range slices.Clone(i.res) {
+		if i.full || !slices.Contains(i.res, res) {
+			continue
+		}
 		if (res.exited && res.err != nil) || res.stopped {
 			res.updateContextLocked(&i.ctx)
 		}
-- 
2.43.0


From ddac06594bed5f7bb6023cbad7132b6299e4cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 06/61] fix: directive: never overlap two executions of a
 resolver

An execution canceled while waiting for its predecessor closed its exit
channel early, so the execution after it started while the first was still
running.
---
 directive/controller/resolver-handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index 0172199..c8d6fea 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -172,10 +172,10 @@ func (r *resolverHandler) AddResolver(res directive.Resolver, removedCb func())
 func (r *resolverHandler) executeResolver(ctx context.Context, exitedCh chan<- struct{}, waitCh <-chan struct{}) {
 	defer close(exitedCh)
 	if waitCh != nil {
-		select {
-		case <-ctx.Done():
+		// always wait for the previous execution: exitedCh must not be closed before it returned.
+		<-waitCh
+		if ctx.Err() != nil {
 			return
-		case <-waitCh:
 		}
 	}
 
-- 
2.43.0


From 38b7abf2dddfa152ec441dd714b08a45135769a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 07/61] fix: directive: start resolvers attached at the value
 cap when it is lifted

They were attached without being marked stopped, so handleNotFullLocked never
started them.
---
 directive/controller/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 9c4f18a..30681c9 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -630,7 +630,7 @@ func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
 	}
 	i.res = append(i.res, res)
 	if i.full {
-		res.idle = true
+		res.idle, res.stopped = true, true
 		res.updateContextLocked(nil)
 	} else {
 		res.updateContextLocked(&i.ctx)
-- 
2.43.0


From 3e5efd90832b093d4527862fdf08bfd94743e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 08/61] fix: directive: start the resolver before reporting it
 as not idle

Reporting the idle state unlocks the mutex to call callbacks. A resolver that
was removed or stopped meanwhile was started afterwards and never stopped.
---
 directive/controller/resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 64306e6..26d9958 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -73,10 +73,11 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 		r.exitedCh = exitedCh
 		r.err = nil
 		r.exited, r.stopped = false, false
-		r.setIdleLocked(false)
 		r.ctx, r.ctxCancel = context.WithCancel(*ctx)
 		hnd := &resolverHandler{r: r, ctx: r.ctx}
 		go hnd.executeResolver(r.ctx, exitedCh, waitCh)
+		// note: this may unlock mtx to call callbacks.
+		r.setIdleLocked(false)
 	}
 }
 
-- 
2.43.0


From c9231e4c51582d057655b6b28bc18d4bad0f554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 09/61] fix: directive: report idle when the initial handlers
 return no resolvers

The idle state was only recomputed when a resolver changed: with none, idle
callbacks registered before the directive was ready were never told, and later
ones missed the next change to not idle.
---
 directive/controller/controller.go | 2 ++
 directive/controller/instance.go   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index ba4c36a..8bdf986 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -113,6 +113,8 @@ func (c *Controller) AddDirective(
 		for _, res := range resolvers {
 			di.attachStartResolverLocked(res)
 		}
+		// becoming ready may change the idle state
+		di.handleIdleStateLocked()
 	}
 
 	return di, diRef, nil
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 30681c9..ac75919 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -342,7 +342,7 @@ func (i *directiveInstance) checkIdleLocked() bool {
 
 // handleIdleStateLocked checks if the idle state of the instance changes & handles that if so.
 func (i *directiveInstance) handleIdleStateLocked() {
-	idle := i.checkIdleLocked()
+	idle := i.ready && i.checkIdleLocked()
 	if i.idle == idle {
 		return
 	}
-- 
2.43.0


From d12ebfefdba6127585b7e13212138cb7d751bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 10/61] fix: directive: report a child resolver removed if it
 cannot be attached

---
 directive/controller/instance.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index ac75919..b1d2483 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -477,7 +477,7 @@ func (i *directiveInstance) addResolverRemovedCallbackLocked(res *resolver, cb f
 // attachStartSubResolverLocked adds and starts a sub-resolver for a parent resolver.
 // returns nil, nil, false if the resolver was already removed
 func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes directive.Resolver, removedCb func()) (func(), bool) {
-	if !slices.Contains(i.res, res) || res.hnd.rel.Load() || i.released.Load() {
+	if !slices.Contains(i.res, res) {
 		return nil, false
 	}
 
@@ -485,7 +485,9 @@ func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes d
 	if removedCb != nil {
 		subResReg.rels = append(subResReg.rels, newCallback(removedCb))
 	}
-	i.attachStartResolverLocked(subResReg)
+	if !i.attachStartResolverLocked(subResReg) {
+		return nil, false
+	}
 
 	return func() {
 		i.c.mtx.Lock()
@@ -623,10 +625,12 @@ func (i *directiveInstance) callHandlerUnlocked(handler *handler) (res []*resolv
 }
 
 // attachStartResolverLocked attaches and starts a resolver while i.c.mtx is locked
-func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
+//
+// returns false without attaching it if the instance or handler was removed.
+func (i *directiveInstance) attachStartResolverLocked(res *resolver) bool {
 	// the instance or handler may have been removed while c.mtx was unlocked
 	if i.released.Load() || res.hnd.rel.Load() {
-		return
+		return false
 	}
 	i.res = append(i.res, res)
 	if i.full {
@@ -636,6 +640,7 @@ func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
 		res.updateContextLocked(&i.ctx)
 		i.handleIdleStateLocked()
 	}
+	return true
 }
 
 // removeLocked removes the directive instance while i.c.mtx is locked.
-- 
2.43.0


From 4b9cdc0f03710d72ab2f1e51202ad8176ddd4632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 11/61] fix: directive: evaluate the idle state whenever a
 resolver is started

---
 directive/controller/resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 26d9958..f9c29b1 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -77,7 +77,8 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 		hnd := &resolverHandler{r: r, ctx: r.ctx}
 		go hnd.executeResolver(r.ctx, exitedCh, waitCh)
 		// note: this may unlock mtx to call callbacks.
-		r.setIdleLocked(false)
+		r.idle = false
+		r.di.handleIdleStateLocked()
 	}
 }
 
-- 
2.43.0


From d7e6c853eac143c8a967c4389ffbd47c9a120bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 12/61] fix: bus: inmem: contain panics of controllers

---
 bus/inmem/inmem.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 1765cfa..669a4e2 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -57,7 +57,7 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 	go func() {
 		var err error
 		defer func() {
-			b.handleControllerPanic(&err)
+			b.handleControllerPanic(recover(), &err)
 			if err != nil {
 				subCtxCancel()
 				b.removeController(ctrl)
@@ -71,9 +71,11 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 	return relFunc, nil
 }
 
-// handleControllerPanic handles recover for a paniced controller.
-func (b *Bus) handleControllerPanic(outErr *error) {
-	if rerr := recover(); rerr != nil {
+// handleControllerPanic handles a recovered panic of a controller.
+//
+// NOTE: recover() must be called directly by the deferred function.
+func (b *Bus) handleControllerPanic(rerr any, outErr *error) {
+	if rerr != nil {
 		debug.PrintStack()
 		e, eOk := rerr.(error)
 		if eOk {
@@ -96,7 +98,7 @@ func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (e
 	}
 
 	defer func() {
-		b.handleControllerPanic(&err)
+		b.handleControllerPanic(recover(), &err)
 		if err != nil {
 			b.removeController(c)
 		}
-- 
2.43.0


From a5163a697d5e9d527d899bf258fdf353bf43dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 13/61] fix: bus: inmem: do not call out while holding the
 controllers lock

---
 bus/inmem/inmem.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 669a4e2..cb1dabb 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -114,31 +114,38 @@ func (b *Bus) RemoveController(c controller.Controller) {
 
 // addController adds a controller to the bus
 func (b *Bus) addController(c controller.Controller) error {
-	b.mtx.Lock()
+	// NOTE: AddHandler calls the controller, do not hold mtx.
 	rel, err := b.AddHandler(c)
-	if err == nil {
-		b.controllers = append(b.controllers, &attachedCtrl{
-			ctrl: c,
-			rel:  rel,
-		})
+	if err != nil {
+		return err
 	}
+	b.mtx.Lock()
+	b.controllers = append(b.controllers, &attachedCtrl{
+		ctrl: c,
+		rel:  rel,
+	})
 	b.mtx.Unlock()
-	return err
+	return nil
 }
 
 // removeController removes a controller from the bus
 func (b *Bus) removeController(c controller.Controller) {
+	// NOTE: rel calls the directive controller, do not hold mtx.
+	var rel func()
 	b.mtx.Lock()
 	for i, ci := range b.controllers {
 		if ci.ctrl == c {
+			rel = ci.rel
 			b.controllers[i] = b.controllers[len(b.controllers)-1]
 			b.controllers[len(b.controllers)-1] = nil
 			b.controllers = b.controllers[:len(b.controllers)-1]
-			ci.rel()
 			break
 		}
 	}
 	b.mtx.Unlock()
+	if rel != nil {
+		rel()
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From f06bab4f9c4e651444cbb02fa43deb67b578210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 14/61] fix: bus: do not lose the error of a one-off execution
 when the idle state changes

---
 bus/oneoff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bus/oneoff.go b/bus/oneoff.go
index 9046859..cc1e188 100644
--- a/bus/oneoff.go
+++ b/bus/oneoff.go
@@ -161,6 +161,10 @@ func ExecOneOffWithFilter(
 
 	defer di.AddIdleCallback(func(isIdle bool, errs []error) {
 		bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			// if there was an error already, do not overwrite it.
+			if resErr != nil {
+				return
+			}
 			// idle or errors list changed
 			idle = isIdle
 			wait, resErr = idleCb(idle, errs)
-- 
2.43.0


From 65ab24040a05fa44301049c76bc63a90ae8222fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 15/61] fix: bus: watch: compare value ids without wrapping

---
 bus/watch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 33e7193..9424a76 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -1,6 +1,7 @@
 package bus
 
 import (
+	"cmp"
 	"context"
 	"slices"
 	"sync"
@@ -159,7 +160,7 @@ func ExecOneOffWatchSelectCb[T directive.ComparableValue](
 				tav := directive.NewTypedAttachedValue(vid, val)
 				sortedVals = append(sortedVals, tav)
 				slices.SortFunc(sortedVals, func(a, b directive.TypedAttachedValue[T]) int {
-					return int(a.GetValueID() - b.GetValueID())
+					return cmp.Compare(a.GetValueID(), b.GetValueID())
 				})
 				selectNextValue()
 			},
@@ -468,7 +469,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 	var xfrmVals []directive.TransformedAttachedValue[T, E]
 	sortXfrmVals := func() {
 		slices.SortFunc(xfrmVals, func(a, b directive.TransformedAttachedValue[T, E]) int {
-			return int(a.GetValueID() - b.GetValueID())
+			return cmp.Compare(a.GetValueID(), b.GetValueID())
 		})
 	}
 
-- 
2.43.0


From 0ebffae78ec8684be95c0e7dcee41f4eba23a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 16/61] fix: bus: watch: select another value when the selected
 one is removed

---
 bus/watch.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 9424a76..45428d9 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -480,7 +480,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		var selectedVal directive.TransformedAttachedValue[T, E]
 
 		var valueIdx int
-		if selectValue != nil {
+		if selectValue != nil && len(xfrmVals) != 0 {
 			valueIdx = selectValue(xfrmVals)
 		}
 		if valueIdx >= 0 && valueIdx < len(xfrmVals) {
@@ -493,9 +493,12 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		}
 		if effectRel != nil {
 			effectRel()
+			effectRel = nil
 		}
 		effectVal = selectedValID
-		effectRel = effect(selectedVal)
+		if selectedVal != nil {
+			effectRel = effect(selectedVal)
+		}
 	}
 
 	return ExecWatchTransformEffect(
@@ -513,13 +516,8 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 				idx := slices.Index(xfrmVals, val)
 				if idx >= 0 {
 					xfrmVals = slices.Delete(xfrmVals, idx, idx+1)
-					if effectVal == val.GetValueID() {
-						effectVal = 0
-						if effectRel != nil {
-							effectRel()
-							effectRel = nil
-						}
-					}
+					// release the effect and select another value, if necessary
+					maybeCallEffect()
 				}
 				mtx.Unlock()
 			}
-- 
2.43.0


From 501ef3509bf0cff0c02cdd8b1986bab4ad49f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 17/61] fix: bus: transform: forward the value if there is no
 transform

---
 bus/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bus/transform.go b/bus/transform.go
index d27a7aa..b18571a 100644
--- a/bus/transform.go
+++ b/bus/transform.go
@@ -47,7 +47,7 @@ func (h *TransformHandler) HandleValueAdded(
 			return
 		}
 	} else {
-		val = v.GetValue
+		val = v.GetValue()
 	}
 
 	id, accepted := h.handler.AddValue(val)
-- 
2.43.0


From 9422d487cd59841ca773c0a7c8b5cd2a92e17ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 18/61] fix: bus: bridge: withdraw the values if the directive
 is disposed on the target bus

---
 bus/bridge/resolver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bus/bridge/resolver.go b/bus/bridge/resolver.go
index 2546287..78e4a48 100644
--- a/bus/bridge/resolver.go
+++ b/bus/bridge/resolver.go
@@ -62,7 +62,11 @@ func (r *BusBridgeResolver) Resolve(ctx context.Context, handler directive.Resol
 					handler.RemoveValue(childID)
 				}
 			},
-			subCtxCancel,
+			func() {
+				// directive disposed on the target bus: withdraw the values
+				handler.ClearValues()
+				subCtxCancel()
+			},
 		),
 	)
 	if err != nil {
-- 
2.43.0


From 34cb18b121607384fda86296a5b19fe70a995942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 19/61] fix: directive: transform resolvers: remove the value
 of the removed source value

---
 directive/transform-resolver.go       | 25 ++++++++-----------------
 directive/typed-transform-resolver.go | 25 ++++++++-----------------
 2 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/directive/transform-resolver.go b/directive/transform-resolver.go
index d5cffbf..b3caa88 100644
--- a/directive/transform-resolver.go
+++ b/directive/transform-resolver.go
@@ -33,11 +33,8 @@ func NewTransformResolver[T Value](adder DirectiveAdder, dir Directive, xfrm Tra
 
 // Resolve resolves the values, emitting them to the handler.
 func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHandler) error {
-	type addedVal struct {
-		id  uint32
-		rel func()
-	}
-	addedVals := make(map[uint32]addedVal)
+	// addedVals maps from the id of the source value to the id of the emitted value
+	addedVals := make(map[uint32]uint32)
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -77,7 +74,10 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 
 			id, accepted := handler.AddValue(val)
 			if accepted {
-				addedVals[id] = addedVal{id: av.GetValueID(), rel: valRel}
+				addedVals[av.GetValueID()] = id
+				if valRel != nil {
+					handler.AddValueRemovedCallback(id, valRel)
+				}
 			} else {
 				if valRel != nil {
 					valRel()
@@ -85,22 +85,13 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 			}
 		}, func(av AttachedValue) {
 			valueID := av.GetValueID()
-			if addedValue, ok := addedVals[valueID]; ok {
+			if addedID, ok := addedVals[valueID]; ok {
 				delete(addedVals, valueID)
-				_, _ = handler.RemoveValue(addedValue.id)
-				if addedValue.rel != nil {
-					addedValue.rel()
-				}
+				_, _ = handler.RemoveValue(addedID)
 			}
 		},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
 			},
 		),
 	)
diff --git a/directive/typed-transform-resolver.go b/directive/typed-transform-resolver.go
index 9a683ae..295dfbd 100644
--- a/directive/typed-transform-resolver.go
+++ b/directive/typed-transform-resolver.go
@@ -46,11 +46,8 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 		return errors.New("xfrm cannot be nil for TypedTransformResolver")
 	}
 
-	type addedVal struct {
-		id  uint32
-		rel func()
-	}
-	addedVals := make(map[uint32]addedVal)
+	// addedVals maps from the id of the source value to the id of the emitted value
+	addedVals := make(map[uint32]uint32)
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -81,7 +78,10 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 
 				id, accepted := handler.AddValue(val)
 				if accepted {
-					addedVals[id] = addedVal{id: tav.GetValueID(), rel: rel}
+					addedVals[tav.GetValueID()] = id
+					if rel != nil {
+						handler.AddValueRemovedCallback(id, rel)
+					}
 				} else {
 					if rel != nil {
 						rel()
@@ -90,22 +90,13 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 			},
 			func(tav TypedAttachedValue[V]) {
 				valueID := tav.GetValueID()
-				if addedValue, ok := addedVals[valueID]; ok {
+				if addedID, ok := addedVals[valueID]; ok {
 					delete(addedVals, valueID)
-					_, _ = handler.RemoveValue(addedValue.id)
-					if addedValue.rel != nil {
-						addedValue.rel()
-					}
+					_, _ = handler.RemoveValue(addedID)
 				}
 			},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
 			},
 			r.unknownTypeHandler,
 		),
-- 
2.43.0


From d05e4aa19188c628df2dea8df8d1657c143ecef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 20/61] fix: directive: access resolver: release each value
 once

---
 directive/access-resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/directive/access-resolver.go b/directive/access-resolver.go
index 453e2b1..6d95d12 100644
--- a/directive/access-resolver.go
+++ b/directive/access-resolver.go
@@ -49,6 +49,10 @@ func (r *AccessResolver[T]) Resolve(ctx context.Context, handler ResolverHandler
 			}
 			return err
 		}
+		if rel != nil {
+			// the value may be removed and released at the same time.
+			rel = sync.OnceFunc(rel)
+		}
 
 		valID, valAccepted := handler.AddValue(val)
 		if !valAccepted {
-- 
2.43.0


From b699c1f0cb57ae8723cea778a18d3c00cc08dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 21/61] fix: directive: keyed getter resolver: handle release
 while getting the value

---
 directive/keyed-getter-resolver.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/directive/keyed-getter-resolver.go b/directive/keyed-getter-resolver.go
index 38a749e..3fb2f82 100644
--- a/directive/keyed-getter-resolver.go
+++ b/directive/keyed-getter-resolver.go
@@ -2,6 +2,7 @@ package directive
 
 import (
 	"context"
+	"math"
 	"sync/atomic"
 
 	"github.com/aperturerobotics/util/broadcast"
@@ -36,10 +37,12 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 			waitCh = getWaitCh()
 		})
 
+		// valID is set to releasedID once the value was released
+		const releasedID = math.MaxUint32
 		var valID atomic.Uint32
 		val, relVal, err := r.getter(ctx, r.key, func() {
-			old := valID.Swap(0)
-			if old != 0 {
+			old := valID.Swap(releasedID)
+			if old != 0 && old != releasedID {
 				_, _ = handler.RemoveValue(old)
 				bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 					broadcast()
@@ -55,6 +58,9 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		var empty V
 		if val == empty {
 			// no values
+			if relVal != nil {
+				relVal()
+			}
 			return nil
 		}
 
@@ -62,7 +68,7 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		addedValID, accepted := handler.AddValue(result)
 		if !accepted {
 			// value not needed
-			valID.Store(0)
+			valID.Store(releasedID)
 			if relVal != nil {
 				relVal()
 			}
@@ -70,7 +76,7 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		}
 		if !valID.CompareAndSwap(0, addedValID) {
 			// already released
-			valID.Store(0)
+			valID.Store(releasedID)
 			if relVal != nil {
 				relVal()
 			}
@@ -87,7 +93,7 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		case <-waitCh:
 		}
 
-		valID.Store(0)
+		valID.Store(releasedID)
 		if relVal != nil {
 			relVal()
 		}
-- 
2.43.0


From d06236b3af6b42b0564dee4f8c9ba5ae70c96bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 22/61] fix: directive: retry resolver: stop if the backoff
 says so

---
 directive/resolver-retry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive/resolver-retry.go b/directive/resolver-retry.go
index 8ce6c6d..90e06ad 100644
--- a/directive/resolver-retry.go
+++ b/directive/resolver-retry.go
@@ -39,6 +39,9 @@ func (r *RetryResolver) Resolve(ctx context.Context, handler ResolverHandler) er
 		}
 
 		nextBackOff := r.bo.NextBackOff()
+		if nextBackOff == backoff.Stop {
+			return err
+		}
 		r.le.
 			WithError(err).
 			Warnf("resolver returned error: backing off %s", nextBackOff.String())
-- 
2.43.0


From e6a7f0b3b4bacc1d3e3059d2416db8b25e0df208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 23/61] fix: loader: do not return a released reference with an
 error

---
 controller/loader/ex-load-controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/loader/ex-load-controller.go b/controller/loader/ex-load-controller.go
index fe2691e..b5a7b62 100644
--- a/controller/loader/ex-load-controller.go
+++ b/controller/loader/ex-load-controller.go
@@ -84,7 +84,7 @@ func WaitExecControllerRunningTyped[T controller.Controller](
 	ctrlt, ok := ctrl.(T)
 	if !ok {
 		diRef.Release()
-		return empty, di, diRef, errors.New("exec controller constructed unexpected controller type")
+		return empty, nil, nil, errors.New("exec controller constructed unexpected controller type")
 	}
 	return ctrlt, di, diRef, nil
 }
-- 
2.43.0


From 57d3ec8ed368d2e59fec59d1f4b5d362b7f1db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 24/61] fix: plugin: compiler: check the error of adding the go
 statement

---
 plugin/compiler/module-compiler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 11a3277..4971111 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -109,7 +109,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 	}
 
 	// Add the go version
-	outPluginGoMod.AddGoStmt("1.24")
+	if err := outPluginGoMod.AddGoStmt("1.24"); err != nil {
+		return err
+	}
 
 	// For each module, create a codegen module directory.
 	// Add a replace statement to outPluginGoMod for each.
-- 
2.43.0


From 7ddf12845b3ef6089a1a08aeeb09636961078814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 25/61] fix: factories: reject configurations of another type
 instead of panicking

---
 bus/api/controller/factory.go                      | 6 +++++-
 bus/factory.go                                     | 3 +++
 controller/configset/controller/factory.go         | 6 ++++--
 plugin/loader/shared-library/filesystem/factory.go | 6 +++++-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/bus/api/controller/factory.go b/bus/api/controller/factory.go
index 4f431f4..82092f4 100644
--- a/bus/api/controller/factory.go
+++ b/bus/api/controller/factory.go
@@ -2,6 +2,7 @@ package bus_api_controller
 
 import (
 	"context"
+	"errors"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/config"
@@ -46,7 +47,10 @@ func (t *Factory) Construct(
 	opts controller.ConstructOpts,
 ) (controller.Controller, error) {
 	le := opts.GetLogger()
-	cc := conf.(*Config)
+	cc, ok := conf.(*Config)
+	if !ok {
+		return nil, errors.New("unexpected type of config")
+	}
 
 	// Construct the API controller.
 	return NewController(
diff --git a/bus/factory.go b/bus/factory.go
index c173016..5b36c3f 100644
--- a/bus/factory.go
+++ b/bus/factory.go
@@ -54,6 +54,9 @@ func (f *BusFactory[T, C]) Construct(
 ) (controller.Controller, error) {
 	conf, ok := cc.(T)
 	if !ok {
+		if cc == nil {
+			return nil, errors.New("config cannot be nil")
+		}
 		expected := f.configID
 		got := cc.GetConfigID()
 		if expected == got {
diff --git a/controller/configset/controller/factory.go b/controller/configset/controller/factory.go
index 81cb26e..5ab6a15 100644
--- a/controller/configset/controller/factory.go
+++ b/controller/configset/controller/factory.go
@@ -2,6 +2,7 @@ package configset_controller
 
 import (
 	"context"
+	"errors"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/config"
@@ -42,9 +43,10 @@ func (t *Factory) Construct(
 	opts controller.ConstructOpts,
 ) (controller.Controller, error) {
 	le := opts.GetLogger()
-	cc := conf.(*Config)
+	if _, ok := conf.(*Config); !ok {
+		return nil, errors.New("unexpected type of config")
+	}
 
-	_ = cc
 	return NewController(le, t.bus)
 }
 
diff --git a/plugin/loader/shared-library/filesystem/factory.go b/plugin/loader/shared-library/filesystem/factory.go
index 3c4b186..c1b3149 100644
--- a/plugin/loader/shared-library/filesystem/factory.go
+++ b/plugin/loader/shared-library/filesystem/factory.go
@@ -5,6 +5,7 @@ package plugin_loader_filesystem
 
 import (
 	"context"
+	"errors"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/config"
@@ -45,7 +46,10 @@ func (t *Factory) Construct(
 	opts controller.ConstructOpts,
 ) (controller.Controller, error) {
 	le := opts.GetLogger()
-	cc := conf.(*Config)
+	cc, ok := conf.(*Config)
+	if !ok {
+		return nil, errors.New("unexpected type of config")
+	}
 
 	return NewController(le, t.bus, cc)
 }
-- 
2.43.0


From fd917097a45a1f6523ee28a42ec544385744dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 26/61] fix: configset: use the new configuration after an
 invalid one

---
 controller/configset/controller/running-ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 71be896..a6eec8f 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -90,6 +90,9 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 			case <-c.confRestartCh:
 				c.le.Info("restarting with new config")
 			}
+			c.mtx.Lock()
+			conf = c.conf
+			c.mtx.Unlock()
 			continue
 		}
 
-- 
2.43.0


From 87221c0b96c59a6b6ab011e925749b161283dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 27/61] fix: configset: do not apply a released reference

---
 controller/configset/controller/running-ctrl-ref.go | 11 ++++++++---
 controller/configset/controller/running-ctrl.go     |  7 +------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index 37b4837..18a3ca9 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -14,6 +14,7 @@ type runningControllerRef struct {
 	mtx sync.Mutex
 	cbs []func(configset.State)
 	rc  *runningController // may be nil
+	rel bool               // released
 
 	relOnce sync.Once
 }
@@ -68,7 +69,7 @@ func (r *runningControllerRef) GetRunningController() *runningController {
 func (r *runningControllerRef) setRunningController(rc *runningController, st configset.State) bool {
 	var updated bool
 	r.mtx.Lock()
-	if r.rc != rc {
+	if !r.rel && r.rc != rc {
 		r.rc = rc
 		updated = true
 		for _, cb := range r.cbs { // r.rc.pushState(st)
@@ -91,8 +92,12 @@ func (r *runningControllerRef) pushState(st configset.State) {
 // Release releases the reference.
 func (r *runningControllerRef) Release() {
 	r.relOnce.Do(func() {
-		if r.rc != nil {
-			r.rc.DelReference(r)
+		r.mtx.Lock()
+		r.rel = true
+		rc := r.rc
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.DelReference(r)
 		}
 		if cb := r.relInternalCallback; cb != nil {
 			go r.relInternalCallback()
diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index a6eec8f..6d3b172 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -185,16 +185,11 @@ func (c *runningController) AddReference(ref *runningControllerRef) {
 
 // ApplyReference applies an existing reference to the running controller.
 func (c *runningController) ApplyReference(ref *runningControllerRef) {
-	if ref.GetRunningController() == c {
-		return
-	}
 	c.mtx.Lock()
+	defer c.mtx.Unlock()
 	st := c.state
-	c.mtx.Unlock()
 	if ref.setRunningController(c, &st) {
-		c.mtx.Lock()
 		c.refs = append(c.refs, ref)
-		c.mtx.Unlock()
 	}
 }
 
-- 
2.43.0


From 9e5d3a3e887d1469500d15505892312d0579eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 28/61] fix: configset: call state callbacks in order and
 without a running controller

---
 .../configset/controller/running-ctrl-ref.go  | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index 18a3ca9..1200f34 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -49,11 +49,30 @@ func (r *runningControllerRef) GetState() configset.State {
 // Should not block.
 // Will be called with the initial state.
 func (r *runningControllerRef) AddStateCallback(cb func(configset.State)) {
-	r.mtx.Lock()
-	r.cbs = append(r.cbs, cb)
-	rc := r.rc
-	r.mtx.Unlock()
-	cb(rc.GetState())
+	for {
+		rc := r.GetRunningController()
+		if rc != nil {
+			// lock order: running controller before reference, see pushState
+			rc.mtx.Lock()
+		}
+		r.mtx.Lock()
+		same := r.rc == rc
+		if same {
+			r.cbs = append(r.cbs, cb)
+			st := runningControllerState{id: r.id}
+			if rc != nil {
+				st = rc.state
+			}
+			cb(&st)
+		}
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.mtx.Unlock()
+		}
+		if same {
+			return
+		}
+	}
 }
 
 // GetRunningController gets the running controller.
-- 
2.43.0


From a8384392fe2bf4bc2f7cbb260c7fe3d0b1c5bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 29/61] fix: configset: release all references when the request
 ends without deadlock

---
 .../configset/controller/apply-config-set.go       | 14 +++++++++++---
 .../configset/controller/lookup-config-set.go      | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/controller/configset/controller/apply-config-set.go b/controller/configset/controller/apply-config-set.go
index 985bc55..c0c0e44 100644
--- a/controller/configset/controller/apply-config-set.go
+++ b/controller/configset/controller/apply-config-set.go
@@ -82,6 +82,12 @@ func (r *applyConfigSetResolver) Resolve(
 
 		// Add reference to running instance
 		r.refsMtx.Lock()
+		if err := r.ctx.Err(); err != nil {
+			// the references were already cleaned up
+			r.refsMtx.Unlock()
+			ref.Release()
+			return err
+		}
 		r.refs[ref] = 0
 		r.refsMtx.Unlock()
 		ref.AddStateCallback(func(st configset.State) {
@@ -112,11 +118,13 @@ func (r *applyConfigSetResolver) Resolve(
 func (r *applyConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = make(map[configset.Reference]uint32)
+	r.refsMtx.Unlock()
+	// release without the lock: state callbacks lock it while the controller state is locked.
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
diff --git a/controller/configset/controller/lookup-config-set.go b/controller/configset/controller/lookup-config-set.go
index 06ab097..6d3239f 100644
--- a/controller/configset/controller/lookup-config-set.go
+++ b/controller/configset/controller/lookup-config-set.go
@@ -82,6 +82,12 @@ func (r *lookupConfigSetResolver) Resolve(
 		}
 
 		r.refsMtx.Lock()
+		if err := r.ctx.Err(); err != nil {
+			// the references were already cleaned up
+			r.refsMtx.Unlock()
+			ref.Release()
+			return err
+		}
 		r.refs[ref] = 0
 		r.refsMtx.Unlock()
 		ref.AddStateCallback(func(st configset.State) {
@@ -112,11 +118,13 @@ func (r *lookupConfigSetResolver) Resolve(
 func (r *lookupConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = make(map[configset.Reference]uint32)
+	r.refsMtx.Unlock()
+	// release without the lock: state callbacks lock it while the controller state is locked.
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
-- 
2.43.0


From f7782df64bb8edb61e154374191f1ba0ab7b452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 30/61] fix: configset: do not run a controller which was
 released before it was started

---
 controller/configset/controller/controller.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/controller/configset/controller/controller.go b/controller/configset/controller/controller.go
index ef99228..4a0b9ca 100644
--- a/controller/configset/controller/controller.go
+++ b/controller/configset/controller/controller.go
@@ -60,17 +60,15 @@ ExecLoop:
 		}
 
 		c.mtx.Lock()
-		for k, cancel := range execControllers {
-			cv, ok := c.controllers[k]
-			if ok {
-				cv.mtx.Lock()
-				if len(cv.refs) == 0 { // garbage collect
-					delete(c.controllers, k)
-					ok = false
-				}
-				cv.mtx.Unlock()
+		for k, cv := range c.controllers {
+			cv.mtx.Lock()
+			if len(cv.refs) == 0 { // garbage collect
+				delete(c.controllers, k)
 			}
-			if !ok {
+			cv.mtx.Unlock()
+		}
+		for k, cancel := range execControllers {
+			if _, ok := c.controllers[k]; !ok {
 				cancel()
 				delete(execControllers, k)
 			}
-- 
2.43.0


From c03b0b8a469cbc6735431288d5bb69e672247ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 31/61] fix: configset: handle entries without a config instead
 of panicking

---
 controller/configset/apply-configset.go | 6 ++++++
 controller/configset/configset.go       | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/controller/configset/apply-configset.go b/controller/configset/apply-configset.go
index aadf37b..11d5811 100644
--- a/controller/configset/apply-configset.go
+++ b/controller/configset/apply-configset.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/aperturerobotics/controllerbus/directive"
+	"github.com/pkg/errors"
 )
 
 // ApplyConfigSet is a directive to apply a controllerbus config set.
@@ -42,6 +43,11 @@ func (d *applyConfigSet) GetApplyConfigSet() ConfigSet {
 // Validate validates the directive.
 // This is a cursory validation to see if the values "look correct."
 func (d *applyConfigSet) Validate() error {
+	for k, v := range d.configSet {
+		if v == nil || v.GetConfig() == nil {
+			return errors.Errorf("config set entry has no config: %s", k)
+		}
+	}
 	return nil
 }
 
diff --git a/controller/configset/configset.go b/controller/configset/configset.go
index 27663cb..399f62a 100644
--- a/controller/configset/configset.go
+++ b/controller/configset/configset.go
@@ -36,6 +36,9 @@ func (c ConfigSet) Equal(os ConfigSet) bool {
 		if !ok {
 			return false
 		}
+		if v == nil || ov == nil || v.GetConfig() == nil || ov.GetConfig() == nil {
+			return false
+		}
 		if !ov.GetConfig().EqualsConfig(v.GetConfig()) {
 			return false
 		}
-- 
2.43.0


From e03673f0afc3a6e0df8bea82e05b7e9e8c071516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 32/61] fix: loader, resolver: handle directives without a
 config instead of panicking

---
 controller/loader/dir-exec-controller.go          | 13 ++++++++++++-
 controller/resolver/dir-load-controller.go        | 10 ++++++++--
 controller/resolver/dir-load-factory-by-config.go |  3 +++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/controller/loader/dir-exec-controller.go b/controller/loader/dir-exec-controller.go
index fc3e66c..41fe072 100644
--- a/controller/loader/dir-exec-controller.go
+++ b/controller/loader/dir-exec-controller.go
@@ -89,13 +89,17 @@ func (d *execController) IsEquivalent(other directive.Directive) bool {
 
 	f := d.GetExecControllerFactory()
 	otherf := otherExec.GetExecControllerFactory()
+	conf, otherConf := d.GetExecControllerConfig(), otherExec.GetExecControllerConfig()
+	if f == nil || otherf == nil || conf == nil || otherConf == nil {
+		return false
+	}
 
 	if otherf.GetConfigID() != f.GetConfigID() {
 		return false
 	}
 
 	// If the two configurations are identical, de-duplicate the directive.
-	return d.GetExecControllerConfig().EqualsConfig(otherExec.GetExecControllerConfig())
+	return conf.EqualsConfig(otherConf)
 }
 
 // Superceeds checks if the directive overrides another.
@@ -109,6 +113,10 @@ func (d *execController) Superceeds(other directive.Directive) bool {
 	f := d.GetExecControllerFactory()
 	otherf := otherExec.GetExecControllerFactory()
 
+	if f == nil || otherf == nil {
+		return false
+	}
+
 	return f.GetVersion().GT(otherf.GetVersion())
 }
 
@@ -122,6 +130,9 @@ func (d *execController) GetName() string {
 // This is not necessarily unique, and is primarily intended for display.
 func (d *execController) GetDebugVals() directive.DebugValues {
 	vals := directive.NewDebugValues()
+	if d.config == nil {
+		return vals
+	}
 	vals["config-id"] = []string{d.GetExecControllerConfig().GetConfigID()}
 	dbg, dbgOk := d.config.(config.Debuggable)
 	if dbgOk {
diff --git a/controller/resolver/dir-load-controller.go b/controller/resolver/dir-load-controller.go
index 7d507d2..edb63f1 100644
--- a/controller/resolver/dir-load-controller.go
+++ b/controller/resolver/dir-load-controller.go
@@ -88,8 +88,11 @@ func (d *loadControllerWithConfig) IsEquivalent(other directive.Directive) bool
 		return false
 	}
 
-	f := d.GetLoadControllerConfig()
-	return f.EqualsConfig(otherExec.GetLoadControllerConfig())
+	conf, otherConf := d.GetLoadControllerConfig(), otherExec.GetLoadControllerConfig()
+	if conf == nil || otherConf == nil {
+		return false
+	}
+	return conf.EqualsConfig(otherConf)
 }
 
 // Superceeds checks if the directive overrides another.
@@ -108,6 +111,9 @@ func (d *loadControllerWithConfig) GetName() string {
 // This is not necessarily unique, and is primarily intended for display.
 func (d *loadControllerWithConfig) GetDebugVals() directive.DebugValues {
 	vals := directive.NewDebugValues()
+	if d.config == nil {
+		return vals
+	}
 	confID := d.GetLoadControllerConfig().GetConfigID()
 	vals["config-id"] = []string{confID}
 	dbg, dbgOk := d.GetLoadControllerConfig().(config.Debuggable)
diff --git a/controller/resolver/dir-load-factory-by-config.go b/controller/resolver/dir-load-factory-by-config.go
index b0431c7..557e4e5 100644
--- a/controller/resolver/dir-load-factory-by-config.go
+++ b/controller/resolver/dir-load-factory-by-config.go
@@ -93,6 +93,9 @@ func (d *loadFactoryByConfig) IsEquivalent(other directive.Directive) bool {
 
 	dConf := d.loadConfig
 	otConf := ot.LoadFactoryByConfig()
+	if dConf == nil || otConf == nil {
+		return false
+	}
 	return dConf.EqualsConfig(otConf)
 }
 
-- 
2.43.0


From acca45a53510d301ede1475b94ab3e8f4561fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 33/61] fix: resolver: static: lock the factories while listing
 them

---
 controller/resolver/static/resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller/resolver/static/resolver.go b/controller/resolver/static/resolver.go
index 4fff0a0..888c5ce 100644
--- a/controller/resolver/static/resolver.go
+++ b/controller/resolver/static/resolver.go
@@ -69,7 +69,9 @@ func (r *Resolver) AddFactory(factory controller.Factory) {
 
 // GetFactories returns the factories associated w/ the resolver.
 func (r *Resolver) GetFactories() []controller.Factory {
+	r.factoryMtx.Lock()
 	vals := slices.Collect(maps.Values(r.factories))
+	r.factoryMtx.Unlock()
 	slices.SortFunc(vals, func(a, b controller.Factory) int {
 		return strings.Compare(a.GetConfigID(), b.GetConfigID())
 	})
-- 
2.43.0


From e816808ae78ffd6545d3a9222263996142b207d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 34/61] fix: configset: lock the configuration of a running
 controller while returning it

---
 controller/configset/controller/running-ctrl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 6d3b172..bde7e02 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -165,6 +165,8 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 // GetControllerConfig returns the controller config in use.
 // The value will be revoked and re-emitted if this changes.
 func (c *runningController) GetControllerConfig() configset.ControllerConfig {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
 	return c.conf
 }
 
-- 
2.43.0


From 6d2ce3376a1c8382be5187b73caa560259a11383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 35/61] fix: bus: api: close the listener when the controller
 stops

---
 bus/api/controller/controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bus/api/controller/controller.go b/bus/api/controller/controller.go
index acdf9e7..e246b6f 100644
--- a/bus/api/controller/controller.go
+++ b/bus/api/controller/controller.go
@@ -69,6 +69,8 @@ func (c *Controller) Execute(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
+	// stop accepting when returning
+	defer lis.Close()
 
 	errCh := make(chan error, 1)
 	srv := srpc.NewServer(mux)
-- 
2.43.0


From dca9920f569388c660ec6db91def18d0a183c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 36/61] fix: exec: handle values in order and do not block
 directive callbacks

A second request with the same config set has its values delivered while
adding the directive: the callbacks blocked forever on the second value.
---
 controller/exec/exec-request.go | 49 +++++++++++++++------------------
 controller/exec/exec.go         | 32 ++++++++++-----------
 controller/exec/value-queue.go  | 48 ++++++++++++++++++++++++++++++++
 3 files changed, 84 insertions(+), 45 deletions(-)
 create mode 100644 controller/exec/value-queue.go

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index 9bfc6d5..8f14e5f 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -132,8 +132,7 @@ func (r *ExecControllerRequest) Execute(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan configset.ApplyConfigSetValue, 1)
-	removedCh := make(chan configset.ApplyConfigSetValue, 1)
+	queue := newValueQueue[configset.ApplyConfigSetValue]()
 
 	_, dirRef, err := cbus.AddDirective(
 		configset.NewApplyConfigSet(confSet),
@@ -144,11 +143,7 @@ func (r *ExecControllerRequest) Execute(
 				if !csValOk || csVal == nil || csVal.GetId() == "" {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case addedCh <- csVal:
-				}
+				queue.push(csVal, false)
 			},
 			// value removed
 			func(val directive.AttachedValue) {
@@ -156,11 +151,7 @@ func (r *ExecControllerRequest) Execute(
 				if !csValOk || csVal == nil || csVal.GetId() == "" {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case removedCh <- csVal:
-				}
+				queue.push(csVal, true)
 			},
 			subCtxCancel,
 		),
@@ -174,8 +165,26 @@ func (r *ExecControllerRequest) Execute(
 		select {
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
+		case <-queue.wake:
+		}
+		for _, change := range queue.take() {
+			csv := change.val
 			csvID := csv.GetId()
+			if change.removed {
+				// removed == value is no longer applicable.
+				resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
+				if prevStates[csvID] == resp.Status {
+					resp.Status = ControllerStatus_ControllerStatus_UNKNOWN
+					continue
+				}
+				resp.Id = csvID
+				prevStates[csvID] = resp.Status
+				if err := callCb(); err != nil {
+					return err
+				}
+				resp.Reset()
+				continue
+			}
 			csvErr := csv.GetError()
 			resp.Id = csvID
 			if csvErr != nil {
@@ -196,20 +205,6 @@ func (r *ExecControllerRequest) Execute(
 				}
 			}
 			resp.Reset()
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			csvID := csv.GetId()
-			resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
-			if prevStates[csvID] == resp.Status {
-				resp.Status = ControllerStatus_ControllerStatus_UNKNOWN
-				break
-			}
-			resp.Id = csvID
-			prevStates[csvID] = resp.Status
-			if err := callCb(); err != nil {
-				return err
-			}
-			resp.Reset()
 		}
 	}
 }
diff --git a/controller/exec/exec.go b/controller/exec/exec.go
index 84ece33..264c486 100644
--- a/controller/exec/exec.go
+++ b/controller/exec/exec.go
@@ -26,8 +26,7 @@ func ExecuteController(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
-	removedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
+	queue := newValueQueue[resolver.LoadControllerWithConfigValue]()
 
 	_, dirRef, err := cbus.AddDirective(
 		resolver.NewLoadControllerWithConfig(conf),
@@ -38,11 +37,7 @@ func ExecuteController(
 				if !csValOk || csVal == nil {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case addedCh <- csVal:
-				}
+				queue.push(csVal, false)
 			},
 			// value removed
 			func(val directive.AttachedValue) {
@@ -50,11 +45,7 @@ func ExecuteController(
 				if !csValOk || csVal == nil {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case removedCh <- csVal:
-				}
+				queue.push(csVal, true)
 			},
 			subCtxCancel,
 		),
@@ -78,7 +69,17 @@ func ExecuteController(
 			return nil
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
+		case <-queue.wake:
+		}
+		for _, change := range queue.take() {
+			csv := change.val
+			if change.removed {
+				// removed == value is no longer applicable.
+				if csv.GetController() != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
+					callCb(ControllerStatus_ControllerStatus_CONFIGURING)
+				}
+				continue
+			}
 			ctrl := csv.GetController()
 			csvErr := csv.GetError()
 			if csvErr != nil {
@@ -90,11 +91,6 @@ func ExecuteController(
 			} else {
 				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
 			}
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			if csv.GetController() != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
-				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
-			}
 		}
 	}
 }
diff --git a/controller/exec/value-queue.go b/controller/exec/value-queue.go
new file mode 100644
index 0000000..eb02bdc
--- /dev/null
+++ b/controller/exec/value-queue.go
@@ -0,0 +1,48 @@
+package controller_exec
+
+import "sync"
+
+// valueChange is a value which was added or removed.
+type valueChange[T any] struct {
+	// val is the value
+	val T
+	// removed indicates the value was removed
+	removed bool
+}
+
+// valueQueue is an unbounded queue of value changes in the order they happened.
+//
+// Directive callbacks may be called while adding the directive and must not block.
+type valueQueue[T any] struct {
+	// wake is notified when changes were pushed
+	wake chan struct{}
+	// mtx guards below fields
+	mtx sync.Mutex
+	// changes contains the pending changes
+	changes []valueChange[T]
+}
+
+// newValueQueue constructs a new valueQueue.
+func newValueQueue[T any]() *valueQueue[T] {
+	return &valueQueue[T]{wake: make(chan struct{}, 1)}
+}
+
+// push adds a change to the queue.
+func (q *valueQueue[T]) push(val T, removed bool) {
+	q.mtx.Lock()
+	q.changes = append(q.changes, valueChange[T]{val: val, removed: removed})
+	q.mtx.Unlock()
+	select {
+	case q.wake <- struct{}{}:
+	default:
+	}
+}
+
+// take removes and returns all pending changes.
+func (q *valueQueue[T]) take() []valueChange[T] {
+	q.mtx.Lock()
+	defer q.mtx.Unlock()
+	changes := q.changes
+	q.changes = nil
+	return changes
+}
-- 
2.43.0


From d9284e70a15dd882175d5afb29b313c998412fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:13 +0000
Subject: [PATCH 37/61] fix: loader: stop the controller when the resolver is
 stopped

---
 controller/loader/loader-resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index f586179..6bfefd5 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -155,7 +155,7 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 
 		// run execute
 		le.Debug("starting controller")
-		execErr := bus.ExecuteController(c.ctx, ci)
+		execErr := bus.ExecuteController(ctx, ci)
 
 		le := le.WithField("exec-dur", time.Since(t1).String())
 		ctxCanceled := ctx.Err() != nil
-- 
2.43.0


From e7da32a38c783d1bc6e5ad5e2c15eb8f042ba3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 38/61] fix: resolver: release the execution when the resolver
 is stopped

---
 controller/resolver/res-load-with-config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 0140231..817ec40 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -70,12 +70,14 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		factoryCtx = factoryWithCtx.GetFactoryContext()
 	}
 
-	valCtx, valCtxCancel := context.WithCancel(r.ctx)
+	// note: ctx is not canceled when Resolve returns.
+	valCtx, valCtxCancel := context.WithCancel(ctx)
 	execDir := loader.NewExecController(factory, conf)
 
 	// pass through all values.
 	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
 	if err != nil {
+		valCtxCancel()
 		_, _ = vh.AddValue(loader.NewExecControllerValue(
 			time.Now(),
 			time.Time{},
-- 
2.43.0


From 11660222c1cb3855a0a469842a873710d226380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 39/61] fix: resolver: use the retry backoff of the load
 request

---
 controller/resolver/res-load-with-config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 817ec40..4eb020e 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -72,7 +72,12 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 
 	// note: ctx is not canceled when Resolve returns.
 	valCtx, valCtxCancel := context.WithCancel(ctx)
-	execDir := loader.NewExecController(factory, conf)
+	execDir := loader.NewExecControllerWithOpts(
+		factory,
+		conf,
+		r.dir.GetExecControllerRetryBackoff(),
+		directive.ValueOptions{},
+	)
 
 	// pass through all values.
 	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
-- 
2.43.0


From b486d5900d5805536de043950a1742f420534ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 40/61] fix: directive: refcount resolver: release a value that
 was rejected

---
 directive/refcount-resolver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/directive/refcount-resolver.go b/directive/refcount-resolver.go
index eea80c5..e7f4378 100644
--- a/directive/refcount-resolver.go
+++ b/directive/refcount-resolver.go
@@ -49,7 +49,11 @@ func (r *RefCountResolver[T, R]) Resolve(ctx context.Context, handler ResolverHa
 			}
 		}
 		if val != nil {
-			_, _ = handler.AddValue(val)
+			_, accepted := handler.AddValue(val)
+			if !accepted {
+				// value not needed: release it now
+				return nil
+			}
 		}
 		handler.MarkIdle(true)
 		<-ctx.Done()
-- 
2.43.0


From 776b5a706ea20217edc7c28e68561242f292dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 41/61] fix: directive: transform resolvers: remove values
 added while returning

---
 directive/transform-resolver.go       | 12 +++++++++++-
 directive/typed-transform-resolver.go | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/directive/transform-resolver.go b/directive/transform-resolver.go
index b3caa88..b31a4af 100644
--- a/directive/transform-resolver.go
+++ b/directive/transform-resolver.go
@@ -2,6 +2,7 @@ package directive
 
 import (
 	"context"
+	"sync/atomic"
 )
 
 // TransformAttachedValueFunc transforms an AttachedValue.
@@ -35,6 +36,8 @@ func NewTransformResolver[T Value](adder DirectiveAdder, dir Directive, xfrm Tra
 func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHandler) error {
 	// addedVals maps from the id of the source value to the id of the emitted value
 	addedVals := make(map[uint32]uint32)
+	// done is set once the resolver is returning
+	var done atomic.Bool
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -78,6 +81,10 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 				if valRel != nil {
 					handler.AddValueRemovedCallback(id, valRel)
 				}
+				if done.Load() {
+					// the value was added while returning
+					_, _ = handler.RemoveValue(id)
+				}
 			} else {
 				if valRel != nil {
 					valRel()
@@ -98,7 +105,10 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 	if err != nil {
 		return err
 	}
-	defer handler.ClearValues()
+	defer func() {
+		done.Store(true)
+		handler.ClearValues()
+	}()
 	defer ref.Release()
 
 	defer di.AddIdleCallback(func(isIdle bool, errs []error) {
diff --git a/directive/typed-transform-resolver.go b/directive/typed-transform-resolver.go
index 295dfbd..2b48db9 100644
--- a/directive/typed-transform-resolver.go
+++ b/directive/typed-transform-resolver.go
@@ -3,6 +3,7 @@ package directive
 import (
 	"context"
 	"errors"
+	"sync/atomic"
 )
 
 // TransformTypedAttachedValueFunc transforms a TypedAttachedValue.
@@ -48,6 +49,8 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 
 	// addedVals maps from the id of the source value to the id of the emitted value
 	addedVals := make(map[uint32]uint32)
+	// done is set once the resolver is returning
+	var done atomic.Bool
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -82,6 +85,10 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 					if rel != nil {
 						handler.AddValueRemovedCallback(id, rel)
 					}
+					if done.Load() {
+						// the value was added while returning
+						_, _ = handler.RemoveValue(id)
+					}
 				} else {
 					if rel != nil {
 						rel()
@@ -104,7 +111,10 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 	if err != nil {
 		return err
 	}
-	defer handler.ClearValues()
+	defer func() {
+		done.Store(true)
+		handler.ClearValues()
+	}()
 	defer ref.Release()
 
 	defer di.AddIdleCallback(func(isIdle bool, errs []error) {
-- 
2.43.0


From b6aa3508137cb68e7b543f02759113cffddf3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 42/61] fix: directive: watchable resolvers: return an EOF
 error of the source or transform

---
 directive/errors.go                       | 3 +++
 directive/watchable-resolver.go           | 5 ++---
 directive/watchable-transform-resolver.go | 5 ++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/directive/errors.go b/directive/errors.go
index 0681ec5..d722e41 100644
--- a/directive/errors.go
+++ b/directive/errors.go
@@ -4,3 +4,6 @@ import "errors"
 
 // ErrDirectiveDisposed is returned when the directive was unexpectedly disposed.
 var ErrDirectiveDisposed = errors.New("directive disposed unexpectedly")
+
+// errValueRejected is returned internally when a value was not accepted.
+var errValueRejected = errors.New("value rejected")
diff --git a/directive/watchable-resolver.go b/directive/watchable-resolver.go
index ea1fbab..b38f216 100644
--- a/directive/watchable-resolver.go
+++ b/directive/watchable-resolver.go
@@ -2,7 +2,6 @@ package directive
 
 import (
 	"context"
-	"io"
 
 	"github.com/aperturerobotics/util/ccontainer"
 )
@@ -36,14 +35,14 @@ func (r *WatchableResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 				var accepted bool
 				valID, accepted = handler.AddValue(value)
 				if !accepted {
-					return io.EOF
+					return errValueRejected
 				}
 			}
 			return nil
 		},
 		nil,
 	)
-	if err == io.EOF {
+	if err == errValueRejected {
 		return nil
 	}
 	return err
diff --git a/directive/watchable-transform-resolver.go b/directive/watchable-transform-resolver.go
index 4650429..c312c5d 100644
--- a/directive/watchable-transform-resolver.go
+++ b/directive/watchable-transform-resolver.go
@@ -2,7 +2,6 @@ package directive
 
 import (
 	"context"
-	"io"
 
 	"github.com/aperturerobotics/util/ccontainer"
 )
@@ -51,7 +50,7 @@ func (r *WatchableTransformResolver[T, R]) Resolve(ctx context.Context, handler
 					var accepted bool
 					valID, accepted = handler.AddValue(result)
 					if !accepted {
-						return io.EOF
+						return errValueRejected
 					}
 				}
 			}
@@ -59,7 +58,7 @@ func (r *WatchableTransformResolver[T, R]) Resolve(ctx context.Context, handler
 		},
 		nil,
 	)
-	if err == io.EOF {
+	if err == errValueRejected {
 		return nil
 	}
 	return err
-- 
2.43.0


From 2c6442de33340a48af31051c17b192a4519d8418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:43 +0000
Subject: [PATCH 43/61] fix: configset: parse the json contents of a config
 when validating it

---
 controller/configset/proto/controller_config.go | 11 +++++------
 controller/configset/proto/errors.go            |  3 +++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/controller/configset/proto/controller_config.go b/controller/configset/proto/controller_config.go
index e29108b..07fa24c 100644
--- a/controller/configset/proto/controller_config.go
+++ b/controller/configset/proto/controller_config.go
@@ -3,6 +3,7 @@ package configset_proto
 import (
 	"context"
 	"encoding/base64"
+	stdjson "encoding/json"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/config"
@@ -45,9 +46,8 @@ func (c *ControllerConfig) Validate() error {
 		// json if first character is {
 		if conf[0] == 123 {
 			// validate json
-			it := jsoniter.ParseBytes(conf)
-			if err := it.Error; err != nil {
-				return err
+			if !stdjson.Valid(conf) {
+				return ErrControllerConfigInvalidJson
 			}
 		}
 	}
@@ -116,9 +116,8 @@ func (c *ControllerConfig) MarshalProtoJSON(s *json.MarshalState) {
 		// Detect if config is JSON
 		if c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
 			// Ensure json is parseable
-			it := jsoniter.ParseBytes(c.Config)
-			if err := it.Error; err != nil {
-				s.SetError(errors.Wrap(err, "unable to parse config json"))
+			if !stdjson.Valid(c.Config) {
+				s.SetError(ErrControllerConfigInvalidJson)
 				return
 			}
 			_, err := s.Write(c.Config)
diff --git a/controller/configset/proto/errors.go b/controller/configset/proto/errors.go
index 3872fe8..a8b880d 100644
--- a/controller/configset/proto/errors.go
+++ b/controller/configset/proto/errors.go
@@ -4,3 +4,6 @@ import "errors"
 
 // ErrControllerConfigIdEmpty is returned if the controller config id was empty.
 var ErrControllerConfigIdEmpty = errors.New("controller config id empty")
+
+// ErrControllerConfigInvalidJson is returned if the config contents are not valid json.
+var ErrControllerConfigInvalidJson = errors.New("controller config contains invalid json")
-- 
2.43.0


From 14110b10c38269c5dbcd8246b4217e6c9ac18242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:46 +0000
Subject: [PATCH 44/61] fix: configset: encode an empty config selected by a
 field mask

---
 controller/configset/proto/controller_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/configset/proto/controller_config.go b/controller/configset/proto/controller_config.go
index 07fa24c..e3dd0c3 100644
--- a/controller/configset/proto/controller_config.go
+++ b/controller/configset/proto/controller_config.go
@@ -114,7 +114,7 @@ func (c *ControllerConfig) MarshalProtoJSON(s *json.MarshalState) {
 		s.WriteMoreIf(&wroteField)
 		s.WriteObjectField("config")
 		// Detect if config is JSON
-		if c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
+		if len(c.Config) != 0 && c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
 			// Ensure json is parseable
 			if !stdjson.Valid(c.Config) {
 				s.SetError(ErrControllerConfigInvalidJson)
-- 
2.43.0


From 018d353d2dbc849512ec2045f3ff978bf838a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 45/61] fix: configset: check for a nil config returned by the
 constructor

---
 controller/configset/proto/controller_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/configset/proto/controller_config.go b/controller/configset/proto/controller_config.go
index e3dd0c3..92bdd8c 100644
--- a/controller/configset/proto/controller_config.go
+++ b/controller/configset/proto/controller_config.go
@@ -75,6 +75,9 @@ func (c *ControllerConfig) Resolve(ctx context.Context, b bus.Bus) (configset.Co
 		return nil, errors.New("load config constructor directive returned invalid object")
 	}
 	cf := ctor.ConstructConfig()
+	if cf == nil {
+		return nil, errors.New("load config constructor returned nil object")
+	}
 
 	// detect json or protobuf & parse
 	if configData := c.GetConfig(); len(configData) != 0 {
-- 
2.43.0


From fb110897cbd8ad73a8095ed3d343f8059b5bc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:50 +0000
Subject: [PATCH 46/61] fix: configset: return an error when resolving a nil
 entry

---
 controller/configset/json/controller-config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/configset/json/controller-config.go b/controller/configset/json/controller-config.go
index e1d4504..91eb8be 100644
--- a/controller/configset/json/controller-config.go
+++ b/controller/configset/json/controller-config.go
@@ -47,7 +47,7 @@ func (c *ControllerConfig) GetRev() uint64 {
 // Resolve resolves the config into a configset.ControllerConfig
 func (c *ControllerConfig) Resolve(ctx context.Context, b bus.Bus) (configset.ControllerConfig, error) {
 	if c == nil {
-		return nil, nil
+		return nil, errors.New("controller config cannot be nil")
 	}
 	if c.Id == "" {
 		return nil, errors.New("config id was not specified")
-- 
2.43.0


From 7254c885477bf5bda5a1fee7da947139dc8fecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:52 +0000
Subject: [PATCH 47/61] fix: configset: resolve an entry without a config
 object to an empty config

---
 controller/configset/json/controller-config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/configset/json/controller-config.go b/controller/configset/json/controller-config.go
index 91eb8be..331b8ec 100644
--- a/controller/configset/json/controller-config.go
+++ b/controller/configset/json/controller-config.go
@@ -54,7 +54,7 @@ func (c *ControllerConfig) Resolve(ctx context.Context, b bus.Bus) (configset.Co
 	}
 
 	if c.Config == nil {
-		c.Config = &Config{}
+		c.Config = NewConfigWithJSON("{}")
 	}
 	if err := c.Config.Resolve(ctx, c.Id, b); err != nil {
 		return nil, err
-- 
2.43.0


From 958761163a1c628a16958024ddd45ec25293ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:54 +0000
Subject: [PATCH 48/61] fix: configset: encode the contents of a config that is
 not resolved yet

---
 controller/configset/json/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/configset/json/config.go b/controller/configset/json/config.go
index 48855e4..b3d207c 100644
--- a/controller/configset/json/config.go
+++ b/controller/configset/json/config.go
@@ -71,6 +71,9 @@ func (c *Config) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshals a controller config JSON blob.
 func (c *Config) MarshalJSON() ([]byte, error) {
 	if c.underlying == nil {
+		if c.pendingParseData != "" {
+			return []byte(c.pendingParseData), nil
+		}
 		return []byte("null"), nil
 	}
 	return c.underlying.MarshalJSON()
-- 
2.43.0


From d5c4f0a38c4f9d66fe42f2222263695b99eb047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 49/61] fix: cancel the context given to a plugin when it is
 unloaded

The context passed to NewPluginResolver is documented to be canceled when the
plugin is about to be unloaded, but closing the LoadedPlugin canceled only a
sub-context the plugin and its resolver never saw.
---
 plugin/loader/shared-library/shared-library.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugin/loader/shared-library/shared-library.go b/plugin/loader/shared-library/shared-library.go
index 8b01eb6..92e9f78 100644
--- a/plugin/loader/shared-library/shared-library.go
+++ b/plugin/loader/shared-library/shared-library.go
@@ -70,11 +70,12 @@ func LoadPluginSharedLibrary(
 	if loadedPlugin == nil {
 		return nil, errors.New("could not load hot plugin, nil plugin global")
 	}
-	pluginResolver, err := loadedPlugin.NewPluginResolver(ctx, bus)
+	subCtx, subCtxCancel := context.WithCancel(ctx)
+	pluginResolver, err := loadedPlugin.NewPluginResolver(subCtx, bus)
 	if err != nil {
+		subCtxCancel()
 		return nil, err
 	}
-	subCtx, subCtxCancel := context.WithCancel(ctx)
 	go func() {
 		resolverController := resolver.NewController(le, bus, pluginResolver)
 		err := bus.ExecuteController(
-- 
2.43.0


From e665a1aea04753beb332eb634d1c05a1f60854ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 50/61] fix: do not serve factories after the plugin was
 unloaded

A factory looked up while or after PrePluginUnload ran was registered in a list
which is never run again: controllers constructed with it stayed on the bus.
---
 plugin/resolver.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/plugin/resolver.go b/plugin/resolver.go
index f6b803c..60742be 100644
--- a/plugin/resolver.go
+++ b/plugin/resolver.go
@@ -87,11 +87,17 @@ func (r *Resolver) GetFactoryMatchingConfig(
 		return tfac, err
 	}
 
+	r.mtx.Lock()
+	defer r.mtx.Unlock()
+
+	// the pre-unload hooks will not run again once unloaded
+	if r.ctx.Err() != nil {
+		return nil, nil
+	}
+
 	// wrap factories with pre-unload hook
 	sf := NewStaticPluginFactory(r.ctx, tfac, r.pluginBinaryID, r.bus)
-	r.mtx.Lock()
 	r.preUnload = append(r.preUnload, sf.Close)
-	r.mtx.Unlock()
 	return sf, nil
 }
 
-- 
2.43.0


From 6fd066515ee0fd95b680a74ab95a092eb552b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 51/61] fix: close controllers constructed while the plugin is
 unloaded

If the factory was closed while Construct was running, the hook which removes
the controller was added to a list which is never run again.
---
 plugin/static-plugin-factory.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/plugin/static-plugin-factory.go b/plugin/static-plugin-factory.go
index 81ca129..e30ce7e 100644
--- a/plugin/static-plugin-factory.go
+++ b/plugin/static-plugin-factory.go
@@ -58,10 +58,21 @@ func (s *StaticPluginFactory) Construct(
 
 	// Ensure that the controller is removed just before we unload.
 	s.mtx.Lock()
-	s.preUnload = append(s.preUnload, func() {
-		s.bus.RemoveController(subController)
-	})
+	closedErr := s.ctx.Err()
+	if closedErr == nil {
+		s.preUnload = append(s.preUnload, func() {
+			s.bus.RemoveController(subController)
+		})
+	}
 	s.mtx.Unlock()
+
+	// the pre-unload hooks will not run again once closed
+	if closedErr != nil {
+		if subController != nil {
+			_ = subController.Close()
+		}
+		return nil, closedErr
+	}
 	return subController, err
 }
 
-- 
2.43.0


From 1c96f2626bf08b41117dd527278662a6eed1cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:17 +0000
Subject: [PATCH 52/61] fix: watch the plugin directory before the first scan

A plugin added, changed or removed between the first scan and the start of the
watch was not noticed until something else in the directory changed.
---
 plugin/loader/shared-library/filesystem/watcher.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/plugin/loader/shared-library/filesystem/watcher.go b/plugin/loader/shared-library/filesystem/watcher.go
index 1210f23..33c22a2 100644
--- a/plugin/loader/shared-library/filesystem/watcher.go
+++ b/plugin/loader/shared-library/filesystem/watcher.go
@@ -182,11 +182,11 @@ func (w *Watcher) UnloadAll() {
 // Execute executes the watcher and loads / runs plugins.
 func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error {
 	defer w.UnloadAll()
-	if err := w.SyncPlugins(ctx, syncDir); err != nil {
-		return err
-	}
 
 	if !watch {
+		if err := w.SyncPlugins(ctx, syncDir); err != nil {
+			return err
+		}
 		<-ctx.Done()
 		return nil
 	}
@@ -197,9 +197,13 @@ func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error
 	}
 	defer watcher.Close()
 
+	// start watching before the initial sync so that no change is missed
 	if err := watcher.Add(syncDir); err != nil {
 		return err
 	}
+	if err := w.SyncPlugins(ctx, syncDir); err != nil {
+		return err
+	}
 
 	for {
 		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(ctx, watcher, debounceTime, nil)
-- 
2.43.0


From 6e9e70819bb3dc5244400571b654acb80b386b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:20 +0000
Subject: [PATCH 53/61] fix: do not drop changes made while plugins are
 synchronized

DebounceFSWatcherEvents starts by discarding the queued events: a plugin file
which changed after SyncPlugins scanned the directory and before the next call
was not noticed. It also returned no error when the watcher was closed, in
which case Execute re-synchronized in a busy loop.
---
 .../shared-library/filesystem/watcher.go      | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/plugin/loader/shared-library/filesystem/watcher.go b/plugin/loader/shared-library/filesystem/watcher.go
index 33c22a2..643abcd 100644
--- a/plugin/loader/shared-library/filesystem/watcher.go
+++ b/plugin/loader/shared-library/filesystem/watcher.go
@@ -13,8 +13,8 @@ import (
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	shared "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library"
-	debounce_fswatcher "github.com/aperturerobotics/util/debounce-fswatcher"
 	"github.com/fsnotify/fsnotify"
+	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -205,15 +205,33 @@ func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error
 		return err
 	}
 
+	var happened int
+	var resync <-chan time.Time
 	for {
-		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(ctx, watcher, debounceTime, nil)
-		if err != nil {
-			return err
-		}
-
-		w.le.Debugf("re-syncing plugins after %d filesystem events", len(happened))
-		if err := w.SyncPlugins(ctx, syncDir); err != nil {
-			return err
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case err, ok := <-watcher.Errors:
+			if !ok {
+				err = fsnotify.ErrClosed
+			}
+			return errors.Wrap(err, "watcher error")
+		case event, ok := <-watcher.Events:
+			if !ok {
+				return errors.Wrap(fsnotify.ErrClosed, "watcher error")
+			}
+			if event.Op == fsnotify.Chmod {
+				continue
+			}
+			// wait for a quiet period before syncing
+			happened++
+			resync = time.After(debounceTime)
+		case <-resync:
+			w.le.Debugf("re-syncing plugins after %d filesystem events", happened)
+			happened, resync = 0, nil
+			if err := w.SyncPlugins(ctx, syncDir); err != nil {
+				return err
+			}
 		}
 	}
 }
-- 
2.43.0


From 7b19e454d0b72d05b640a79c6f2ca586992749ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 54/61] fix: use the default build prefix and binary id in the
 plugin cli

The defaults were computed and logged but the empty arguments were passed on:
NewModuleCompiler rejects an empty prefix, so compiling without
--build-prefix always failed.
---
 plugin/cli/compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/cli/compile.go b/plugin/cli/compile.go
index e15a48b..56df22c 100644
--- a/plugin/cli/compile.go
+++ b/plugin/cli/compile.go
@@ -84,7 +84,7 @@ func (a *CompilerArgs) setupCompiler(
 		WithField("plugin-binary-id", pluginBinaryID).
 		WithField("build-prefix", buildPrefix).
 		Infof("creating compiler for plugin with packages: %v", args)
-	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, a.BuildPrefix, codegenDirPath, a.PluginBinaryID)
+	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, buildPrefix, codegenDirPath, pluginBinaryID)
 	if err != nil {
 		return nil, nil, rel, err
 	}
-- 
2.43.0


From a4760c11d1d1cc25942a561f9a418d88dfcd9d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 55/61] fix: fail if a package of a plugin cannot be loaded

Packages which could not be resolved or type-checked were analyzed anyway:
the plugin wrapper was generated without their factories, or the analysis
panicked when the package had no type information.
---
 plugin/compiler/analysis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 323dc69..273a379 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -93,6 +93,9 @@ func AnalyzePackages(
 	}
 	res.fset = conf.Fset
 	for _, pkg := range loadedPackages {
+		if len(pkg.Errors) != 0 || pkg.IllTyped || pkg.Types == nil {
+			return nil, errors.Errorf("package %s contains errors: %v", pkg.PkgPath, pkg.Errors)
+		}
 		res.packages[pkg.PkgPath] = pkg
 	}
 
-- 
2.43.0


From 86ead33f0b435c24925a75a7bd5322ac77c96aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 56/61] fix: fail if a package of a plugin is not in a module

AnalyzePackages warns about packages without a module, GenerateModules then
panicked with a nil pointer dereference.
---
 plugin/compiler/module-compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 4971111..fb49fb3 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -326,6 +326,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				errs,
 			)
 		}
+		if factoryPkg.Module == nil {
+			return errors.Errorf("no module was resolved for package %s", factoryPkg.PkgPath)
+		}
 		factoryPkgModPath := factoryPkg.Module.Path
 		factoryPkgCodegenPath, ok := moduleCodegenPaths[factoryPkgModPath]
 		if !ok {
-- 
2.43.0


From 98e7b10fe9c371fa45b4a00bbf409df13091ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:03 +0000
Subject: [PATCH 57/61] fix: include the factories of packages with the same
 name in plugins

The factories were keyed by the name of their package: of several packages
with the same name all but one were dropped, and the generated imports
collided. The factories were also emitted in random order.
---
 plugin/compiler/analysis.go |  3 ++-
 plugin/compiler/codegen.go  | 47 ++++++++++++++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 273a379..df39d3e 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -25,6 +25,7 @@ type Analysis struct {
 	// keyed by import path
 	imports map[string]*types.Package
 	// controllerFactories contains the set of packages containing controllers
+	// keyed by import path
 	controllerFactories map[string]*packages.Package
 	// module contains all factory modules
 	module map[string]*packages.Module
@@ -116,7 +117,7 @@ func AnalyzePackages(
 		factoryPkgImportPath := pkg.Types.Path()
 		if factoryCtorObj != nil {
 			le.Debugf("found factory ctor func: %s", factoryCtorObj.Type().String())
-			res.controllerFactories[BuildPackageName(pkg.Types)] = pkg
+			res.controllerFactories[factoryPkgImportPath] = pkg
 			if _, ok := res.imports[factoryPkgImportPath]; !ok {
 				le.
 					WithField("import-path", factoryPkgImportPath).
diff --git a/plugin/compiler/codegen.go b/plugin/compiler/codegen.go
index c7e7408..a16b890 100644
--- a/plugin/compiler/codegen.go
+++ b/plugin/compiler/codegen.go
@@ -44,12 +44,47 @@ func FormatFile(gf *gast.File) ([]byte, error) {
 	return outDat.Bytes(), nil
 }
 
-// BuildPackageName builds the unique name for the package.
+// BuildPackageName builds the base name to import the package with.
 func BuildPackageName(pkg *types.Package) string {
 	// for now just use package name
 	return pkg.Name()
 }
 
+// buildImportNames builds an unique import name for each of the import paths.
+func buildImportNames(imports map[string]*types.Package, sortedPaths []string) map[string]string {
+	// names which are declared by the generated code
+	used := map[string]struct{}{
+		"b": {}, "main": {}, "nil": {},
+		"BinaryID": {}, "BinaryVersion": {}, "BinaryFactories": {},
+		"Plugin": {}, "NewPlugin": {}, plugin.PluginGlobalVar: {},
+	}
+	names := make(map[string]string, len(sortedPaths))
+	for _, impPath := range sortedPaths {
+		if imports[impPath] == nil {
+			// imported without setting a name
+			names[impPath] = path.Base(impPath)
+			used[names[impPath]] = struct{}{}
+		}
+	}
+	for _, impPath := range sortedPaths {
+		impPkg := imports[impPath]
+		if impPkg == nil {
+			continue
+		}
+		baseName := BuildPackageName(impPkg)
+		name := baseName
+		for i := 2; ; i++ {
+			if _, ok := used[name]; !ok {
+				break
+			}
+			name = fmt.Sprintf("%s_%d", baseName, i)
+		}
+		names[impPath] = name
+		used[name] = struct{}{}
+	}
+	return names
+}
+
 // CodegenPluginWrapperFromAnalysis codegens a plugin wrapper from analysis.
 func CodegenPluginWrapperFromAnalysis(
 	le *logrus.Entry,
@@ -62,12 +97,13 @@ func CodegenPluginWrapperFromAnalysis(
 		importStrs = append(importStrs, impPkg)
 	}
 	sort.Strings(importStrs)
+	importNames := buildImportNames(a.imports, importStrs)
 	for _, impPath := range importStrs {
 		impPkg := a.imports[impPath]
 		// impPkg may be nil
 		var impIdent *gast.Ident
 		if impPkg != nil {
-			impIdent = gast.NewIdent(BuildPackageName(impPkg))
+			impIdent = gast.NewIdent(importNames[impPath])
 		}
 		allDecls = append(allDecls, &gast.GenDecl{
 			Tok: token.IMPORT,
@@ -117,14 +153,19 @@ func CodegenPluginWrapperFromAnalysis(
 
 	// Construct the elements of the slice to return from BinaryFactories.
 	var buildControllersElts []gast.Expr
+	factoryPaths := make([]string, 0, len(a.controllerFactories))
 	for fpkg := range a.controllerFactories {
+		factoryPaths = append(factoryPaths, fpkg)
+	}
+	sort.Strings(factoryPaths)
+	for _, fpkg := range factoryPaths {
 		buildControllersElts = append(buildControllersElts, &gast.CallExpr{
 			Args: []gast.Expr{
 				gast.NewIdent("b"),
 			},
 			Fun: &gast.SelectorExpr{
 				Sel: gast.NewIdent("NewFactory"),
-				X:   gast.NewIdent(fpkg),
+				X:   gast.NewIdent(importNames[fpkg]),
 			},
 		})
 	}
-- 
2.43.0


From 03c0b9c7f385090aac12e70d239f145970b54dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:06 +0000
Subject: [PATCH 58/61] fix: generate the plugin go.mod in a fixed order

The modules were processed in random order. Where two of them replace the same
module, or require different versions of one, it was random which is used.
---
 plugin/compiler/module-compiler.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index fb49fb3..7852bec 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 
 	"github.com/aperturerobotics/util/exec"
 	"github.com/mr-tron/base58/base58"
@@ -121,7 +122,13 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	moduleCodegenPaths := make(map[string]string)
 	loadedModules := analysis.GetImportedModules()
-	for _, mod := range loadedModules {
+	loadedModulePaths := make([]string, 0, len(loadedModules))
+	for modPath := range loadedModules {
+		loadedModulePaths = append(loadedModulePaths, modPath)
+	}
+	sort.Strings(loadedModulePaths)
+	for _, modPath := range loadedModulePaths {
+		mod := loadedModules[modPath]
 		srcMod := mod
 		for mod.Replace != nil {
 			m.le.
@@ -249,7 +256,8 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 		// For each peer module that will be code-gen, add a replace statement.
 		// Note: replace statements /could/ be added on-demand
-		for _, peerMod := range loadedModules {
+		for _, peerModPath := range loadedModulePaths {
+			peerMod := loadedModules[peerModPath]
 			if peerMod == mod || peerMod.Path == srcMod.Path {
 				continue
 			}
-- 
2.43.0


From 687cb7c7bb1128e6b9cd88fb356b0b7ab1dd843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 59/61] fix: generate the same modules again from the same
 analysis

Generating modules rewrote the imports in the analyzed files. When the modules
were generated again with another prefix, as the plugin watcher does for its
second pass, imports between the packages still had the first prefix.
---
 plugin/compiler/module-compiler.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 7852bec..177dbd6 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -294,7 +294,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	}
 
-	rewritePackagesImports := func(pkgCodeFile *ast.File) {
+	// returns a function to restore the imports
+	rewritePackagesImports := func(pkgCodeFile *ast.File) func() {
+		prevPaths := make(map[*ast.BasicLit]string)
 		for _, pkgCodeImport := range pkgCodeFile.Imports {
 			pkgCodeImportPath := pkgCodeImport.Path.Value
 			if len(pkgCodeImportPath) < 2 {
@@ -307,8 +309,14 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				continue
 			}
 			replacedTargetPath := path.Join(buildPrefix, targetPkg.Types.Path())
+			prevPaths[pkgCodeImport.Path] = pkgCodeImport.Path.Value
 			pkgCodeImport.Path.Value = fmt.Sprintf("%q", replacedTargetPath)
 		}
+		return func() {
+			for pathLit, prevPath := range prevPaths {
+				pathLit.Value = prevPath
+			}
+		}
 	}
 
 	formatCodeFile := func(pkgCodeFile *ast.File) ([]byte, error) {
@@ -353,7 +361,12 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 			// rewrite any imports if necessary.
 			// any generated packages will have the new prefix before them.
-			rewritePackagesImports(pkgCodeFile)
+			restoreImports := rewritePackagesImports(pkgCodeFile)
+			outData, err := formatCodeFile(pkgCodeFile)
+			restoreImports()
+			if err != nil {
+				return err
+			}
 
 			// build relative path to the code file from the module root.
 			codeFileRelativeToModule, err := filepath.Rel(factoryPkg.Module.Dir, pkgCodeFilePath)
@@ -364,16 +377,6 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 			// write the new formatted file to the output
 			pkgCodeOutPath := filepath.Join(factoryPkgCodegenPath, codeFileRelativeToModule)
 			pkgCodeOutDirPath := filepath.Dir(pkgCodeOutPath)
-			/*
-				m.le.
-					WithField("orig-path", pkgCodeFilePath).
-					WithField("target-path", pkgCodeOutPath).
-					Debug("formatting code file")
-			*/
-			outData, err := formatCodeFile(pkgCodeFile)
-			if err != nil {
-				return err
-			}
 			if err := os.MkdirAll(pkgCodeOutDirPath, 0o755); err != nil {
 				return err
 			}
-- 
2.43.0


From 39f093676acaed18a2ed610e40418c2588688125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 60/61] fix: write the unique build id to the plugin code

The build id was appended to the intermediate file, which was then overwritten
with the code without the id: both passes compiled the same code. The file was
not closed and errors writing to it were ignored.
---
 plugin/compiler/compiler.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/plugin/compiler/compiler.go b/plugin/compiler/compiler.go
index c34f14f..d0944ed 100644
--- a/plugin/compiler/compiler.go
+++ b/plugin/compiler/compiler.go
@@ -107,11 +107,7 @@ func CompilePluginFromFile(
 	}
 
 	// add the build ID to the code to make it unique
-	interFile, err := os.OpenFile(intermediateGoFile, os.O_WRONLY|os.O_APPEND, 0o644)
-	if err != nil {
-		return err
-	}
-	_, _ = interFile.Write([]byte("\nvar HotPluginBuildUUID = `" + hashStr + "`\n"))
+	dat = append(dat, []byte("\nvar HotPluginBuildUUID = `"+hashStr+"`\n")...)
 	if err := os.WriteFile(intermediateGoFile, dat, 0o644); err != nil {
 		return err
 	}
-- 
2.43.0


From 029e0080deea315c621fa85017f80cdee4519ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 61/61] fix: do not delete other files when cleaning up old
 plugin versions

The pattern for old versions was not anchored: files whose names only contain
it were deleted, and with an output of {buildHash}.cbus.so every other plugin
in the directory.
---
 plugin/compiler/watcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9173ced..9971087 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -257,11 +257,11 @@ func CleanupOldVersions(le *logrus.Entry, pluginOutputPath string) error {
 	}
 	filenameRe, err := regexp.Compile(strings.Join([]string{
 		// match part 0
-		"(", regexp.QuoteMeta(pts[0]), ")",
+		"^(", regexp.QuoteMeta(pts[0]), ")",
 		// match build id
 		"([a-zA-Z0-9]*)",
 		// match part 1
-		"(", regexp.QuoteMeta(pts[1]), ")",
+		"(", regexp.QuoteMeta(pts[1]), ")$",
 	}, ""))
 	if err != nil {
 		return err
-- 
2.43.0


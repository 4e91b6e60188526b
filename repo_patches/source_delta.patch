From 048cfad847d4914cdeb53cde6eaa782c81641898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 01/48] fix: superseding several directives at once corrupted
 the directive list

The loop over the list kept ranging over the old slice while entries were
removed in place, so adding a directive superseding two others panicked with
a stale index or skipped entries.
---
 directive/controller/controller.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 30a7243..4fbd027 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -63,13 +63,17 @@ func (c *Controller) AddDirective(
 
 	// Check if any equivalent directives exist, if applicable.
 	if eqDir, eqDirOk := dir.(directive.DirectiveWithEquiv); eqDirOk {
-		for diIdx, di := range c.dir {
+		for diIdx := 0; diIdx < len(c.dir); diIdx++ {
+			di := c.dir[diIdx]
 			if !di.released.Load() && eqDir.IsEquivalent(di.dir) {
 				// Directive is equivalent to di.
 				spDir, spDirOk := eqDir.(directive.DirectiveWithSuperceeds)
 				if spDirOk && spDir.Superceeds(di.dir) {
 					// Remove the other directive (superceed it)
 					di.removeLocked(diIdx)
+					// The list changed, and may have changed further while the
+					// callbacks were called: start over.
+					diIdx = -1
 				} else {
 					// Add a reference to the other directive & return.
 					return di, di.addReferenceLocked(ref, false), nil
-- 
2.43.0


From 99b28bcbdf6ebfb83e766aedf3b2937818afc72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 02/48] fix: resolvers of a removed handler or released
 directive were attached

The handlers are asked while the mutex is unlocked. If the handler was removed
or the directive was released meanwhile, the returned resolvers were attached
and started regardless, and nothing ever removed them.
---
 directive/controller/controller.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 4fbd027..725a7e8 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -110,8 +110,9 @@ func (c *Controller) AddDirective(
 	c.mtx.Lock() // note: unlocked in Defer above
 
 	di.ready = true
-	if !di.released.Load() {
-		for _, res := range resolvers {
+	for _, res := range resolvers {
+		// the directive or the handler may have been removed while unlocked
+		if !di.released.Load() && !res.hnd.rel.Load() {
 			di.attachStartResolverLocked(res)
 		}
 	}
@@ -167,7 +168,10 @@ func (c *Controller) addHandlerLocked(handler directive.Handler) (func(), error)
 	// attach returned resolvers while mtx is locked
 	c.mtx.Lock()
 	for i, res := range resolvers {
-		dis[i].attachStartResolverLocked(res)
+		// the directive or the handler may have been removed while unlocked
+		if !dis[i].released.Load() && !hnd.rel.Load() {
+			dis[i].attachStartResolverLocked(res)
+		}
 	}
 	relHandler := func() {
 		if !hnd.rel.Swap(true) {
-- 
2.43.0


From 218c4330202cf3594d7cbb2ae7e5ad91170349f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 03/48] fix: resolvers attached at the value cap were never
 started

A resolver attached while the directive has reached its value cap was not
marked as stopped, so it did not start once the directive was below the cap.
The lists of resolvers are also copied before callbacks may change them, and
a released directive does not start its stopped resolvers again.
---
 directive/controller/instance.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index bf50e72..a9f73a1 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -280,8 +280,12 @@ func (i *directiveInstance) handleFullLocked() {
 	// we have enough values, reaching the maxVals cap
 	// mark resolvers with values as idle
 	// cancel non-idle resolvers with no values
-	for _, res := range i.res {
-		if res.idle {
+	for _, res := range slices.Clone(i.res) {
+		// the idle callbacks called below may have changed the state
+		if !i.full || i.released.Load() {
+			return
+		}
+		if res.idle || !slices.Contains(i.res, res) {
 			continue
 		}
 		if !res.exited && len(res.vals) == 0 {
@@ -304,7 +308,14 @@ func (i *directiveInstance) handleNotFullLocked() {
 
 	i.full = false
 	// restart resolvers that exited with errors and/or were killed
-	for _, res := range i.res {
+	for _, res := range slices.Clone(i.res) {
+		// the idle callbacks called below may have changed the state
+		if i.full || i.released.Load() {
+			return
+		}
+		if !slices.Contains(i.res, res) {
+			continue
+		}
 		if (res.exited && res.err != nil) || res.stopped {
 			res.updateContextLocked(&i.ctx)
 		}
@@ -618,7 +629,8 @@ func (i *directiveInstance) callHandlerUnlocked(handler *handler) (res []*resolv
 func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
 	i.res = append(i.res, res)
 	if i.full {
-		res.idle = true
+		// started when the directive is below the value cap again
+		res.stopped = true
 		res.updateContextLocked(nil)
 	} else {
 		res.updateContextLocked(&i.ctx)
-- 
2.43.0


From fa5995d873c6b8e05ca9ada2771f94d4ccdec586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 04/48] fix: idle callbacks missed changes of the idle state

The released callbacks stayed in the list (and others were called twice), a
directive without resolvers was never reported as idle, and the state reported
when adding a callback could differ from the tracked state.
---
 directive/controller/controller.go |  3 ++-
 directive/controller/instance.go   | 13 ++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 725a7e8..2cb0ea1 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -109,13 +109,14 @@ func (c *Controller) AddDirective(
 	// attach returned resolvers while mtx is locked
 	c.mtx.Lock() // note: unlocked in Defer above
 
-	di.ready = true
 	for _, res := range resolvers {
 		// the directive or the handler may have been removed while unlocked
 		if !di.released.Load() && !res.hnd.rel.Load() {
 			di.attachStartResolverLocked(res)
 		}
 	}
+	di.ready = true
+	di.handleIdleStateLocked()
 
 	return di, diRef, nil
 }
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index a9f73a1..bc5efd7 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -338,9 +338,9 @@ func (i *directiveInstance) checkFullLocked() {
 	}
 }
 
-// checkIdleLocked checks if there are any running resolvers
+// checkIdleLocked checks if the handlers were called and there are no running resolvers
 func (i *directiveInstance) checkIdleLocked() bool {
-	return i.countRunningResolversLocked() == 0
+	return i.ready && i.countRunningResolversLocked() == 0
 }
 
 // handleIdleStateLocked checks if the idle state of the instance changes & handles that if so.
@@ -370,12 +370,12 @@ func (i *directiveInstance) handleIdleStateLocked() {
 
 // removeReleaseCallbackLocked removes a release callback while i.c.mtx is locked.
 func (i *directiveInstance) removeReleaseCallbackLocked(cb *callback[func()]) {
-	removeFromCallbacks(i.rels, cb)
+	i.rels = removeFromCallbacks(i.rels, cb)
 }
 
 // removeIdleCallbackLocked removes a idle callback while i.c.mtx is locked.
 func (i *directiveInstance) removeIdleCallbackLocked(cb *callback[directive.IdleCallback]) {
-	removeFromCallbacks(i.idles, cb)
+	i.idles = removeFromCallbacks(i.idles, cb)
 }
 
 // addValueLocked adds a value to the instance while i.c.mtx is locked
@@ -552,9 +552,12 @@ func (i *directiveInstance) AddIdleCallback(cb directive.IdleCallback) func() {
 	i.c.mtx.Lock()
 	defer i.c.mtx.Unlock()
 
+	// ensure that the next call to the callback is a change from the initial state
+	i.handleIdleStateLocked()
+
 	rel := newCallback(cb)
 	i.idles = append(i.idles, rel)
-	isIdle := i.ready && i.checkIdleLocked()
+	isIdle := i.idle
 	errs := i.getResolverErrsLocked()
 	i.callCallbacksLocked(func() {
 		cb(isIdle, errs)
-- 
2.43.0


From d130e314b00ff050c129ab34c97e88f0c992f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 05/48] fix: removing a handler skipped resolvers when
 callbacks changed the lists

---
 directive/controller/controller.go | 3 ++-
 directive/controller/instance.go   | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 2cb0ea1..ac61e37 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -206,7 +206,8 @@ func (c *Controller) removeHandlerLocked(hnd *handler) bool {
 		return false
 	}
 	// cancel all resolvers associated with the handler
-	for _, di := range c.dir {
+	// note: callbacks may change the list of directives
+	for _, di := range slices.Clone(c.dir) {
 		di.removeHandlerLocked(hnd)
 	}
 	return true
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index bc5efd7..ef98e1f 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -708,11 +708,10 @@ func (i *directiveInstance) removeLocked(diIdx int) {
 // removeHandlerLocked removes all resolvers associated with the handler.
 // caller locks c.mtx
 func (i *directiveInstance) removeHandlerLocked(hnd *handler) {
-	for idx := 0; idx < len(i.res); idx++ {
-		res := i.res[idx]
+	// note: callbacks may change the list of resolvers
+	for _, res := range slices.Clone(i.res) {
 		if res.hnd == hnd {
-			i.removeResolverLocked(idx, res)
-			idx--
+			i.removeResolverLocked(-1, res)
 		}
 	}
 }
-- 
2.43.0


From 97bd4d1b1d1053108dca8f22bae193b1ea291cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 06/48] fix: resolver removed by an idle callback while
 starting kept running

---
 directive/controller/resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 64306e6..7c87a85 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -73,10 +73,11 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 		r.exitedCh = exitedCh
 		r.err = nil
 		r.exited, r.stopped = false, false
-		r.setIdleLocked(false)
 		r.ctx, r.ctxCancel = context.WithCancel(*ctx)
 		hnd := &resolverHandler{r: r, ctx: r.ctx}
 		go hnd.executeResolver(r.ctx, exitedCh, waitCh)
+		// note: callbacks may change the state of the resolver: call this last.
+		r.setIdleLocked(false)
 	}
 }
 
-- 
2.43.0


From b9a37a27034b2e2639ff6a10585dfebec43aa6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 07/48] fix: runs of a restarted resolver overlapped

A canceled run closed its exit channel without waiting for the run before it,
so the run after it started while the first one was still executing.
---
 directive/controller/resolver-handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index 0172199..619188f 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -171,11 +171,11 @@ func (r *resolverHandler) AddResolver(res directive.Resolver, removedCb func())
 // executeResolver is the goroutine to execute the resolver.
 func (r *resolverHandler) executeResolver(ctx context.Context, exitedCh chan<- struct{}, waitCh <-chan struct{}) {
 	defer close(exitedCh)
+	// wait for the previous run to exit, even if ctx is canceled: the next run waits for exitedCh.
 	if waitCh != nil {
-		select {
-		case <-ctx.Done():
+		<-waitCh
+		if ctx.Err() != nil {
 			return
-		case <-waitCh:
 		}
 	}
 
-- 
2.43.0


From 9c0f6b5b05b8a9877f5e40562d7f242c8f0855a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 08/48] fix: children of a removed resolver were not removed

---
 directive/controller/instance.go | 7 +++++++
 directive/controller/resolver.go | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index ef98e1f..59ab9ec 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -485,6 +485,7 @@ func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes d
 	}
 
 	subResReg := newResolver(i, res.hnd, subRes)
+	subResReg.parent = res
 	if removedCb != nil {
 		subResReg.rels = append(subResReg.rels, newCallback(removedCb))
 	}
@@ -745,6 +746,12 @@ func (i *directiveInstance) removeResolverLocked(resIdx int, rres *resolver) {
 	}
 	rres.rels = nil
 	i.callCallbacksLocked(cbs...)
+	// remove the child resolvers
+	for _, res := range slices.Clone(i.res) {
+		if res.parent == rres {
+			i.removeResolverLocked(-1, res)
+		}
+	}
 	// check if the idle state changed
 	i.handleIdleStateLocked()
 }
diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 7c87a85..1b11383 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -11,6 +11,8 @@ type resolver struct {
 	di  *directiveInstance
 	hnd *handler
 	res directive.Resolver
+	// parent is the resolver which added this one, if any
+	parent *resolver
 
 	// di.c.mtx guards below fields
 
-- 
2.43.0


From 733d58fb6176a4fa62c6e488b0bbff490fc4a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 09/48] fix: panics of controllers were not recovered

---
 bus/inmem/inmem.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 1765cfa..9dd95ff 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -57,7 +57,6 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 	go func() {
 		var err error
 		defer func() {
-			b.handleControllerPanic(&err)
 			if err != nil {
 				subCtxCancel()
 				b.removeController(ctrl)
@@ -66,6 +65,8 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 				}
 			}
 		}()
+		// recover() works in directly deferred functions only
+		defer b.handleControllerPanic(&err)
 		err = ctrl.Execute(subCtx)
 	}()
 	return relFunc, nil
@@ -96,11 +97,12 @@ func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (e
 	}
 
 	defer func() {
-		b.handleControllerPanic(&err)
 		if err != nil {
 			b.removeController(c)
 		}
 	}()
+	// recover() works in directly deferred functions only
+	defer b.handleControllerPanic(&err)
 
 	return c.Execute(ctx)
 }
-- 
2.43.0


From 572d28ecf0d8f1daa4633094da47b42356412e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 10/48] fix: bus deadlocked when used from callbacks while
 adding or removing controllers

---
 bus/inmem/inmem.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 9dd95ff..f9a2339 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -114,31 +114,38 @@ func (b *Bus) RemoveController(c controller.Controller) {
 
 // addController adds a controller to the bus
 func (b *Bus) addController(c controller.Controller) error {
-	b.mtx.Lock()
+	// AddHandler runs callbacks: do not hold mtx.
 	rel, err := b.AddHandler(c)
-	if err == nil {
-		b.controllers = append(b.controllers, &attachedCtrl{
-			ctrl: c,
-			rel:  rel,
-		})
+	if err != nil {
+		return err
 	}
+	b.mtx.Lock()
+	b.controllers = append(b.controllers, &attachedCtrl{
+		ctrl: c,
+		rel:  rel,
+	})
 	b.mtx.Unlock()
-	return err
+	return nil
 }
 
 // removeController removes a controller from the bus
 func (b *Bus) removeController(c controller.Controller) {
+	var rel func()
 	b.mtx.Lock()
 	for i, ci := range b.controllers {
 		if ci.ctrl == c {
+			rel = ci.rel
 			b.controllers[i] = b.controllers[len(b.controllers)-1]
 			b.controllers[len(b.controllers)-1] = nil
 			b.controllers = b.controllers[:len(b.controllers)-1]
-			ci.rel()
 			break
 		}
 	}
 	b.mtx.Unlock()
+	// rel runs callbacks: do not hold mtx.
+	if rel != nil {
+		rel()
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From e2b1f1e55f0cbe0f58dfdd0f46518c2f15746991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 11/48] fix: one-off lookups lost the filter error when the
 idle state was reported

---
 bus/oneoff.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bus/oneoff.go b/bus/oneoff.go
index 9046859..1becfd3 100644
--- a/bus/oneoff.go
+++ b/bus/oneoff.go
@@ -163,7 +163,12 @@ func ExecOneOffWithFilter(
 		bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 			// idle or errors list changed
 			idle = isIdle
-			wait, resErr = idleCb(idle, errs)
+			var idleErr error
+			wait, idleErr = idleCb(idle, errs)
+			// keep the error of the filter, if any
+			if resErr == nil {
+				resErr = idleErr
+			}
 			broadcast()
 		})
 	})()
-- 
2.43.0


From bafb6f6902481baf2ab3987a5f4f39d0e8e55f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 12/48] fix: watched values were not sorted by their ids

---
 bus/watch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 33e7193..9424a76 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -1,6 +1,7 @@
 package bus
 
 import (
+	"cmp"
 	"context"
 	"slices"
 	"sync"
@@ -159,7 +160,7 @@ func ExecOneOffWatchSelectCb[T directive.ComparableValue](
 				tav := directive.NewTypedAttachedValue(vid, val)
 				sortedVals = append(sortedVals, tav)
 				slices.SortFunc(sortedVals, func(a, b directive.TypedAttachedValue[T]) int {
-					return int(a.GetValueID() - b.GetValueID())
+					return cmp.Compare(a.GetValueID(), b.GetValueID())
 				})
 				selectNextValue()
 			},
@@ -468,7 +469,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 	var xfrmVals []directive.TransformedAttachedValue[T, E]
 	sortXfrmVals := func() {
 		slices.SortFunc(xfrmVals, func(a, b directive.TransformedAttachedValue[T, E]) int {
-			return int(a.GetValueID() - b.GetValueID())
+			return cmp.Compare(a.GetValueID(), b.GetValueID())
 		})
 	}
 
-- 
2.43.0


From c58f78ab014d4e00e6f33fcae1ba55c2f9fcf336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 13/48] fix: no other value was selected when the selected one
 of a transform effect was removed

---
 bus/watch.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 9424a76..e1953de 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -480,7 +480,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		var selectedVal directive.TransformedAttachedValue[T, E]
 
 		var valueIdx int
-		if selectValue != nil {
+		if selectValue != nil && len(xfrmVals) != 0 {
 			valueIdx = selectValue(xfrmVals)
 		}
 		if valueIdx >= 0 && valueIdx < len(xfrmVals) {
@@ -493,9 +493,12 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		}
 		if effectRel != nil {
 			effectRel()
+			effectRel = nil
 		}
 		effectVal = selectedValID
-		effectRel = effect(selectedVal)
+		if selectedVal != nil {
+			effectRel = effect(selectedVal)
+		}
 	}
 
 	return ExecWatchTransformEffect(
@@ -513,13 +516,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 				idx := slices.Index(xfrmVals, val)
 				if idx >= 0 {
 					xfrmVals = slices.Delete(xfrmVals, idx, idx+1)
-					if effectVal == val.GetValueID() {
-						effectVal = 0
-						if effectRel != nil {
-							effectRel()
-							effectRel = nil
-						}
-					}
+					maybeCallEffect()
 				}
 				mtx.Unlock()
 			}
-- 
2.43.0


From e89d3e0720a08670876e4e8403d658a30a2d67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 14/48] fix: transform handler without a function emitted a
 method instead of the value

---
 bus/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bus/transform.go b/bus/transform.go
index d27a7aa..b18571a 100644
--- a/bus/transform.go
+++ b/bus/transform.go
@@ -47,7 +47,7 @@ func (h *TransformHandler) HandleValueAdded(
 			return
 		}
 	} else {
-		val = v.GetValue
+		val = v.GetValue()
 	}
 
 	id, accepted := h.handler.AddValue(val)
-- 
2.43.0


From f3d0720633623e1bd6db55c3d5610a330b86c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 15/48] fix: bus bridge ignored directives which were released
 and added again

---
 bus/bridge/bridge.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/bus/bridge/bridge.go b/bus/bridge/bridge.go
index 8bd8b30..d31aae9 100644
--- a/bus/bridge/bridge.go
+++ b/bus/bridge/bridge.go
@@ -26,7 +26,15 @@ type BusBridge struct {
 	// mtx guards below fields
 	mtx sync.Mutex
 	// seenDi is the list of seen ongoing directive instances
-	seenDi map[directive.Directive]struct{}
+	seenDi map[directive.Directive]seenInstance
+}
+
+// seenInstance is an ongoing directive instance.
+type seenInstance struct {
+	// ctx is canceled when the instance expires
+	ctx context.Context
+	// di is the instance
+	di directive.Instance
 }
 
 // FilterFn filters directive instances for the bus bridge.
@@ -37,7 +45,7 @@ func NewBusBridge(target bus.Bus, filterFn FilterFn) *BusBridge {
 	return &BusBridge{
 		target:   target,
 		filterFn: filterFn,
-		seenDi:   make(map[directive.Directive]struct{}),
+		seenDi:   make(map[directive.Directive]seenInstance),
 	}
 }
 
@@ -78,9 +86,13 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 
 	dir := di.GetDirective()
 	b.mtx.Lock()
-	_, seen := b.seenDi[dir]
+	prev, seen := b.seenDi[dir]
+	if seen && prev.ctx.Err() != nil {
+		// the previous instance expired
+		seen = false
+	}
 	if !seen {
-		b.seenDi[dir] = struct{}{}
+		b.seenDi[dir] = seenInstance{ctx: ctx, di: di}
 	}
 	b.mtx.Unlock()
 
@@ -93,7 +105,9 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 	// use separate goroutine to avoid mutex contention
 	go di.AddDisposeCallback(func() {
 		b.mtx.Lock()
-		delete(b.seenDi, dir)
+		if b.seenDi[dir].di == di {
+			delete(b.seenDi, dir)
+		}
 		b.mtx.Unlock()
 	})
 
-- 
2.43.0


From eb76e12bf87d54da6e57928ed5e4179fe8e8315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 16/48] fix: access resolver released values twice

---
 directive/access-resolver.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/directive/access-resolver.go b/directive/access-resolver.go
index 453e2b1..bf3d5e8 100644
--- a/directive/access-resolver.go
+++ b/directive/access-resolver.go
@@ -58,19 +58,21 @@ func (r *AccessResolver[T]) Resolve(ctx context.Context, handler ResolverHandler
 			return nil
 		}
 
-		relCb := handler.AddValueRemovedCallback(valID, rel)
-		select {
-		case <-ctx.Done():
-			relCb()
+		// the value might be removed concurrently: call rel once only
+		relOnce := sync.OnceFunc(func() {
 			if rel != nil {
 				rel()
 			}
+		})
+		relCb := handler.AddValueRemovedCallback(valID, relOnce)
+		select {
+		case <-ctx.Done():
+			relCb()
+			relOnce()
 			return context.Canceled
 		case <-releasedCh:
 			relCb()
-			if rel != nil {
-				rel()
-			}
+			relOnce()
 		}
 	}
 }
-- 
2.43.0


From ec88ebb7c8ea271999fbe8fb9cd0dfa9953c55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 17/48] fix: keyed getter resolver ignored a release before the
 value was added

---
 directive/keyed-getter-resolver.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/directive/keyed-getter-resolver.go b/directive/keyed-getter-resolver.go
index 38a749e..6d89a65 100644
--- a/directive/keyed-getter-resolver.go
+++ b/directive/keyed-getter-resolver.go
@@ -37,14 +37,17 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		})
 
 		var valID atomic.Uint32
+		var released atomic.Bool
 		val, relVal, err := r.getter(ctx, r.key, func() {
-			old := valID.Swap(0)
-			if old != 0 {
+			if released.Swap(true) {
+				return
+			}
+			if old := valID.Swap(0); old != 0 {
 				_, _ = handler.RemoveValue(old)
-				bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-					broadcast()
-				})
 			}
+			bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+				broadcast()
+			})
 		})
 		if err != nil {
 			if relVal != nil {
@@ -68,13 +71,15 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 			}
 			return nil
 		}
-		if !valID.CompareAndSwap(0, addedValID) {
+		valID.Store(addedValID)
+		if released.Load() {
 			// already released
-			valID.Store(0)
+			if old := valID.Swap(0); old != 0 {
+				_, _ = handler.RemoveValue(old)
+			}
 			if relVal != nil {
 				relVal()
 			}
-			_, _ = handler.RemoveValue(addedValID)
 
 			// try again
 			continue
@@ -88,6 +93,7 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		}
 
 		valID.Store(0)
+		released.Store(true)
 		if relVal != nil {
 			relVal()
 		}
-- 
2.43.0


From 202dedef914ce11e9be36e05d3c9917faff245a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 18/48] fix: transform resolvers mixed up value ids and kept
 values when stopped

---
 directive/transform-resolver.go       | 107 +++++++++++++++++++-------
 directive/typed-transform-resolver.go |  32 ++------
 2 files changed, 85 insertions(+), 54 deletions(-)

diff --git a/directive/transform-resolver.go b/directive/transform-resolver.go
index d5cffbf..ed95b23 100644
--- a/directive/transform-resolver.go
+++ b/directive/transform-resolver.go
@@ -2,6 +2,7 @@ package directive
 
 import (
 	"context"
+	"sync"
 )
 
 // TransformAttachedValueFunc transforms an AttachedValue.
@@ -33,11 +34,7 @@ func NewTransformResolver[T Value](adder DirectiveAdder, dir Directive, xfrm Tra
 
 // Resolve resolves the values, emitting them to the handler.
 func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHandler) error {
-	type addedVal struct {
-		id  uint32
-		rel func()
-	}
-	addedVals := make(map[uint32]addedVal)
+	vals := newTransformedVals(handler)
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -75,38 +72,20 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 				}
 			}
 
-			id, accepted := handler.AddValue(val)
-			if accepted {
-				addedVals[id] = addedVal{id: av.GetValueID(), rel: valRel}
-			} else {
-				if valRel != nil {
-					valRel()
-				}
-			}
+			vals.add(av.GetValueID(), val, valRel)
 		}, func(av AttachedValue) {
-			valueID := av.GetValueID()
-			if addedValue, ok := addedVals[valueID]; ok {
-				delete(addedVals, valueID)
-				_, _ = handler.RemoveValue(addedValue.id)
-				if addedValue.rel != nil {
-					addedValue.rel()
-				}
-			}
+			vals.remove(av.GetValueID())
 		},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
+				vals.release()
 			},
 		),
 	)
 	if err != nil {
 		return err
 	}
+	defer vals.release()
 	defer handler.ClearValues()
 	defer ref.Release()
 
@@ -129,5 +108,79 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 	}
 }
 
+// transformedVals tracks the values added to the handler by source value id.
+type transformedVals struct {
+	handler ResolverHandler
+
+	// mtx guards below fields
+	mtx sync.Mutex
+	// released indicates release was called.
+	released bool
+	// vals contains the values by source value id.
+	vals map[uint32]transformedVal
+}
+
+// transformedVal is a value added to the handler.
+type transformedVal struct {
+	// id is the value id returned by the handler
+	id uint32
+	// rel is the release function, may be nil
+	rel func()
+}
+
+// newTransformedVals constructs a new transformedVals.
+func newTransformedVals(handler ResolverHandler) *transformedVals {
+	return &transformedVals{handler: handler, vals: make(map[uint32]transformedVal)}
+}
+
+// add adds the transformed value of the source value to the handler.
+func (t *transformedVals) add(srcID uint32, val Value, rel func()) {
+	id, accepted := t.handler.AddValue(val)
+	if accepted {
+		t.mtx.Lock()
+		released := t.released
+		if !released {
+			t.vals[srcID] = transformedVal{id: id, rel: rel}
+		}
+		t.mtx.Unlock()
+		if !released {
+			return
+		}
+		_, _ = t.handler.RemoveValue(id)
+	}
+	if rel != nil {
+		rel()
+	}
+}
+
+// remove removes the transformed value of the source value from the handler.
+func (t *transformedVals) remove(srcID uint32) {
+	t.mtx.Lock()
+	val, ok := t.vals[srcID]
+	delete(t.vals, srcID)
+	t.mtx.Unlock()
+	if !ok {
+		return
+	}
+	_, _ = t.handler.RemoveValue(val.id)
+	if val.rel != nil {
+		val.rel()
+	}
+}
+
+// release calls the remaining release functions.
+func (t *transformedVals) release() {
+	t.mtx.Lock()
+	t.released = true
+	vals := t.vals
+	t.vals = nil
+	t.mtx.Unlock()
+	for _, val := range vals {
+		if val.rel != nil {
+			val.rel()
+		}
+	}
+}
+
 // _ is a type assertion
 var _ Resolver = ((*TransformResolver[string])(nil))
diff --git a/directive/typed-transform-resolver.go b/directive/typed-transform-resolver.go
index 9a683ae..3e20948 100644
--- a/directive/typed-transform-resolver.go
+++ b/directive/typed-transform-resolver.go
@@ -46,11 +46,7 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 		return errors.New("xfrm cannot be nil for TypedTransformResolver")
 	}
 
-	type addedVal struct {
-		id  uint32
-		rel func()
-	}
-	addedVals := make(map[uint32]addedVal)
+	vals := newTransformedVals(handler)
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -79,33 +75,14 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 				}
 				val = result
 
-				id, accepted := handler.AddValue(val)
-				if accepted {
-					addedVals[id] = addedVal{id: tav.GetValueID(), rel: rel}
-				} else {
-					if rel != nil {
-						rel()
-					}
-				}
+				vals.add(tav.GetValueID(), val, rel)
 			},
 			func(tav TypedAttachedValue[V]) {
-				valueID := tav.GetValueID()
-				if addedValue, ok := addedVals[valueID]; ok {
-					delete(addedVals, valueID)
-					_, _ = handler.RemoveValue(addedValue.id)
-					if addedValue.rel != nil {
-						addedValue.rel()
-					}
-				}
+				vals.remove(tav.GetValueID())
 			},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
+				vals.release()
 			},
 			r.unknownTypeHandler,
 		),
@@ -113,6 +90,7 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 	if err != nil {
 		return err
 	}
+	defer vals.release()
 	defer handler.ClearValues()
 	defer ref.Release()
 
-- 
2.43.0


From 24ebe229b79ee700913b37d8777f2d205c1ea80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 19/48] fix: retry resolver ignored the end of the retries

---
 directive/resolver-retry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive/resolver-retry.go b/directive/resolver-retry.go
index 8ce6c6d..90e06ad 100644
--- a/directive/resolver-retry.go
+++ b/directive/resolver-retry.go
@@ -39,6 +39,9 @@ func (r *RetryResolver) Resolve(ctx context.Context, handler ResolverHandler) er
 		}
 
 		nextBackOff := r.bo.NextBackOff()
+		if nextBackOff == backoff.Stop {
+			return err
+		}
 		r.le.
 			WithError(err).
 			Warnf("resolver returned error: backing off %s", nextBackOff.String())
-- 
2.43.0


From 7b7e6cdab39ef1efae7c8613a077cd3e81acffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 20/48] fix: configset controller ignored the config following
 an invalid one

---
 controller/configset/controller/running-ctrl.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 71be896..6ee6751 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -57,14 +57,15 @@ func (c *runningController) GetConfigKey() string {
 
 // Execute actuates the running controller.
 func (c *runningController) Execute(ctx context.Context) (rerr error) {
-	c.mtx.Lock()
-	conf := c.conf
-	c.mtx.Unlock()
 	for {
 		if err := ctx.Err(); err != nil {
 			return err
 		}
 
+		c.mtx.Lock()
+		conf := c.conf
+		c.mtx.Unlock()
+
 		clearState := func(err error) {
 			c.mtx.Lock()
 			c.state.ctrl = nil
-- 
2.43.0


From 0302217248135b5dcdf8643b9301ac053b60f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 21/48] fix: configset controller started configs without
 references

---
 controller/configset/controller/controller.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/controller/configset/controller/controller.go b/controller/configset/controller/controller.go
index ef99228..4a0b9ca 100644
--- a/controller/configset/controller/controller.go
+++ b/controller/configset/controller/controller.go
@@ -60,17 +60,15 @@ ExecLoop:
 		}
 
 		c.mtx.Lock()
-		for k, cancel := range execControllers {
-			cv, ok := c.controllers[k]
-			if ok {
-				cv.mtx.Lock()
-				if len(cv.refs) == 0 { // garbage collect
-					delete(c.controllers, k)
-					ok = false
-				}
-				cv.mtx.Unlock()
+		for k, cv := range c.controllers {
+			cv.mtx.Lock()
+			if len(cv.refs) == 0 { // garbage collect
+				delete(c.controllers, k)
 			}
-			if !ok {
+			cv.mtx.Unlock()
+		}
+		for k, cancel := range execControllers {
+			if _, ok := c.controllers[k]; !ok {
 				cancel()
 				delete(execControllers, k)
 			}
-- 
2.43.0


From af040cff1194cc68470df8594eed38b7f472d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 22/48] fix: configset controller restarted controllers without
 a change

---
 controller/configset/controller/running-ctrl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 6ee6751..107ac40 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -64,6 +64,11 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 
 		c.mtx.Lock()
 		conf := c.conf
+		select {
+		case <-c.confRestartCh:
+			// conf is the new config already
+		default:
+		}
 		c.mtx.Unlock()
 
 		clearState := func(err error) {
-- 
2.43.0


From 00238b18b34ea6dc1d26bec251e12e964283c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 23/48] fix: configset state callbacks crashed without a
 controller and reported old states

---
 .../configset/controller/running-ctrl-ref.go  | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index 37b4837..de8781c 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -48,11 +48,29 @@ func (r *runningControllerRef) GetState() configset.State {
 // Should not block.
 // Will be called with the initial state.
 func (r *runningControllerRef) AddStateCallback(cb func(configset.State)) {
-	r.mtx.Lock()
-	r.cbs = append(r.cbs, cb)
-	rc := r.rc
-	r.mtx.Unlock()
-	cb(rc.GetState())
+	for {
+		rc := r.GetRunningController()
+		st := &runningControllerState{id: r.id}
+
+		// hold the mutex to call cb before the state changes.
+		if rc != nil {
+			rc.mtx.Lock()
+			*st = rc.state
+		}
+		r.mtx.Lock()
+		match := r.rc == rc
+		if match {
+			r.cbs = append(r.cbs, cb)
+			cb(st)
+		}
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.mtx.Unlock()
+		}
+		if match {
+			return
+		}
+	}
 }
 
 // GetRunningController gets the running controller.
-- 
2.43.0


From ef72bde3123aa34d7ce53d057e111216ce6e6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 24/48] fix: configset resolvers leaked references and
 deadlocked with state changes when released

---
 .../configset/controller/apply-config-set.go  | 20 +++++++++++++++----
 .../configset/controller/lookup-config-set.go | 20 +++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/controller/configset/controller/apply-config-set.go b/controller/configset/controller/apply-config-set.go
index 985bc55..5c09c0e 100644
--- a/controller/configset/controller/apply-config-set.go
+++ b/controller/configset/controller/apply-config-set.go
@@ -22,6 +22,7 @@ type applyConfigSetResolver struct {
 	// refsMtx guards refs
 	refsMtx sync.Mutex
 	// refs are the references
+	// nil if the references were released
 	refs map[configset.Reference]uint32
 }
 
@@ -82,8 +83,16 @@ func (r *applyConfigSetResolver) Resolve(
 
 		// Add reference to running instance
 		r.refsMtx.Lock()
-		r.refs[ref] = 0
+		released := r.refs == nil
+		if !released {
+			r.refs[ref] = 0
+		}
 		r.refsMtx.Unlock()
+		if released {
+			// the directive was released already
+			ref.Release()
+			return context.Canceled
+		}
 		ref.AddStateCallback(func(st configset.State) {
 			r.refsMtx.Lock()
 			v, vOk := r.refs[ref]
@@ -112,11 +121,14 @@ func (r *applyConfigSetResolver) Resolve(
 func (r *applyConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = nil
+	r.refsMtx.Unlock()
+
+	// note: the state callback locks refsMtx
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
diff --git a/controller/configset/controller/lookup-config-set.go b/controller/configset/controller/lookup-config-set.go
index 06ab097..3fc3d16 100644
--- a/controller/configset/controller/lookup-config-set.go
+++ b/controller/configset/controller/lookup-config-set.go
@@ -22,6 +22,7 @@ type lookupConfigSetResolver struct {
 	// refsMtx guards refs
 	refsMtx sync.Mutex
 	// refs are the references
+	// nil if the references were released
 	refs map[configset.Reference]uint32
 }
 
@@ -82,8 +83,16 @@ func (r *lookupConfigSetResolver) Resolve(
 		}
 
 		r.refsMtx.Lock()
-		r.refs[ref] = 0
+		released := r.refs == nil
+		if !released {
+			r.refs[ref] = 0
+		}
 		r.refsMtx.Unlock()
+		if released {
+			// the directive was released already
+			ref.Release()
+			return context.Canceled
+		}
 		ref.AddStateCallback(func(st configset.State) {
 			r.refsMtx.Lock()
 			v, vOk := r.refs[ref]
@@ -112,11 +121,14 @@ func (r *lookupConfigSetResolver) Resolve(
 func (r *lookupConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = nil
+	r.refsMtx.Unlock()
+
+	// note: the state callback locks refsMtx
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
-- 
2.43.0


From c3a3abcd7543b76874e16f897242bca39ce3af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 25/48] fix: configset controller added released references to
 new controllers

---
 controller/configset/controller/running-ctrl-ref.go | 11 ++++++++---
 controller/configset/controller/running-ctrl.go     |  4 +---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index de8781c..519f51d 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -14,6 +14,7 @@ type runningControllerRef struct {
 	mtx sync.Mutex
 	cbs []func(configset.State)
 	rc  *runningController // may be nil
+	rel bool               // released
 
 	relOnce sync.Once
 }
@@ -86,7 +87,7 @@ func (r *runningControllerRef) GetRunningController() *runningController {
 func (r *runningControllerRef) setRunningController(rc *runningController, st configset.State) bool {
 	var updated bool
 	r.mtx.Lock()
-	if r.rc != rc {
+	if r.rc != rc && !r.rel {
 		r.rc = rc
 		updated = true
 		for _, cb := range r.cbs { // r.rc.pushState(st)
@@ -109,8 +110,12 @@ func (r *runningControllerRef) pushState(st configset.State) {
 // Release releases the reference.
 func (r *runningControllerRef) Release() {
 	r.relOnce.Do(func() {
-		if r.rc != nil {
-			r.rc.DelReference(r)
+		r.mtx.Lock()
+		r.rel = true
+		rc := r.rc
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.DelReference(r)
 		}
 		if cb := r.relInternalCallback; cb != nil {
 			go r.relInternalCallback()
diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 107ac40..d71630b 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -193,12 +193,10 @@ func (c *runningController) ApplyReference(ref *runningControllerRef) {
 	}
 	c.mtx.Lock()
 	st := c.state
-	c.mtx.Unlock()
 	if ref.setRunningController(c, &st) {
-		c.mtx.Lock()
 		c.refs = append(c.refs, ref)
-		c.mtx.Unlock()
 	}
+	c.mtx.Unlock()
 }
 
 // DelReference removes a reference from the running controller.
-- 
2.43.0


From 389cbc9c525abff201c711686c7da067009a086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 26/48] fix: a controller kept running when the loader was
 removed

---
 controller/loader/loader-resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index f586179..6bfefd5 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -155,7 +155,7 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 
 		// run execute
 		le.Debug("starting controller")
-		execErr := bus.ExecuteController(c.ctx, ci)
+		execErr := bus.ExecuteController(ctx, ci)
 
 		le := le.WithField("exec-dur", time.Since(t1).String())
 		ctxCanceled := ctx.Err() != nil
-- 
2.43.0


From 4ffd06b799abc11cb51beaacec23776bd8cff956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 27/48] fix: waiting for a controller did not call the dispose
 callback when it left the running state

---
 controller/loader/ex-load-controller.go | 46 +++++++++++++++++++++----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/controller/loader/ex-load-controller.go b/controller/loader/ex-load-controller.go
index fe2691e..bfd74d1 100644
--- a/controller/loader/ex-load-controller.go
+++ b/controller/loader/ex-load-controller.go
@@ -3,6 +3,7 @@ package loader
 import (
 	"context"
 	"errors"
+	"sync"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller"
@@ -19,29 +20,51 @@ func WaitExecControllerRunning(
 	disposeCb func(),
 ) (controller.Controller, directive.Instance, directive.Reference, error) {
 	subCtx, subCtxCancel := context.WithCancel(ctx)
+	var disposeOnce sync.Once
 	dispose := func() {
 		subCtxCancel()
 		if disposeCb != nil {
-			disposeCb()
+			disposeOnce.Do(disposeCb)
 		}
 	}
 	defer subCtxCancel()
 
-	execValueCh := make(chan ExecControllerValue, 1)
+	// mtx guards below fields
+	var mtx sync.Mutex
+	// live contains the ids of the live values
+	live := make(map[uint32]struct{})
+	// running is the id of the returned value
+	var running uint32
+
+	execValueCh := make(chan directive.AttachedValue, 1)
 	di, diRef, err := b.AddDirective(dir, bus.NewCallbackHandler(
 		func(av directive.AttachedValue) {
 			retVal, _ := av.GetValue().(ExecControllerValue)
 			if retVal != nil {
+				mtx.Lock()
+				live[av.GetValueID()] = struct{}{}
+				mtx.Unlock()
 				select {
 				case <-execValueCh:
 				default:
 				}
 				select {
-				case execValueCh <- retVal:
+				case execValueCh <- av:
 				default:
 				}
 			}
-		}, nil, dispose,
+		},
+		func(av directive.AttachedValue) {
+			mtx.Lock()
+			_, wasLive := live[av.GetValueID()]
+			delete(live, av.GetValueID())
+			left := wasLive && running == av.GetValueID()
+			mtx.Unlock()
+			if left {
+				dispose()
+			}
+		},
+		dispose,
 	))
 	if err != nil {
 		return nil, nil, nil, err
@@ -52,12 +75,23 @@ func WaitExecControllerRunning(
 		case <-subCtx.Done():
 			diRef.Release()
 			return nil, nil, nil, subCtx.Err()
-		case val := <-execValueCh:
+		case av := <-execValueCh:
+			val := av.GetValue().(ExecControllerValue)
 			if err := val.GetError(); err != nil {
 				diRef.Release()
 				return nil, nil, nil, err
 			}
-			if ctrl := val.GetController(); ctrl != nil {
+			ctrl := val.GetController()
+			if ctrl == nil {
+				continue
+			}
+			mtx.Lock()
+			_, isLive := live[av.GetValueID()]
+			if isLive {
+				running = av.GetValueID()
+			}
+			mtx.Unlock()
+			if isLive {
 				return ctrl, di, diRef, nil
 			}
 		}
-- 
2.43.0


From 598d647c155c8b05cf24cfd424333d986f8693bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 28/48] fix: a loaded controller kept running when the resolver
 was removed

---
 controller/resolver/res-load-with-config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 0140231..6cacb35 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -70,7 +70,7 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		factoryCtx = factoryWithCtx.GetFactoryContext()
 	}
 
-	valCtx, valCtxCancel := context.WithCancel(r.ctx)
+	valCtx, valCtxCancel := context.WithCancel(ctx)
 	execDir := loader.NewExecController(factory, conf)
 
 	// pass through all values.
-- 
2.43.0


From e18b03d322f2cefc930d7b7041615671fdc9956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:48 +0000
Subject: [PATCH 29/48] fix: a stopped controller was still reported after its
 factory was unloaded

---
 controller/resolver/res-load-with-config.go | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 6cacb35..c15c838 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -74,7 +74,10 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	execDir := loader.NewExecController(factory, conf)
 
 	// pass through all values.
-	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
+	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(
+		&loadWithConfigHandler{ResolverHandler: vh, ctx: valCtx},
+		valCtxCancel,
+	))
 	if err != nil {
 		_, _ = vh.AddValue(loader.NewExecControllerValue(
 			time.Now(),
@@ -101,6 +104,8 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		}
 		valCtxCancel()
 		execRef.Release()
+		// the values of the released directive are not removed by the handler
+		_ = vh.ClearValues()
 		if factoryRef != nil {
 			factoryRef.Release()
 		}
@@ -109,5 +114,21 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	return nil
 }
 
+// loadWithConfigHandler rejects values after ctx is canceled.
+type loadWithConfigHandler struct {
+	directive.ResolverHandler
+	ctx context.Context
+}
+
+// AddValue adds a value to the result, returning success and an ID.
+func (h *loadWithConfigHandler) AddValue(val directive.Value) (uint32, bool) {
+	id, accepted := h.ResolverHandler.AddValue(val)
+	if accepted && h.ctx.Err() != nil {
+		_, _ = h.ResolverHandler.RemoveValue(id)
+		return 0, false
+	}
+	return id, accepted
+}
+
 // _ is a type assertion
 var _ directive.Resolver = ((*loadWithConfigResolver)(nil))
-- 
2.43.0


From 0b634dfcc9515fc1bf309eeec20e405b9a0ce955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:48 +0000
Subject: [PATCH 30/48] fix: loading a controller ignored the retry backoff of
 the directive

---
 controller/resolver/res-load-with-config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index c15c838..091b03e 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -71,7 +71,12 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	}
 
 	valCtx, valCtxCancel := context.WithCancel(ctx)
-	execDir := loader.NewExecController(factory, conf)
+	execDir := loader.NewExecControllerWithOpts(
+		factory,
+		conf,
+		r.dir.GetExecControllerRetryBackoff(),
+		directive.ValueOptions{},
+	)
 
 	// pass through all values.
 	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(
-- 
2.43.0


From 09680fbc10eb6d172eea03fe8f162ac126072f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 31/48] fix: listing the factories of the static resolver raced
 with adding one

---
 controller/resolver/static/resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller/resolver/static/resolver.go b/controller/resolver/static/resolver.go
index 4fff0a0..888c5ce 100644
--- a/controller/resolver/static/resolver.go
+++ b/controller/resolver/static/resolver.go
@@ -69,7 +69,9 @@ func (r *Resolver) AddFactory(factory controller.Factory) {
 
 // GetFactories returns the factories associated w/ the resolver.
 func (r *Resolver) GetFactories() []controller.Factory {
+	r.factoryMtx.Lock()
 	vals := slices.Collect(maps.Values(r.factories))
+	r.factoryMtx.Unlock()
 	slices.SortFunc(vals, func(a, b controller.Factory) int {
 		return strings.Compare(a.GetConfigID(), b.GetConfigID())
 	})
-- 
2.43.0


From c57871800e90137ccde286ce8afb535025f5df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 32/48] fix: the status of an executed controller could be
 reported out of order

---
 controller/exec/exec-request.go | 48 ++++++++++++++++++---------------
 controller/exec/exec.go         | 31 ++++++++++++---------
 2 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index 9bfc6d5..a145a48 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -132,8 +132,12 @@ func (r *ExecControllerRequest) Execute(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan configset.ApplyConfigSetValue, 1)
-	removedCh := make(chan configset.ApplyConfigSetValue, 1)
+	// changes are processed in the order in which they occur
+	type change struct {
+		val     configset.ApplyConfigSetValue
+		removed bool
+	}
+	changeCh := make(chan change, 1)
 
 	_, dirRef, err := cbus.AddDirective(
 		configset.NewApplyConfigSet(confSet),
@@ -147,7 +151,7 @@ func (r *ExecControllerRequest) Execute(
 				select {
 				case <-subCtx.Done():
 					return
-				case addedCh <- csVal:
+				case changeCh <- change{val: csVal}:
 				}
 			},
 			// value removed
@@ -159,7 +163,7 @@ func (r *ExecControllerRequest) Execute(
 				select {
 				case <-subCtx.Done():
 					return
-				case removedCh <- csVal:
+				case changeCh <- change{val: csVal, removed: true}:
 				}
 			},
 			subCtxCancel,
@@ -174,14 +178,28 @@ func (r *ExecControllerRequest) Execute(
 		select {
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
-			csvID := csv.GetId()
-			csvErr := csv.GetError()
+		case ch := <-changeCh:
+			csvID := ch.val.GetId()
+			if ch.removed {
+				// removed == value is no longer applicable.
+				if prevStates[csvID] == ControllerStatus_ControllerStatus_CONFIGURING {
+					continue
+				}
+				resp.Id = csvID
+				resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
+				prevStates[csvID] = resp.Status
+				if err := callCb(); err != nil {
+					return err
+				}
+				resp.Reset()
+				continue
+			}
+			csvErr := ch.val.GetError()
 			resp.Id = csvID
 			if csvErr != nil {
 				resp.Status = ControllerStatus_ControllerStatus_ERROR
 				resp.ErrorInfo = csvErr.Error()
-			} else if ctrl := csv.GetController(); ctrl != nil {
+			} else if ctrl := ch.val.GetController(); ctrl != nil {
 				ctrlInfo := ctrl.GetControllerInfo()
 				resp.Status = ControllerStatus_ControllerStatus_RUNNING
 				resp.ControllerInfo = ctrlInfo
@@ -196,20 +214,6 @@ func (r *ExecControllerRequest) Execute(
 				}
 			}
 			resp.Reset()
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			csvID := csv.GetId()
-			resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
-			if prevStates[csvID] == resp.Status {
-				resp.Status = ControllerStatus_ControllerStatus_UNKNOWN
-				break
-			}
-			resp.Id = csvID
-			prevStates[csvID] = resp.Status
-			if err := callCb(); err != nil {
-				return err
-			}
-			resp.Reset()
 		}
 	}
 }
diff --git a/controller/exec/exec.go b/controller/exec/exec.go
index 84ece33..2093b5f 100644
--- a/controller/exec/exec.go
+++ b/controller/exec/exec.go
@@ -26,8 +26,12 @@ func ExecuteController(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
-	removedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
+	// changes are processed in the order in which they occur
+	type change struct {
+		val     resolver.LoadControllerWithConfigValue
+		removed bool
+	}
+	changeCh := make(chan change, 1)
 
 	_, dirRef, err := cbus.AddDirective(
 		resolver.NewLoadControllerWithConfig(conf),
@@ -41,7 +45,7 @@ func ExecuteController(
 				select {
 				case <-subCtx.Done():
 					return
-				case addedCh <- csVal:
+				case changeCh <- change{val: csVal}:
 				}
 			},
 			// value removed
@@ -53,7 +57,7 @@ func ExecuteController(
 				select {
 				case <-subCtx.Done():
 					return
-				case removedCh <- csVal:
+				case changeCh <- change{val: csVal, removed: true}:
 				}
 			},
 			subCtxCancel,
@@ -78,10 +82,16 @@ func ExecuteController(
 			return nil
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
-			ctrl := csv.GetController()
-			csvErr := csv.GetError()
-			if csvErr != nil {
+		case ch := <-changeCh:
+			ctrl := ch.val.GetController()
+			if ch.removed {
+				// removed == value is no longer applicable.
+				if ctrl != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
+					callCb(ControllerStatus_ControllerStatus_CONFIGURING)
+				}
+				continue
+			}
+			if csvErr := ch.val.GetError(); csvErr != nil {
 				callCb(ControllerStatus_ControllerStatus_ERROR)
 				return csvErr
 			}
@@ -90,11 +100,6 @@ func ExecuteController(
 			} else {
 				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
 			}
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			if csv.GetController() != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
-				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
-			}
 		}
 	}
 }
-- 
2.43.0


From 6978643b6441d43c4a0b7d21dce310f07e673d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 33/48] fix: controllers constructed while or after a plugin is
 unloaded were kept

A factory that was looked up, or a controller that was constructed, while or
after the plugin was unloaded was added to a list that was not used anymore.
The log field of the plugin was set after the logger was used.
---
 plugin/resolver.go              | 26 ++++++++++++++++++++----
 plugin/static-plugin-factory.go | 36 ++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/plugin/resolver.go b/plugin/resolver.go
index f6b803c..97472c7 100644
--- a/plugin/resolver.go
+++ b/plugin/resolver.go
@@ -28,6 +28,7 @@ type Resolver struct {
 	bus                 bus.Bus
 
 	mtx       sync.Mutex
+	unloaded  bool
 	preUnload []func()
 }
 
@@ -73,6 +74,12 @@ func (r *Resolver) GetResolverVersion() semver.Version {
 func (r *Resolver) GetConfigCtorByID(
 	ctx context.Context, id string,
 ) (config.Constructor, error) {
+	r.mtx.Lock()
+	unloaded := r.unloaded
+	r.mtx.Unlock()
+	if unloaded {
+		return nil, nil
+	}
 	return r.staticResolver.GetConfigCtorByID(ctx, id)
 }
 
@@ -90,19 +97,30 @@ func (r *Resolver) GetFactoryMatchingConfig(
 	// wrap factories with pre-unload hook
 	sf := NewStaticPluginFactory(r.ctx, tfac, r.pluginBinaryID, r.bus)
 	r.mtx.Lock()
-	r.preUnload = append(r.preUnload, sf.Close)
+	unloaded := r.unloaded
+	if !unloaded {
+		r.preUnload = append(r.preUnload, sf.Close)
+	}
 	r.mtx.Unlock()
+	if unloaded {
+		// the plugin provides no factories anymore
+		sf.Close()
+		return nil, nil
+	}
 	return sf, nil
 }
 
 // PrePluginUnload is called just before the plugin is unloaded.
 func (r *Resolver) PrePluginUnload() {
 	r.mtx.Lock()
-	for _, f := range r.preUnload {
-		f()
-	}
+	r.unloaded = true
+	preUnload := r.preUnload
 	r.preUnload = nil
 	r.mtx.Unlock()
+	// removing controllers runs callbacks: do not hold mtx.
+	for _, f := range preUnload {
+		f()
+	}
 }
 
 // _ is a type assertion
diff --git a/plugin/static-plugin-factory.go b/plugin/static-plugin-factory.go
index 81ca129..ad126ed 100644
--- a/plugin/static-plugin-factory.go
+++ b/plugin/static-plugin-factory.go
@@ -17,6 +17,7 @@ type StaticPluginFactory struct {
 	binaryID  string
 	bus       bus.Bus
 	mtx       sync.Mutex
+	closed    bool
 	preUnload []func()
 }
 
@@ -48,32 +49,47 @@ func (s *StaticPluginFactory) Construct(
 	conf config.Config,
 	opts controller.ConstructOpts,
 ) (controller.Controller, error) {
-	subController, err := s.Factory.Construct(ctx, conf, opts)
-	if err != nil {
-		return subController, err
+	if err := s.ctx.Err(); err != nil {
+		return nil, err
 	}
 
 	// Augment logging fields.
 	opts.Logger = opts.Logger.WithField("plugin-binary-id", s.binaryID)
 
+	subController, err := s.Factory.Construct(ctx, conf, opts)
+	if err != nil || subController == nil {
+		return subController, err
+	}
+
 	// Ensure that the controller is removed just before we unload.
 	s.mtx.Lock()
-	s.preUnload = append(s.preUnload, func() {
-		s.bus.RemoveController(subController)
-	})
+	closed := s.closed
+	if !closed {
+		s.preUnload = append(s.preUnload, func() {
+			s.bus.RemoveController(subController)
+		})
+	}
 	s.mtx.Unlock()
-	return subController, err
+	if closed {
+		// unloaded while constructing the controller
+		_ = subController.Close()
+		return nil, context.Canceled
+	}
+	return subController, nil
 }
 
 // Close closes the static plugin factory.
 func (s *StaticPluginFactory) Close() {
 	s.ctxCancel()
 	s.mtx.Lock()
-	for _, f := range s.preUnload {
-		f()
-	}
+	s.closed = true
+	preUnload := s.preUnload
 	s.preUnload = nil
 	s.mtx.Unlock()
+	// removing controllers runs callbacks: do not hold mtx.
+	for _, f := range preUnload {
+		f()
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From 2f638a1a3e1ebc7df48795f683aa9e03089f8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 34/48] fix: invalid json configurations were validated and
 marshaled

Parsing was set up but never done: Validate accepted any configuration
starting with a brace, and MarshalJSON returned invalid json for it, or json
which is parsed to something else.
---
 controller/configset/proto/controller_config.go | 11 +++++------
 controller/configset/proto/errors.go            |  3 +++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/controller/configset/proto/controller_config.go b/controller/configset/proto/controller_config.go
index e29108b..6731dac 100644
--- a/controller/configset/proto/controller_config.go
+++ b/controller/configset/proto/controller_config.go
@@ -3,6 +3,7 @@ package configset_proto
 import (
 	"context"
 	"encoding/base64"
+	stdjson "encoding/json"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/config"
@@ -45,9 +46,8 @@ func (c *ControllerConfig) Validate() error {
 		// json if first character is {
 		if conf[0] == 123 {
 			// validate json
-			it := jsoniter.ParseBytes(conf)
-			if err := it.Error; err != nil {
-				return err
+			if !stdjson.Valid(conf) {
+				return ErrControllerConfigInvalidJSON
 			}
 		}
 	}
@@ -116,9 +116,8 @@ func (c *ControllerConfig) MarshalProtoJSON(s *json.MarshalState) {
 		// Detect if config is JSON
 		if c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
 			// Ensure json is parseable
-			it := jsoniter.ParseBytes(c.Config)
-			if err := it.Error; err != nil {
-				s.SetError(errors.Wrap(err, "unable to parse config json"))
+			if !stdjson.Valid(c.Config) {
+				s.SetError(errors.Wrap(ErrControllerConfigInvalidJSON, "unable to parse config json"))
 				return
 			}
 			_, err := s.Write(c.Config)
diff --git a/controller/configset/proto/errors.go b/controller/configset/proto/errors.go
index 3872fe8..e094531 100644
--- a/controller/configset/proto/errors.go
+++ b/controller/configset/proto/errors.go
@@ -4,3 +4,6 @@ import "errors"
 
 // ErrControllerConfigIdEmpty is returned if the controller config id was empty.
 var ErrControllerConfigIdEmpty = errors.New("controller config id empty")
+
+// ErrControllerConfigInvalidJSON is returned if the json controller config was invalid.
+var ErrControllerConfigInvalidJSON = errors.New("controller config json invalid")
-- 
2.43.0


From 7ed5da356993e76d028c049565a5102cdae6f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 35/48] fix: fields following one with an empty name were
 ignored

---
 controller/configset/proto/controller_config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/configset/proto/controller_config.go b/controller/configset/proto/controller_config.go
index 6731dac..b851072 100644
--- a/controller/configset/proto/controller_config.go
+++ b/controller/configset/proto/controller_config.go
@@ -144,7 +144,7 @@ func (c *ControllerConfig) UnmarshalJSON(b []byte) error {
 }
 
 func (c *ControllerConfig) UnmarshalProtoJSON(s *json.UnmarshalState) {
-	for key := s.ReadObjectField(); key != ""; key = s.ReadObjectField() {
+	s.ReadObject(func(key string) {
 		switch key {
 		case "id":
 			c.Id = s.ReadString()
@@ -173,7 +173,7 @@ func (c *ControllerConfig) UnmarshalProtoJSON(s *json.UnmarshalState) {
 		default:
 			s.Skip()
 		}
-	}
+	})
 }
 
 // _ is a type assertion
-- 
2.43.0


From ba857dca5bf42c090fa06d25e36109c73203b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 36/48] fix: an empty entry of a json config set crashed or was
 added as nil

---
 controller/configset/json/configset.go | 5 +++++
 controller/configset/json/yaml.go      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/controller/configset/json/configset.go b/controller/configset/json/configset.go
index 02e0dd9..2b50181 100644
--- a/controller/configset/json/configset.go
+++ b/controller/configset/json/configset.go
@@ -31,6 +31,11 @@ func (c ConfigSet) Resolve(ctx context.Context, b bus.Bus) (configset.ConfigSet,
 
 	m := make(configset.ConfigSet)
 	for k, v := range c {
+		// nothing is configured for the key
+		if v == nil {
+			continue
+		}
+
 		cc, err := v.Resolve(ctx, b)
 		if err != nil {
 			return nil, err
diff --git a/controller/configset/json/yaml.go b/controller/configset/json/yaml.go
index 8b11775..3461618 100644
--- a/controller/configset/json/yaml.go
+++ b/controller/configset/json/yaml.go
@@ -37,6 +37,10 @@ func UnmarshalYAML(
 
 	var added []string
 	for id, cconf := range cs {
+		// nothing is configured for the key
+		if cconf == nil {
+			continue
+		}
 		_, exists := ocs[id]
 		if exists && !overwriteExisting {
 			continue
-- 
2.43.0


From 0662cd11bf7f49302c138eb40a21e42a1406e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 37/48] fix: resolving a json configuration again replaced it
 with the default

---
 controller/configset/json/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller/configset/json/config.go b/controller/configset/json/config.go
index 48855e4..b34a931 100644
--- a/controller/configset/json/config.go
+++ b/controller/configset/json/config.go
@@ -32,6 +32,10 @@ func (c *Config) Resolve(ctx context.Context, configID string, b bus.Bus) error
 	if c == nil {
 		return errors.New("cannot resolve nil config")
 	}
+	// already resolved
+	if c.underlying != nil && c.pendingParseData == "" {
+		return nil
+	}
 
 	configCtorDir := resolver.NewLoadConfigConstructorByID(configID)
 	configCtorVal, _, configCtorRef, err := bus.ExecOneOff(ctx, b, configCtorDir, nil, nil)
-- 
2.43.0


From c97786dbbf2c12581b59ca81ae463521fc49c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:57 +0000
Subject: [PATCH 38/48] fix: a json configuration without a config object could
 not be resolved

---
 controller/configset/json/config.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/controller/configset/json/config.go b/controller/configset/json/config.go
index b34a931..e853d57 100644
--- a/controller/configset/json/config.go
+++ b/controller/configset/json/config.go
@@ -52,10 +52,13 @@ func (c *Config) Resolve(ctx context.Context, configID string, b bus.Bus) error
 	if c.underlying == nil {
 		return errors.New("load config constructor returned nil object")
 	}
-	if err := c.underlying.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
-		return err
+	// without any data the configuration has the default values
+	if c.pendingParseData != "" {
+		if err := c.underlying.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
+			return err
+		}
+		c.pendingParseData = ""
 	}
-	c.pendingParseData = ""
 	return nil
 }
 
-- 
2.43.0


From 04e708b39137655a88faef2c0a4c040a901a4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:18 +0000
Subject: [PATCH 39/48] fix: the context of a shared library plugin was not
 canceled on unload

---
 plugin/loader/shared-library/shared-library.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugin/loader/shared-library/shared-library.go b/plugin/loader/shared-library/shared-library.go
index 8b01eb6..b6ec791 100644
--- a/plugin/loader/shared-library/shared-library.go
+++ b/plugin/loader/shared-library/shared-library.go
@@ -70,11 +70,13 @@ func LoadPluginSharedLibrary(
 	if loadedPlugin == nil {
 		return nil, errors.New("could not load hot plugin, nil plugin global")
 	}
-	pluginResolver, err := loadedPlugin.NewPluginResolver(ctx, bus)
+	// the context of the plugin is canceled when it is unloaded
+	subCtx, subCtxCancel := context.WithCancel(ctx)
+	pluginResolver, err := loadedPlugin.NewPluginResolver(subCtx, bus)
 	if err != nil {
+		subCtxCancel()
 		return nil, err
 	}
-	subCtx, subCtxCancel := context.WithCancel(ctx)
 	go func() {
 		resolverController := resolver.NewController(le, bus, pluginResolver)
 		err := bus.ExecuteController(
-- 
2.43.0


From e4b0f1f8774ede31c18d8349c0d2fd53240048c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:51 +0000
Subject: [PATCH 40/48] fix: cleaning up the old versions of a plugin deleted
 other files

---
 plugin/compiler/watcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9173ced..9971087 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -257,11 +257,11 @@ func CleanupOldVersions(le *logrus.Entry, pluginOutputPath string) error {
 	}
 	filenameRe, err := regexp.Compile(strings.Join([]string{
 		// match part 0
-		"(", regexp.QuoteMeta(pts[0]), ")",
+		"^(", regexp.QuoteMeta(pts[0]), ")",
 		// match build id
 		"([a-zA-Z0-9]*)",
 		// match part 1
-		"(", regexp.QuoteMeta(pts[1]), ")",
+		"(", regexp.QuoteMeta(pts[1]), ")$",
 	}, ""))
 	if err != nil {
 		return err
-- 
2.43.0


From dffac72b5533a1e9cbc137c9db8b48d98aff833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:12 +0000
Subject: [PATCH 41/48] fix: replacements with .. or a hidden directory were
 not relocated properly

---
 plugin/compiler/module-utils.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plugin/compiler/module-utils.go b/plugin/compiler/module-utils.go
index ad97190..ce2a94a 100644
--- a/plugin/compiler/module-utils.go
+++ b/plugin/compiler/module-utils.go
@@ -45,8 +45,8 @@ func relocateGoModFile(
 	var adjOps [](func() error)
 	for _, srcReplace := range modf.Replace {
 		newPath := srcReplace.New.Path
-		// if the path replacement has a ./ or ../ prefix, update the relative path
-		if strings.HasPrefix(newPath, "./") || strings.HasPrefix(newPath, "../") {
+		// if the path replacement is a relative path, update the relative path
+		if newPath == "." || newPath == ".." || strings.HasPrefix(newPath, "./") || strings.HasPrefix(newPath, "../") {
 			// join the absolute path to the module with the relative replacement
 			// prevNewPathAbs is the absolute path to the replacement module.
 			prevNewPathAbs := filepath.Join(modPathAbs, newPath)
@@ -84,9 +84,9 @@ func relocateGoModFile(
 
 // ensureStartsWithDotSlash returns the string with a ./ or ../ prefix
 func ensureStartsWithDotSlash(p string) string {
-	// ensure starts with ./ or ../ - check simply for '.'
-	if !strings.HasPrefix(p, dotSlash[:1]) {
-		p = dotSlash + p
+	// note: names of directories may start with '.'
+	if p == "." || p == ".." || strings.HasPrefix(p, dotSlash) || strings.HasPrefix(p, "."+dotSlash) {
+		return p
 	}
-	return p
+	return dotSlash + p
 }
-- 
2.43.0


From b9a97761e206e92ff4253aa7b1d44d97356d247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:07 +0000
Subject: [PATCH 42/48] fix: the code of a plugin depended on the map order and
 on unique package names

---
 plugin/compiler/analysis.go |  3 ++-
 plugin/compiler/codegen.go  | 44 +++++++++++++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 323dc69..2ac6612 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -25,6 +25,7 @@ type Analysis struct {
 	// keyed by import path
 	imports map[string]*types.Package
 	// controllerFactories contains the set of packages containing controllers
+	// keyed by import path
 	controllerFactories map[string]*packages.Package
 	// module contains all factory modules
 	module map[string]*packages.Module
@@ -113,7 +114,7 @@ func AnalyzePackages(
 		factoryPkgImportPath := pkg.Types.Path()
 		if factoryCtorObj != nil {
 			le.Debugf("found factory ctor func: %s", factoryCtorObj.Type().String())
-			res.controllerFactories[BuildPackageName(pkg.Types)] = pkg
+			res.controllerFactories[factoryPkgImportPath] = pkg
 			if _, ok := res.imports[factoryPkgImportPath]; !ok {
 				le.
 					WithField("import-path", factoryPkgImportPath).
diff --git a/plugin/compiler/codegen.go b/plugin/compiler/codegen.go
index c7e7408..6b6c923 100644
--- a/plugin/compiler/codegen.go
+++ b/plugin/compiler/codegen.go
@@ -44,12 +44,44 @@ func FormatFile(gf *gast.File) ([]byte, error) {
 	return outDat.Bytes(), nil
 }
 
-// BuildPackageName builds the unique name for the package.
+// BuildPackageName builds the name for the package.
+//
+// Several packages may have the same name: see buildImportNames.
 func BuildPackageName(pkg *types.Package) string {
 	// for now just use package name
 	return pkg.Name()
 }
 
+// buildImportNames builds a unique name for each of the imported packages.
+func buildImportNames(importStrs []string, imports map[string]*types.Package) map[string]string {
+	// b is the parameter of BinaryFactories
+	used := map[string]struct{}{"b": {}}
+	names := make(map[string]string, len(importStrs))
+	for _, impPath := range importStrs {
+		// imported without a name
+		if imports[impPath] == nil {
+			names[impPath] = path.Base(impPath)
+			used[names[impPath]] = struct{}{}
+		}
+	}
+	for _, impPath := range importStrs {
+		if imports[impPath] == nil {
+			continue
+		}
+		baseName := BuildPackageName(imports[impPath])
+		name := baseName
+		for i := 2; ; i++ {
+			if _, ok := used[name]; !ok {
+				break
+			}
+			name = fmt.Sprintf("%s_%d", baseName, i)
+		}
+		names[impPath] = name
+		used[name] = struct{}{}
+	}
+	return names
+}
+
 // CodegenPluginWrapperFromAnalysis codegens a plugin wrapper from analysis.
 func CodegenPluginWrapperFromAnalysis(
 	le *logrus.Entry,
@@ -62,12 +94,13 @@ func CodegenPluginWrapperFromAnalysis(
 		importStrs = append(importStrs, impPkg)
 	}
 	sort.Strings(importStrs)
+	importNames := buildImportNames(importStrs, a.imports)
 	for _, impPath := range importStrs {
 		impPkg := a.imports[impPath]
 		// impPkg may be nil
 		var impIdent *gast.Ident
 		if impPkg != nil {
-			impIdent = gast.NewIdent(BuildPackageName(impPkg))
+			impIdent = gast.NewIdent(importNames[impPath])
 		}
 		allDecls = append(allDecls, &gast.GenDecl{
 			Tok: token.IMPORT,
@@ -117,14 +150,17 @@ func CodegenPluginWrapperFromAnalysis(
 
 	// Construct the elements of the slice to return from BinaryFactories.
 	var buildControllersElts []gast.Expr
-	for fpkg := range a.controllerFactories {
+	for _, impPath := range importStrs {
+		if _, ok := a.controllerFactories[impPath]; !ok {
+			continue
+		}
 		buildControllersElts = append(buildControllersElts, &gast.CallExpr{
 			Args: []gast.Expr{
 				gast.NewIdent("b"),
 			},
 			Fun: &gast.SelectorExpr{
 				Sel: gast.NewIdent("NewFactory"),
-				X:   gast.NewIdent(fpkg),
+				X:   gast.NewIdent(importNames[impPath]),
 			},
 		})
 	}
-- 
2.43.0


From c77681410c36b05bc45d0dfdaeb652d169fc1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:37 +0000
Subject: [PATCH 43/48] fix: the prefix filter of the program code files was a
 suffix filter

---
 plugin/compiler/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 2ac6612..e3c5a8e 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -167,7 +167,7 @@ func (a *Analysis) GetProgramCodeFiles(
 		for i := range pak.Syntax {
 			pakImportPath := pak.PkgPath
 			if importPathPrefixFilter != "" &&
-				!strings.HasSuffix(pakImportPath, importPathPrefixFilter) {
+				!strings.HasPrefix(pakImportPath, importPathPrefixFilter) {
 				continue
 			}
 			if len(exactMatchFilter) != 0 {
-- 
2.43.0


From d848433b9aa619a44e4c4ab49d379a8759b88131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:37 +0000
Subject: [PATCH 44/48] fix: generating the modules of a package without a
 module panicked

---
 plugin/compiler/module-compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 11a3277..e40e0af 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -324,6 +324,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				errs,
 			)
 		}
+		if factoryPkg.Module == nil {
+			return errors.Errorf("package %s has no module", factoryPkg.PkgPath)
+		}
 		factoryPkgModPath := factoryPkg.Module.Path
 		factoryPkgCodegenPath, ok := moduleCodegenPaths[factoryPkgModPath]
 		if !ok {
-- 
2.43.0


From 0fdee0a048a175d5e7b885a114480e377f3fa0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:48 +0000
Subject: [PATCH 45/48] fix: generating the modules of nested modules depended
 on the map order

---
 plugin/compiler/module-compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index e40e0af..68bd8d2 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -10,9 +10,11 @@ import (
 	"go/parser"
 	"go/printer"
 	"go/token"
+	"maps"
 	"os"
 	"path"
 	"path/filepath"
+	"slices"
 
 	"github.com/aperturerobotics/util/exec"
 	"github.com/mr-tron/base58/base58"
@@ -119,7 +121,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	moduleCodegenPaths := make(map[string]string)
 	loadedModules := analysis.GetImportedModules()
-	for _, mod := range loadedModules {
+	// sorted: a directory is cleared before the modules within it are created
+	for _, modPath := range slices.Sorted(maps.Keys(loadedModules)) {
+		mod := loadedModules[modPath]
 		srcMod := mod
 		for mod.Replace != nil {
 			m.le.
-- 
2.43.0


From f42aa70e846cbed4a178cac6a2a64090fe4ed616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:10 +0000
Subject: [PATCH 46/48] fix: modules next to the module cache were taken for
 cached ones

---
 plugin/compiler/util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugin/compiler/util.go b/plugin/compiler/util.go
index 86c941b..b19b5b5 100644
--- a/plugin/compiler/util.go
+++ b/plugin/compiler/util.go
@@ -28,9 +28,8 @@ func copyFileFromTo(src, dest string) error {
 	return err
 }
 
-// filepathHasPrefix checks if a file path has a prefix.
-//
-//nolint:staticcheck // filepath.HasPrefix is deprecated but OK in this use case
+// filepathHasPrefix checks if a file path is equal to or within another path.
 func filepathHasPrefix(p1, p2 string) bool {
-	return filepath.HasPrefix(p1, p2)
+	rel, err := filepath.Rel(p2, p1)
+	return err == nil && filepath.IsLocal(rel)
 }
-- 
2.43.0


From c42fa6f3e73dccd1e0b47650e46e8f80eeeccf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:06 +0000
Subject: [PATCH 47/48] fix: the files of packages with relative paths were not
 watched

---
 go.sum                     | 4 ++++
 plugin/compiler/watcher.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/go.sum b/go.sum
index 83d40f7..85e287e 100644
--- a/go.sum
+++ b/go.sum
@@ -25,8 +25,10 @@ github.com/ghodss/yaml v1.0.0 h1:wQHKEahhL6wmXdzwWG11gIVCkOv05bNOh+Rxn0yngAk=
 github.com/ghodss/yaml v1.0.0/go.mod h1:4dBDuWmgqj2HViK6kFavaiC9ZROes6MMH2rRYeMEF04=
 github.com/go-quicktest/qt v1.101.0 h1:O1K29Txy5P2OK0dGo59b7b0LR6wKfIhttaAhHUyn7eI=
 github.com/go-quicktest/qt v1.101.0/go.mod h1:14Bz/f7NwaXPtdYEgzsx46kqSxVwTbzVZsDC26tQJow=
+github.com/gogo/protobuf v1.3.2/go.mod h1:P1XiOD3dCwIKUDQYPy72D8LYyHL2YPYrpS2s69NZV8Q=
 github.com/google/go-cmp v0.7.0 h1:wk8382ETsv4JYUZwIsn6YpYiWiBsYLSJiTsyBybVuN8=
 github.com/google/go-cmp v0.7.0/go.mod h1:pXiqmnSA92OHEEa9HXL2W4E7lf9JzCmGVUdgjX3N/iU=
+github.com/google/uuid v1.6.0/go.mod h1:TIyPZe4MgqvfeYDBFedMoGGpEw/LqOeaOT+nhxU+yHo=
 github.com/ipfs/go-cid v0.4.1 h1:A/T3qGvxi4kpKWWcPC/PgbvDA2bjVLO7n4UeVwnbs/s=
 github.com/ipfs/go-cid v0.4.1/go.mod h1:uQHwDeX4c6CtyrFwdqyhpNcxVewur1M7l7fNU7LKwZk=
 github.com/klauspost/cpuid/v2 v2.2.8 h1:+StwCXwm9PdpiEkPyzBXIy+M9KUb4ODm0Zarf1kS5BM=
@@ -81,12 +83,14 @@ github.com/stretchr/testify v1.10.0 h1:Xv5erBjTwe/5IxqUQTdXv5kgmIvbHo3QQyRwhJsOf
 github.com/stretchr/testify v1.10.0/go.mod h1:r2ic/lqez/lEtzL7wO/rwa5dbSLXVDPFyf8C91i36aY=
 github.com/xrash/smetrics v0.0.0-20240521201337-686a1a2994c1 h1:gEOO8jv9F4OT7lGCjxCBTO/36wtF6j2nSip77qHd4x4=
 github.com/xrash/smetrics v0.0.0-20240521201337-686a1a2994c1/go.mod h1:Ohn+xnUBiLI6FVj/9LpzZWtj1/D6lUovWYBkxHVV3aM=
+github.com/yuin/goldmark v1.4.13/go.mod h1:6yULJ656Px+3vBD8DxQVa3kxgyrAnzto9xy5taEt/CY=
 github.com/zeebo/assert v1.1.0 h1:hU1L1vLTHsnO8x8c9KAR5GmM5QscxHg5RNU5z5qbUWY=
 github.com/zeebo/assert v1.1.0/go.mod h1:Pq9JiuJQpG8JLJdtkwrJESF0Foym2/D9XMU5ciN/wJ0=
 github.com/zeebo/blake3 v0.2.4 h1:KYQPkhpRtcqh0ssGYcKLG1JYvddkEA8QwCM/yBqhaZI=
 github.com/zeebo/blake3 v0.2.4/go.mod h1:7eeQ6d2iXWRGF6npfaxl2CU+xy2Fjo2gxeyZGCRUjcE=
 github.com/zeebo/pcg v1.0.1 h1:lyqfGeWiv4ahac6ttHs+I5hwtH/+1mrhlCtVNQM2kHo=
 github.com/zeebo/pcg v1.0.1/go.mod h1:09F0S9iiKrwn9rlI5yjLkmrug154/YRW6KnnXVDM/l4=
+go.uber.org/goleak v1.3.0/go.mod h1:CoHD4mav9JJNrW/WLlf7HGZPjdw8EucARQHekz1X6bE=
 golang.org/x/crypto v0.35.0 h1:b15kiHdrGCHrP6LvwaQ3c03kgNhhiMgvlhxHQhmg2Xs=
 golang.org/x/crypto v0.35.0/go.mod h1:dy7dXNW32cAb/6/PRuTNsix8T+vJAqvuIy5Bli/x0YQ=
 golang.org/x/exp v0.0.0-20250408133849-7e4ce0ab07d0 h1:R84qjqJb5nVJMxqWYb3np9L5ZsaDtB+a39EqjV0JSUM=
diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9971087..9be793a 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -161,7 +161,8 @@ func (w *Watcher) WatchCompilePlugin(
 
 		// build file watchlist
 		watchedFiles := make(map[string]struct{})
-		codefileMap := an.GetProgramCodeFiles(w.packagePaths, "")
+		// note: the package paths may be patterns or relative paths
+		codefileMap := an.GetProgramCodeFiles(nil, "")
 		for _, filePaths := range codefileMap {
 		FilePathLoop:
 			for _, filePath := range filePaths {
-- 
2.43.0


From 0d74b6e2a47ad4d8aa4745f655da4bce5da92694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:17 +0000
Subject: [PATCH 48/48] fix: the plugin commands ignored the default build
 prefix and binary id

---
 plugin/cli/compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/cli/compile.go b/plugin/cli/compile.go
index e15a48b..56df22c 100644
--- a/plugin/cli/compile.go
+++ b/plugin/cli/compile.go
@@ -84,7 +84,7 @@ func (a *CompilerArgs) setupCompiler(
 		WithField("plugin-binary-id", pluginBinaryID).
 		WithField("build-prefix", buildPrefix).
 		Infof("creating compiler for plugin with packages: %v", args)
-	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, a.BuildPrefix, codegenDirPath, a.PluginBinaryID)
+	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, buildPrefix, codegenDirPath, pluginBinaryID)
 	if err != nil {
 		return nil, nil, rel, err
 	}
-- 
2.43.0


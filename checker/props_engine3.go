package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var (
	evDispatch  = dynCall("directiveInstance.refCbs[*]")
	litCurrent  = lit("resolver.ctx==resolverHandler.ctx")
	litStale    = lit("!resolver.ctx==resolverHandler.ctx")
	evResolve   = calls("Resolver.Resolve")
	evHandle    = calls("Handler.HandleDirective")
	litHndLive  = lit("!load(handler.rel)", "!swap(handler.rel,true)")
	litHndGone  = lit("load(handler.rel)", "swap(handler.rel,true)")
	evRootLock  = inRoot(evEngineLock)
	evAnyLocked = anyOf(evEngineLock, evEngineUnlock)
)

// panicsAt makes the calls matching a predicate a place where a panic may start.
func panicsAt(names ...string) func(c *Ctx, in ssa.Instruction) bool {
	return func(c *Ctx, in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		return ok && c.W.P.calleeIs(&call.Call, names)
	}
}

func orPanics(fs ...func(c *Ctx, in ssa.Instruction) bool) func(c *Ctx, in ssa.Instruction) bool {
	return func(c *Ctx, in ssa.Instruction) bool {
		for _, f := range fs {
			if f(c, in) {
				return true
			}
		}
		return false
	}
}

func panicsDyn(pats ...string) func(c *Ctx, in ssa.Instruction) bool {
	p := dynCall(pats...)
	return func(c *Ctx, in ssa.Instruction) bool {
		return p(c, &Event{Kind: KInstr, Instr: in})
	}
}

func checkE07(ck *Check) {
	p := ck.P
	queue := []string{"directiveInstance.refCbs"}
	evQueue := listStore("directiveInstance.refCbs", "append", "prepend", "other")
	calling := storeTo("directiveInstance.callingRefCbs", "true")
	idleNow := storeTo("directiveInstance.callingRefCbs", "false")
	litCalling := lit("directiveInstance.callingRefCbs")
	drained := anyOf(done(queue...), empty(queue...))
	boom := orPanics(panicsAt("Handler.HandleDirective"), panicsDyn("directiveInstance.refCbs[*]"))
	ck.Do("unlocked", "user code is only called while the engine's lock is not held", func(o *Obl) {
		o.Lockset(LockRule{Pkg: dcPkg, Lock: evEngineLock, Unlock: evEngineUnlock, Free: engineCallback, WhatF: "user code is called while the engine's lock is held", NoExit: true})
	})
	ck.Do("queued", "notifications of references and idle callbacks are only made from the queue of the instance", func(o *Obl) {
		note := anyOf(calls("ReferenceHandler.*"), func(c *Ctx, ev *Event) bool {
			cc := execCall(ev)
			return cc != nil && !cc.IsInvoke() && cc.StaticCallee() == nil && typeName(cc.Value.Type()) == "IdleCallback"
		})
		es := ck.entriesReaching(dcPkg, note)
		for _, e := range es {
			o.SiteName("notification in " + fnName(e.Fn))
			if e.Kind != "closure" {
				o.Fail("direct|"+fnName(e.Fn), e.Fn.Pos(), nil, "%s notifies directly, not through the queue of the instance", fnName(e.Fn))
			}
		}
		if len(es) < 3 {
			o.Fail("none", 0, nil, "expected at least three kinds of notifications, found %d", len(es))
		}
	})
	ck.Do("order", "the queue only grows at its end and is handed out whole", func(o *Obl) {
		o.NeverIn(dcPkg, listStore("directiveInstance.refCbs", "prepend", "other"), "the notification queue is reordered")
		o.ForEach(ForEachRule{At: dcPkg, After: listStore("directiveInstance.refCbs", "clear", "delete"), Coll: queue, Must: evDispatch, Skip: done(queue...), Reach: true, MayPanic: boom, What: "a queued notification is not delivered"})
		o.Guard(GuardRule{At: dcPkg, Effect: listStore("directiveInstance.refCbs", "clear"), Needs: []Pred{anyOf(calling, evDispatch, drained)}, What: "queued notifications are dropped"})
		o.Guard(GuardRule{At: dcPkg, Effect: evDispatch, Needs: []Pred{listStore("directiveInstance.refCbs", "clear", "delete")}, Reset: evEngineLock, What: "a delivered notification stays in the queue"})
	})
	ck.Do("one-at-a-time", "only one goroutine delivers the notifications of an instance at a time", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: calling, Needs: []Pred{lit("!directiveInstance.callingRefCbs")}, Reset: evEngineUnlock, What: "delivery starts although it may already be going on"})
		o.Guard(GuardRule{At: dcPkg, Effect: evDispatch, Needs: []Pred{calling}, Reset: idleNow, What: "notifications are delivered without marking the delivery as going on"})
		o.NeverIn(dcPkg, func(c *Ctx, ev *Event) bool {
			g, ok := ev.Instr.(*ssa.Go)
			return ok && ev.Kind == KInstr && !g.Call.IsInvoke() && glob("directiveInstance.refCbs[*]", c.StrV(g.Call.Value))
		}, "a notification is delivered on a goroutine of its own")
	})
	ck.Do("delivered", "a queued notification is delivered by its goroutine or by the one already delivering", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: evQueue, Via: anyOf(litCalling, drained), MayPanic: boom, AtPanic: true, What: "a queued notification is left in the queue"})
		o.Guard(GuardRule{At: dcPkg, Effect: idleNow, Needs: []Pred{drained}, Reset: anyOf(evAnyLocked, evQueue), What: "delivery ends while notifications may be queued"})
		o.Path(PathRule{At: dcPkg, From: calling, Via: idleNow, MayPanic: boom, AtPanic: true, What: "the mark that notifications are being delivered is never taken back, later ones would stay queued"})
	})
	ck.Do("contained", "a panic in a handler or notification does not leave the engine", func(o *Obl) {
		for _, ev := range []Pred{evHandle, evDispatch} {
			o.Path(PathRule{At: dcPkg, From: ev, Via: isExit, MayPanic: boom, AtPanic: true, What: "a panic of user code is not contained"})
		}
	})
	_ = p
}

func checkE09(ck *Check) {
	p := ck.P
	m := func(n string) *ssa.Function { return p.Method(dcPkg, "resolverHandler", n) }
	addV, remV, mark, clr := m("AddValue"), m("RemoveValue"), m("MarkIdle"), m("ClearValues")
	addVR, addRR, addR := m("AddValueRemovedCallback"), m("AddResolverRemovedCallback"), m("AddResolver")
	current := []Pred{litCurrent}
	eff := anyOf(evValAdded, evValGone, evResAdded, evResRemoved, storeTo("resolver.idle"), storeTo("resolver.exited"), storeTo("resolver.err"), storeTo("resolver.stopped"),
		listStore("value.removeCallbacks", "append", "prepend", "other"), allOf(listStore("resolver.rels", "append", "prepend", "other"), notP(func(c *Ctx, ev *Event) bool { return baseOf(c, ev) == "new resolver" })), goCall(), dynCall("resolver.ctxCancel"))
	ck.Do("no-effect", "a handle changes the directive only after checking, under the lock, that its execution is the current one", func(o *Obl) {
		for _, r := range []*ssa.Function{addV, remV, mark, clr, addVR, addRR, addR} {
			o.Guard(GuardRule{Root: r, Effect: allOf(eff, notP(func(c *Ctx, ev *Event) bool { return baseOf(c, ev) == "new resolver" })), Needs: current, Reset: evRootLock, What: "a handle of an earlier execution changes the directive"})
		}
	})
	ck.Do("reported", "a stale handle reports that nothing was added, removed or cleared", func(o *Obl) {
		ok := func(i int, zero ...string) Pred {
			return exitWith(func(c *Ctx, r []Val) bool { return i < len(r) && !globAny(zero, c.Str(r[i])) })
		}
		o.Guard(GuardRule{Root: addV, Effect: ok(1, "false"), Needs: current, What: "AddValue reports success for a stale handle"})
		o.Guard(GuardRule{Root: remV, Effect: ok(1, "false"), Needs: current, What: "RemoveValue reports success for a stale handle"})
		o.Guard(GuardRule{Root: clr, Effect: ok(0, "nil"), Needs: current, What: "ClearValues reports removed values for a stale handle"})
	})
	called := dynCall("<func()>")
	nilCb := lit("<func()>==nil")
	ck.Do("told", "a removal callback or child resolver offered through a stale handle is reported removed at once", func(o *Obl) {
		for _, r := range []*ssa.Function{addVR, addRR, addR} {
			o.Path(PathRule{Root: r, From: litStale, Via: called, Skip: nilCb, What: "the removal callback is dropped silently"})
		}
		o.Path(PathRule{Root: addR, From: lit("<Resolver>==nil"), Via: called, Skip: nilCb, What: "the removal callback of a missing child is dropped silently"})
		for _, r := range []*ssa.Function{addVR, addRR, addR} {
			o.Never(r, exitWith(func(c *Ctx, r []Val) bool { return len(r) != 1 || c.Str(r[0]) == "nil" }), "no release function is returned")
		}
	})
	ck.Do("distinct", "every execution has a context of its own, which its handle carries and which is replaced when it is stopped", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: dynCall("resolver.ctxCancel"), Via: storeTo("resolver.ctx"), Until: untilUnlock, What: "the context of a stopped execution stays the current one"})
		o.NeverIn(dcPkg, allOf(storeTo("resolver.ctx"), notP(storeTo("resolver.ctx", "nil", "context.With*"))), "the current context is not a fresh one")
		o.NeverIn(dcPkg, allOf(storeTo("resolverHandler.ctx"), notP(storeTo("resolverHandler.ctx", "resolver.ctx", "context.With*#0"))), "the handle does not carry the context of its execution")
		o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{storeTo("resolver.ctx", "context.With*"), storeTo("resolverHandler.ctx")}, Reset: evEngineUnlock, What: "an execution is started with the context of an earlier one"})
		o.Path(PathRule{At: dcPkg, From: storeTo("resolver.ctx", "context.With*"), Via: goCall(), Until: untilUnlock, What: "the current context is replaced without starting an execution"})
	})
}

func checkE10(ck *Check) {
	p := ck.P
	prev := anyOf(recvFrom("resolver.exitedCh"), lit("resolver.exitedCh==nil"))
	ck.Do("waits", "an execution starts, and reports that it ended, only after the previous one ended", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: evResolve, Needs: []Pred{prev}, What: "a resolver is executed although its previous execution may be running"})
		o.Guard(GuardRule{At: dcPkg, Effect: calls("close"), Needs: []Pred{prev}, What: "an execution reports its end although the previous one may be running"})
		o.Path(PathRule{At: dcPkg, From: evResolve, Via: calls("close"), What: "the end of an execution is not reported, the next one would wait forever"})
		o.Path(PathRule{At: dcPkg, From: storeTo("resolver.exitedCh"), Forbid: loads("resolver.exitedCh"), Via: goCall(), Until: untilUnlock, What: "an execution waits for itself, or is never started"})
		o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{storeTo("resolver.exitedCh", "makechan*")}, Reset: evEngineUnlock, What: "an execution is started without a way to tell when it ended"})
		o.NeverIn(dcPkg, allOf(storeTo("resolver.exitedCh"), notP(storeTo("resolver.exitedCh", "makechan*"))), "the end of the current execution is forgotten")
	})
	for _, e := range ck.entriesReaching(dcPkg, evResolve) {
		e := e
		ck.Do("ends-"+e.Fn.Name(), "the goroutine of an execution always reports its end", func(o *Obl) {
			o.Path(PathRule{Root: e.Fn, Go: e.Go, Via: calls("close"), What: "the goroutine returns without reporting the end of the execution"})
			o.Never(e.Fn, allOf(evResolve, notP(callArgs("Resolver.Resolve", "*", "resolverHandler.ctx")), notP(callArgs("Resolver.Resolve", "*", "<Context>")), notP(callArgs("Resolver.Resolve", "*", "resolver.ctx"))), "the execution does not get its own context")
			if e.Kind != "go" {
				o.Fail("go", e.Fn.Pos(), nil, "%s executes a resolver outside a goroutine of its own", fnName(e.Fn))
			}
		})
	}
	ck.Do("running", "a running resolver is not started again", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{anyOf(lit("resolver.ctx==nil"), lit("resolver.exited"), recvFrom("Context.Done(resolver.ctx)"), lit("!Context.Err(resolver.ctx)==nil"))}, Reset: evEngineUnlock, What: "a resolver is started although it is running"})
		o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{evStopResolver}, Reset: evEngineUnlock, What: "a resolver is started again without canceling its previous execution"})
	})
	ck.Do("context", "the context of an execution is derived from that of the directive", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: allOf(storeTo("resolver.ctx", "context.With*"), notP(storeTo("resolver.ctx", "context.With*(directiveInstance.ctx*)#0", "context.With*(&directiveInstance.ctx*)#0", "context.With*(~*)#0"))), Needs: []Pred{func(*Ctx, *Event) bool { return false }}, Optional: true, What: "the context of an execution is not canceled with the directive"})
		o.Path(PathRule{At: dcPkg, From: storeTo("resolver.ctx", "context.With*"), Via: storeTo("resolver.ctxCancel", "context.With*#1"), Until: untilUnlock, What: "the execution cannot be canceled"})
		o.NeverIn(dcPkg, allOf(storeTo("directiveInstance.ctx"), notP(storeTo("directiveInstance.ctx", "context.With*(Controller.ctx*)#0", "<Context>"))), "the context of a directive is not derived from that of the engine")
	})
	ck.Do("outcome", "the outcome of the current execution, and only of that, is recorded", func(o *Obl) {
		res := allOf(storeTo("resolver.err"), notP(storeTo("resolver.err", "nil")))
		o.Guard(GuardRule{At: dcPkg, Effect: res, Needs: []Pred{evResolve}, What: "an outcome is recorded before the execution returned"})
		o.Guard(GuardRule{At: dcPkg, Effect: res, Needs: []Pred{litCurrent}, Reset: evRootLock, What: "the outcome of an execution that is not the current one is recorded"})
		o.Guard(GuardRule{At: dcPkg, Effect: storeTo("resolver.exited", "true"), Needs: []Pred{anyOf(litCurrent, evStopResolver)}, Reset: evRootLock, What: "a resolver is marked exited that neither returned nor was stopped"})
		o.NeverIn(dcPkg, allOf(res, notP(storeTo("resolver.err", "Resolver.Resolve(*"))), "the recorded error is not the one returned")
		for _, via := range []Pred{storeTo("resolver.err", "Resolver.Resolve(*"), storeTo("resolver.exited", "true"), anyOf(storeTo("resolver.idle", "true"), lit("resolver.idle"))} {
			o.Path(PathRule{At: dcPkg, From: evResolve, Via: via, Skip: litStale, What: "the outcome of the current execution is not recorded"})
		}
		reset := func(f Pred, what string) {
			o.Or(func(o *Obl) {
				o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{f}, Reset: evEngineUnlock, What: what})
			}, func(o *Obl) {
				o.Path(PathRule{At: dcPkg, From: goCall(), Via: f, Until: untilUnlock, What: what})
			})
		}
		reset(storeTo("resolver.err", "nil"), "the error of an earlier execution remains when the resolver is started again")
		reset(storeTo("resolver.exited", "false"), "a started resolver is still marked exited")
	})
	_ = p
}

func checkE11(ck *Check) {
	p := ck.P
	e := engine(p)
	hndAdded := listStore("Controller.hnd", "append", "prepend", "other")
	dirAdded := listStore("Controller.dir", "append", "prepend", "other")
	boom := panicsAt("Handler.HandleDirective")
	snap := func(root *ssa.Function, added Pred, coll string, what string) func(o *Obl) {
		return func(o *Obl) {
			o.Or(func(o *Obl) {
				o.Path(PathRule{Root: root, From: added, Via: loads(coll), Until: untilUnlock, What: what})
			}, func(o *Obl) {
				o.Guard(GuardRule{Root: root, Effect: added, Needs: []Pred{loads(coll)}, Reset: evAnyLocked, What: what})
			})
		}
	}
	ck.Do("existing", "a new handler is asked about every running directive", func(o *Obl) {
		o.ForEach(ForEachRule{Root: e.addHandler, Coll: []string{"Controller.dir"}, Must: callArgs("Handler.HandleDirective", "handler.h|<Handler>", "*", "Controller.dir[*]"), Skip: anyOf(litHndGone, litReleased), Reach: true, MayPanic: boom, What: "a running directive is not offered to a new handler"})
		snap(e.addHandler, hndAdded, "Controller.dir", "a directive added concurrently is neither in the list the handler is asked about nor sees the handler")(o)
		o.Path(PathRule{Root: e.addHandler, Via: hndAdded, Until: untilUnlock, What: "a new handler is not registered"})
	})
	ck.Do("new", "a new directive is offered to every registered handler", func(o *Obl) {
		o.ForEach(ForEachRule{Root: e.add, After: dirAdded, Coll: []string{"Controller.hnd"}, Must: callArgs("Handler.HandleDirective", "handler.h", "directiveInstance.ctx", "new directiveInstance"), Skip: anyOf(litHndGone, litReleased), Reach: true, MayPanic: boom, What: "a new directive is not offered to a registered handler"})
		snap(e.add, dirAdded, "Controller.hnd", "a handler added concurrently is neither asked about the directive nor sees it")(o)
		o.Guard(GuardRule{Root: e.add, Effect: evHandle, Needs: []Pred{litHndLive}, Reset: iter("Controller.hnd"), MayPanic: boom, What: "a removed handler is asked about a new directive"})
	})
	resolvers := "Handler.HandleDirective(*)#0"
	collects := func(c *Ctx, ev *Event) bool {
		call, ok := ev.Instr.(*ssa.Call)
		if !ok || ev.Kind != KInstr || len(call.Call.Args) != 2 {
			return false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		sl, ok := call.Type().Underlying().(*types.Slice)
		return ok && typeName(sl.Elem()) == "resolver"
	}
	ck.Do("attached", "every resolver a handler returns is attached, unless the handler or the directive is gone", func(o *Obl) {
		gone := anyOf(litReleased, litHndGone)
		for _, r := range []*ssa.Function{e.add, e.addHandler} {
			o.ForEach(ForEachRule{Root: r, After: evHandle, Coll: []string{resolvers}, Must: storeTo("resolver.res", "Handler.HandleDirective(*)#0[*]"), What: "a resolver returned by a handler is dropped"})
			colls := []string{"append(*", "makeslice*", "~", "nil", "new *"}
			loops := o.ForEach(ForEachRule{Root: r, After: evHandle, Coll: colls, Must: evResAdded, Skip: gone, What: "a resolver returned by a handler is not attached"})
			o.Path(PathRule{Root: r, From: storeTo("resolver.res", "Handler.HandleDirective(*"), Via: anyOf(evResAdded, collects), Until: anyOf(isExit, iter("Controller.dir", "Controller.hnd"), done("Controller.dir", "Controller.hnd")), Skip: empty("makeslice*", "append(*", "~", "new *"), MayPanic: boom, What: "the resolvers returned by a handler are not kept until they are attached"})
			o.Path(PathRule{Root: r, From: storeTo("resolver.res", "Handler.HandleDirective(*"), Via: loopDone(loops, colls...), Skip: litReleased, What: "the resolvers returned by a handler are not attached"})
		}
		o.NeverIn(dcPkg, allOf(storeTo("resolver.hnd"), notP(storeTo("resolver.hnd", "*handler*", "resolver.hnd"))), "a resolver is attached for another handler")
	})
	ck.Do("own", "a resolver is attached to the directive its handler was asked about", func(o *Obl) {
		o.Site(e.addHandler.Blocks[0].Instrs[0])
		o.Never(e.addHandler, func(c *Ctx, ev *Event) bool {
			st, ok := ev.Instr.(*ssa.Store)
			if !ok || ev.Kind != KInstr || typeName(st.Val.Type()) != "directiveInstance" {
				return false
			}
			if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
				return false
			}
			return !glob("Controller.dir[*]", c.StrV(st.Val))
		}, "the resolvers of a handler are attached to another directive than the one it was asked about")
	})
	ck.Do("stable", "the directives and resolvers searched when a handler is removed are those that were there when the search began", func(o *Obl) {
		o.StableLoop(dcPkg, evEngineUnlock, "Controller.dir", "directiveInstance.res")
	})
	ck.Do("late", "a resolver is attached only while its handler is registered and its directive lives", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: evResAdded, Needs: []Pred{litLive, litHndLive}, Reset: evAnyLocked, What: "a resolver is attached although its handler or directive may be gone"})
	})
	removed := listStore("Controller.hnd", "delete")
	for _, r := range p.returnedClosures(e.addHandler) {
		r := r
		if len(r.FreeVars) == 0 {
			continue
		}
		ck.Do("removed", "removing a handler unregisters it and removes its resolvers from all directives", func(o *Obl) {
			o.DeletesOne(dcPkg, "Controller.hnd")
			o.Path(PathRule{Root: r, Via: setFlag("handler.rel"), Skip: lit("swap(handler.rel,true)", "load(handler.rel)"), What: "a removed handler is not marked removed"})
			o.Path(PathRule{Root: r, Via: removed, Skip: anyOf(lit("swap(handler.rel,true)", "load(handler.rel)"), done("Controller.hnd"), empty("Controller.hnd"), lit("!contains(Controller.hnd,*)", "index(Controller.hnd,*)<0")), What: "a removed handler stays registered"})
			o.Guard(GuardRule{Root: r, Effect: removed, Needs: []Pred{lit("*==Controller.hnd[*]", "Controller.hnd[*]==*", "contains(Controller.hnd,*)")}, What: "another handler is unregistered"})
			o.ForEach(ForEachRule{Root: r, Coll: []string{"Controller.hnd"}, Must: lit("*==Controller.hnd[*]", "!*==Controller.hnd[*]", "Controller.hnd[*]==*", "!Controller.hnd[*]==*"), Leave: removed, Optional: true, What: "a registered handler is not compared with the removed one"})
			o.ForEach(ForEachRule{Root: r, After: removed, Coll: []string{"Controller.dir"}, Must: anyOf(done(litRes...), empty(litRes...)), Reach: true, What: "the resolvers of a directive are not searched for those of the removed handler"})
			o.ForEach(ForEachRule{Root: r, After: removed, Coll: litRes, Must: evResRemoved, Skip: anyOf(lit("!resolver.hnd==*", "!*==resolver.hnd"), litResGone), What: "a resolver of the removed handler stays attached"})
			o.Guard(GuardRule{Root: r, Effect: evResRemoved, Needs: []Pred{lit("resolver.hnd==*", "*==resolver.hnd")}, Reset: iter(litRes...), What: "a resolver of another handler is removed"})
		})
	}
	ck.Do("result", "adding a handler succeeds with a function that removes it", func(o *Obl) {
		o.Never(e.addHandler, exitWith(func(c *Ctx, r []Val) bool {
			return len(r) != 2 || (c.Str(r[1]) == "nil") == (c.Str(r[0]) == "nil")
		}), "the result is not either a release function or an error")
	})
}

func checkE12(ck *Check) {
	p := ck.P
	m := func(n string) *ssa.Function { return p.Method(dcPkg, "resolverHandler", n) }
	addVR, addRR, addR := m("AddValueRemovedCallback"), m("AddResolverRemovedCallback"), m("AddResolver")
	called := dynCall("<func()>")
	nilCb := lit("<func()>==nil")
	litVcbFresh := lit("!swap(valueRemoveCallback.released,true)")
	litVcbDead := lit("swap(valueRemoveCallback.released,true)", "load(valueRemoveCallback.released)")
	vals := []string{"resolver.vals", "new [1]*value"}
	ck.Do("value", "every removal callback of a removed value that was not released is called once", func(o *Obl) {
		vcb := []string{"value.removeCallbacks"}
		take := anyOf(adds("valueRemoveCallback.cb"), enqueues(rendered("valueRemoveCallback.cb")))
		o.ForEach(ForEachRule{At: dcPkg, After: evValGone, Coll: vals, Must: anyOf(done(vcb...), empty(vcb...)), Reach: true, What: "the removal callbacks of a removed value are not called"})
		o.ForEach(ForEachRule{At: dcPkg, After: evValGone, Coll: vcb, Must: take, Skip: anyOf(litVcbDead, lit("valueRemoveCallback.cb==nil")), What: "a removal callback of a removed value is not called"})
		o.Guard(GuardRule{At: dcPkg, Effect: take, Needs: []Pred{litVcbFresh}, Reset: iter(vcb...), What: "a removal callback is called without marking it called, or after its release"})
		o.Path(PathRule{At: dcPkg, From: adds("valueRemoveCallback.cb"), Via: enqueues(rendered("valueRemoveCallback.cb")), Optional: true, What: "the removal callback is collected but not queued"})
		o.Guard(GuardRule{At: dcPkg, Effect: storeTo("value.removeCallbacks", "nil"), Needs: []Pred{anyOf(done(vcb...), empty(vcb...))}, Optional: true, What: "removal callbacks are dropped before they were visited"})
	})
	ck.Do("resolver", "every removal callback of a removed resolver that was not released is called once", func(o *Obl) {
		rcb := []string{"resolver.rels"}
		take := anyOf(adds("callback.cb"), enqueues(rendered("callback.cb")))
		o.ForEach(ForEachRule{At: dcPkg, After: evResRemoved, Coll: rcb, Must: take, Skip: anyOf(litCbDead, lit("callback.cb==nil")), Reach: true, What: "a removal callback of a removed resolver is not called"})
		o.Guard(GuardRule{At: dcPkg, Effect: take, Needs: []Pred{lit("!swap(callback.released,true)")}, Reset: anyOf(iter("resolver.rels"), iter("directiveInstance.rels")), What: "a removal callback is called without marking it called, or after its release"})
		o.Path(PathRule{At: dcPkg, From: adds("callback.cb"), Via: enqueues(rendered("callback.cb")), Optional: true, What: "the removal callback is collected but not queued"})
		o.Guard(GuardRule{At: dcPkg, Effect: storeTo("resolver.rels", "nil"), Needs: []Pred{anyOf(done(rcb...), empty(rcb...))}, Optional: true, What: "removal callbacks are dropped before they were visited"})
	})
	recV := listStore("value.removeCallbacks", "append", "prepend")
	recR := listStore("resolver.rels", "append", "prepend")
	match := lit("<uint32>==value.id", "value.id==<uint32>", "contains(resolver.vals,value.id=<uint32>)")
	ck.Do("registered", "a removal callback is either recorded or, when what it waits for is gone, called at once", func(o *Obl) {
		o.Path(PathRule{Root: addVR, Via: anyOf(recV, called), Skip: nilCb, What: "a removal callback is neither recorded nor called"})
		o.Path(PathRule{Root: addVR, From: recV, Forbid: called, Via: isExit, What: "a recorded removal callback is called at once, too"})
		o.Guard(GuardRule{Root: addVR, Effect: recV, Needs: []Pred{match}, Reset: iter("resolver.vals"), What: "a removal callback is recorded for another value"})
		o.Never(addVR, allOf(storeTo("valueRemoveCallback.cb"), notP(storeTo("valueRemoveCallback.cb", "<func()>"))), "the recorded callback is not the one given")
		o.Path(PathRule{Root: addRR, Via: anyOf(recR, called), Skip: nilCb, What: "a removal callback is neither recorded nor called"})
		o.Path(PathRule{Root: addRR, From: recR, Forbid: called, Via: isExit, What: "a recorded removal callback is called at once, too"})
		o.Guard(GuardRule{Root: addRR, Effect: recR, Needs: []Pred{lit("contains(directiveInstance.res,resolverHandler.r)", "contains(directiveInstance.res,*)", "!index(directiveInstance.res,*)<0", "*==directiveInstance.res[*]", "directiveInstance.res[*]==*")}, Reset: evAnyLocked, What: "a removal callback is recorded for a resolver that may be gone"})
	})
	ck.Do("child", "the removal callback of a child resolver is recorded when the child is attached, and called at once otherwise", func(o *Obl) {
		o.Path(PathRule{Root: addR, Via: anyOf(evResAdded, called), Skip: nilCb, What: "a child resolver is neither attached nor reported removed"})
		o.Path(PathRule{Root: addR, From: evResAdded, Forbid: called, Via: isExit, What: "the removal callback of an attached child is called at once, too"})
		o.Guard(GuardRule{Root: addR, Effect: evResAdded, Needs: []Pred{anyOf(recR, nilCb)}, What: "a child resolver is attached without its removal callback"})
		o.Never(addR, allOf(storeTo("resolver.res"), notP(storeTo("resolver.res", "<Resolver>"))), "the attached child is not the one given")
		o.Never(addR, allOf(storeTo("resolver.hnd"), notP(storeTo("resolver.hnd", "resolver.hnd"))), "the child does not belong to the handler of its parent")
		o.Never(addR, allOf(recR, func(c *Ctx, ev *Event) bool { return baseOf(c, ev) != "new resolver" }), "the removal callback of a child is recorded for another resolver")
	})
	for _, r := range p.returnedClosures(addVR) {
		r := r
		if len(r.FreeVars) == 0 {
			continue
		}
		ck.Do("release-value", "a released removal callback of a value is not called", func(o *Obl) {
			o.DeletesOne(dcPkg, "value.removeCallbacks")
			o.CountsUp(dcPkg, "valueRemoveCallback.id", "value.removeCallbackCtr", "two removal callbacks of a value get the same id")
			o.Path(PathRule{Root: r, Via: setFlag("valueRemoveCallback.released"), Skip: litVcbDead, What: "releasing a removal callback does not mark it released"})
			o.Guard(GuardRule{Root: r, Effect: listStore("value.removeCallbacks", "delete", "clear", "other"), Needs: []Pred{lit("*valueRemoveCallback.id==*", "*==valueRemoveCallback.id*", "*==value.removeCallbacks[*]", "value.removeCallbacks[*]==*", "contains(value.removeCallbacks,*)")}, Optional: true, What: "another removal callback is unregistered"})
		})
	}
	for _, r := range p.returnedClosures(addRR) {
		r := r
		if len(r.FreeVars) == 0 {
			continue
		}
		ck.Do("release-resolver", "a released removal callback of a resolver is not called", func(o *Obl) {
			o.DeletesOne(dcPkg, "resolver.rels")
			o.Path(PathRule{Root: r, Via: setFlag("callback.released"), Skip: litCbDead, What: "releasing a removal callback does not mark it released"})
			o.Guard(GuardRule{Root: r, Effect: listStore("resolver.rels", "delete", "clear", "other"), Needs: []Pred{lit("*==resolver.rels[*]", "resolver.rels[*]==*", "contains(resolver.rels,*)")}, Optional: true, What: "another removal callback is unregistered"})
		})
	}
	for _, r := range p.returnedClosures(addR) {
		r := r
		if len(r.FreeVars) == 0 {
			continue
		}
		ck.Do("release-child", "releasing a child resolver removes it", func(o *Obl) {
			o.Path(PathRule{Root: r, Via: evResRemoved, Skip: litResGone, What: "a released child resolver stays attached"})
		})
	}
}

func init() {
	register("E07", "Lockset analysis of every call of user code, and guards and path obligations around the notification queue, with panics", checkE07)
	register("E09", "Guards: every effect of a resolver handle requires the comparison with the current execution under the same hold of the lock", checkE09)
	register("E10", "Guards and path obligations around starting, waiting for and recording the outcome of an execution", checkE10)
	register("E11", "Loops over handlers and directives, with panics, snapshots under one hold of the lock, and guards on attaching resolvers", checkE11)
	register("E12", "Path obligations from every removal to the queued callbacks, and guards on registration and release", checkE12)
}

// CountsUp: what is stored in the id field is the counter after it was counted up.
func (o *Obl) CountsUp(rel, id, ctr, what string) {
	type st struct {
		counted bool
		f       *Frame
		v       ssa.Value
	}
	isLoad, inc := loads(ctr), storeTo(ctr, "("+ctr+"+1)")
	stored := storeTo(id)
	o.Watch(rel, stored, st{}, func(c *Ctx, ev *Event, x any, hit bool) any {
		s := x.(st)
		if inc(c, ev) {
			s.counted = true
		}
		if isLoad(c, ev) && s.counted {
			s.f, s.v = c.S.F, ev.Instr.(ssa.Value)
		}
		if hit {
			v := c.Resolve(Val{c.S.F, ev.Instr.(*ssa.Store).Val})
			b, isSum := v.V.(*ssa.BinOp)
			ok := isSum && c.Str(v) == "("+ctr+"+1)" && b != nil && s.counted || s.v != nil && v.V == s.v && v.F == s.f
			if !ok {
				c.Violate("id", "%s: %s", fnName(c.S.F.fn), what)
			}
			s = st{}
		}
		return s
	})
}

// CountsUpKey: in fn, what is put in a map is put under a counter that is counted up with every use: before the
// lock is released, the counter is stored one higher.
func (o *Obl) CountsUpKey(fn *ssa.Function, m, ctr, what string) {
	o.Never(fn, allOf(mapPut(m, "*", "*"), notP(mapPut(m, ctr, "*")), notP(mapPut(m, "("+ctr+"+1)", "*"))), what)
	inc := storeTo(ctr, "("+ctr+"+1)")
	o.Path(PathRule{Root: fn, From: loads(ctr), Once: true, Via: inc, Until: anyOf(isExit, unlocks("*")), What: what})
}

// StableLoop: no loop goes on over the list of a field, read before the loop, after the lock was released.
func (o *Obl) StableLoop(rel string, unlock Pred, colls ...string) {
	it := iter(colls...)
	type loop struct {
		in       ssa.Instruction
		f        *Frame
		released bool
	}
	type st [3]loop
	o.Watch(rel, it, st{}, func(c *Ctx, ev *Event, x any, hit bool) any {
		s := x.(st)
		free := -1
		for i := range s {
			l := &s[i]
			if l.in == nil {
				free = i
				continue
			}
			if unlock(c, ev) {
				l.released = true
			}
			if hit && l.in == ev.Instr && l.f == c.S.F {
				if l.released {
					c.Violate("live", "%s: the loop goes on over a list that may have changed while the lock was not held", fnName(c.S.F.fn))
				}
				*l = loop{}
				free = i
			}
		}
		if hit && free >= 0 && c.liveList(ev) {
			s[free] = loop{in: ev.Instr, f: c.S.F}
		}
		if ev.Kind == KLeave {
			for i := range s {
				if s[i].f == c.S.F {
					s[i] = loop{}
				}
			}
		}
		return s
	})
}

// liveList: the loop is over a list that was read from its field before the loop.
func (c *Ctx) liveList(ev *Event) bool {
	for _, v := range []Val{ev.Lit.X, ev.Lit.Y} {
		if v.V == nil {
			continue
		}
		v = c.Resolve(v)
		call, ok := v.V.(*ssa.Call)
		if !ok {
			continue
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			continue
		}
		l := c.Resolve(Val{v.F, call.Call.Args[0]})
		u, ok := l.V.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		_, isField := u.X.(*ssa.FieldAddr)
		return isField && !(l.F == c.S.F && sameLoop(u.Block(), ev.Instr.Block()))
	}
	return false
}

// sameLoop: b is in the loop that the branch at the end of test leaves.
func sameLoop(b, test *ssa.BasicBlock) bool {
	l := innermost(test)
	return l != nil && l[b]
}

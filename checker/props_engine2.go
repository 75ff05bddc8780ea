package main

import (
	"golang.org/x/tools/go/ssa"
)

// Further events of the directive engine.
var (
	litDirRemoved  = lit("!contains(Controller.dir,*)", "index(Controller.dir,*)<0", "index(Controller.dir,*)==-1")
	litRes         = []string{"directiveInstance.res"}
	evDelisted     = listStore("Controller.dir", "delete")
	evStopResolver = anyOf(dynCall("resolver.ctxCancel"), lit("resolver.ctxCancel==nil"))
	evResRemoved   = listStore("directiveInstance.res", "delete")
	evResAdded     = listStore("directiveInstance.res", "append", "prepend", "other")
	litResGone     = lit("!contains(directiveInstance.res,*)", "index(directiveInstance.res,*)<0")
	litCbFresh     = lit("!swap(callback.released,true)", "!load(callback.released)")
	litRefFresh    = lit("!swap(dirRef.released,true)", "!load(dirRef.released)")
	evValAdded     = listStore("resolver.vals", "append", "prepend")
	evValGone      = listStore("resolver.vals", "delete", "clear", "other")
	disposeNote    = "ReferenceHandler.HandleInstanceDisposed"
	untilUnlock    = anyOf(isExit, evEngineUnlock)
	refSkip        = anyOf(litRefDead, lit("dirRef.h==nil"))
)

func checkE03(ck *Check) {
	p := ck.P
	e := engine(p)
	ck.Do("canceled", "disposing an instance cancels its context", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: evDispose, Via: dynCall("directiveInstance.ctxCancel"), What: "the context of a disposed instance is not canceled"})
	})
	ck.Do("timer", "disposing an instance stops a pending disposal timer", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: evDispose, Via: evStopTimer, Skip: lit("directiveInstance.destroyTimer==nil"), What: "the disposal timer of a disposed instance is not stopped"})
	})
	ck.Do("delisted", "a disposed instance leaves the list of running directives before the lock is released", func(o *Obl) {
		o.DeletesOne(dcPkg, "Controller.dir")
		o.Path(PathRule{At: dcPkg, From: evDispose, Via: evDelisted, Skip: litDirRemoved, Until: untilUnlock, What: "a disposed instance stays in the list of running directives"})
	})
	ck.Do("stopped", "every resolver of a disposed instance is stopped and removed", func(o *Obl) {
		o.DeletesOne(dcPkg, "directiveInstance.res")
		// each one is removed from the list (see removed) or stopped in place
		o.Or(func(o *Obl) {
			o.ForEach(ForEachRule{At: dcPkg, After: evDelisted, Coll: litRes, Must: evResRemoved, Skip: litResGone, Reach: true, What: "a resolver of a disposed instance is not removed"})
		}, func(o *Obl) {
			o.ForEach(ForEachRule{At: dcPkg, After: evDelisted, Coll: litRes, Must: evStopResolver, Skip: litResGone, Reach: true, What: "a resolver of a disposed instance is not stopped"})
		})
		o.Path(PathRule{At: dcPkg, From: evDelisted, Via: anyOf(done(litRes...), empty(litRes...)), What: "the resolvers of a disposed instance are not removed"})
	})
	ck.Do("removed", "a removed resolver is stopped, its values are withdrawn and its removal callbacks visited", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: evResRemoved, Via: evStopResolver, What: "a removed resolver is not stopped"})
		o.Path(PathRule{At: dcPkg, From: evResRemoved, Via: storeTo("resolver.vals", "nil"), What: "the values of a removed resolver are not withdrawn"})
		o.Path(PathRule{At: dcPkg, From: evResRemoved, Via: anyOf(done("resolver.rels"), empty("resolver.rels")), What: "the removal callbacks of a removed resolver are not called"})
	})
	ck.Do("callbacks", "every dispose callback that is not released is called once", func(o *Obl) {
		o.ForEach(ForEachRule{At: dcPkg, After: evDelisted, Coll: []string{"directiveInstance.rels"}, Must: anyOf(adds("callback.cb"), enqueues(rendered("callback.cb"))), Skip: anyOf(litCbDead, lit("callback.cb==nil")), Reach: true, What: "a dispose callback is not called"})
		o.Path(PathRule{At: dcPkg, From: adds("callback.cb"), Via: enqueues(rendered("callback.cb")), Optional: true, What: "the callback is collected but not queued"})
		o.Guard(GuardRule{At: dcPkg, Effect: anyOf(adds("callback.cb"), enqueues(rendered("callback.cb"))), Needs: []Pred{lit("!swap(callback.released,true)")}, Reset: anyOf(iter("directiveInstance.rels"), iter("resolver.rels")),
			What: "a callback is called without marking it called, or after its release"})
		o.Guard(GuardRule{At: dcPkg, Effect: storeTo("directiveInstance.rels", "nil"), Needs: []Pred{anyOf(done("directiveInstance.rels"), empty("directiveInstance.rels"))}, Optional: true, What: "the dispose callbacks are dropped before they were visited"})
	})
	ck.Do("references", "every attached reference that is not released is told of the disposal once", func(o *Obl) {
		note := makesClosure([]string{disposeNote}, nil)
		o.ForEach(ForEachRule{At: dcPkg, After: evDelisted, Coll: []string{"directiveInstance.refs"}, Must: note, Skip: refSkip, Reach: true, What: "an attached reference handler is not told of the disposal"})
		o.Path(PathRule{At: dcPkg, From: note, Via: enqueues(notifier(disposeNote)), What: "the disposal notification is built but not queued"})
		o.Guard(GuardRule{At: dcPkg, Effect: note, Needs: []Pred{anyOf(lit("!swap(dirRef.released,true)"), litReleased), lit("!dirRef.h==nil", "!<ReferenceHandler>==nil")}, Reset: iter("directiveInstance.refs"),
			What: "a reference handler is told without marking it told, or after its release"})
		o.Guard(GuardRule{At: dcPkg, Effect: storeTo("directiveInstance.refs", "nil"), Needs: []Pred{anyOf(done("directiveInstance.refs"), empty("directiveInstance.refs"))}, Optional: true, What: "the references are dropped before they were told"})
	})
	ck.Do("close", "Close disposes the instance unless it already is", func(o *Obl) {
		o.Path(PathRule{Root: e.close, Via: evDispose, Skip: litReleased, What: "Close does not dispose the instance"})
	})
	disp := p.Method(dcPkg, "directiveInstance", "AddDisposeCallback")
	ck.Do("late-callback", "a dispose callback added after disposal is called, and one added before is recorded", func(o *Obl) {
		call := anyOf(dynCall("<func()>"), goCall(), enqueues(rendered("<func()>", "callback.cb")))
		o.Path(PathRule{Root: disp, From: litReleased, Via: call, What: "a dispose callback added after disposal is not called"})
		o.Path(PathRule{Root: disp, Via: anyOf(call, listStore("directiveInstance.rels", "append", "prepend")), What: "a dispose callback is neither called nor recorded"})
		o.Guard(GuardRule{Root: disp, Effect: listStore("directiveInstance.rels", "append", "prepend"), Needs: []Pred{lit("!load(directiveInstance.released)")}, Reset: anyOf(evEngineLock, evEngineUnlock), What: "a dispose callback is recorded on an instance that may already be disposed"})
	})
	ck.Do("late-reference", "a reference added after disposal is told and not recorded as live", func(o *Obl) {
		o.Path(PathRule{Root: e.addRef, From: litReleased, Once: true, Disarm: lit("!load(directiveInstance.released)"), Via: enqueues(notifier(disposeNote)), Skip: anyOf(lit("dirRef.h==nil"), lit("<ReferenceHandler>==nil")), What: "a reference added after disposal is not told"})
	})
	ck.Do("release-callback", "releasing a dispose callback unregisters exactly that one", func(o *Obl) {
		o.DeletesOne(dcPkg, "directiveInstance.rels")
		for _, r := range p.returnedClosures(disp) {
			if len(r.FreeVars) == 0 {
				continue
			}
			o.Path(PathRule{Root: r, Via: setFlag("callback.released"), Skip: litCbDead, What: "releasing a dispose callback does not mark it released"})
			o.Path(PathRule{Root: r, From: lit("!swap(callback.released,true)"), Via: storeTo("directiveInstance.rels"), Skip: anyOf(done("directiveInstance.rels"), lit("!contains(directiveInstance.rels,*)")), What: "the released dispose callback stays in the list"})
			o.Guard(GuardRule{Root: r, Effect: listStore("directiveInstance.rels", "delete", "clear", "other"), Needs: []Pred{lit("callback==directiveInstance.rels[*]", "directiveInstance.rels[*]==*", "*==directiveInstance.rels[*]", "contains(directiveInstance.rels,*)")}, Optional: true, What: "another dispose callback is unregistered"})
		}
	})
}

func checkE04(ck *Check) {
	p := ck.P
	e := engine(p)
	remV := p.Method(dcPkg, "resolverHandler", "RemoveValue")
	clrV := p.Method(dcPkg, "resolverHandler", "ClearValues")
	addV := p.Method(dcPkg, "resolverHandler", "AddValue")
	refs := []string{"directiveInstance.refs"}
	noteAdded, noteGone := "ReferenceHandler.HandleValueAdded", "ReferenceHandler.HandleValueRemoved"
	ck.Do("added", "every unreleased reference is told of an added value", func(o *Obl) {
		o.ForEach(ForEachRule{At: dcPkg, After: evValAdded, Coll: refs, Must: notifies(noteAdded, "dirRef.h", "new value"), Skip: refSkip, Reach: true, Until: untilUnlock, What: "a reference is not told of an added value"})
		o.Path(PathRule{At: dcPkg, From: makesClosure([]string{noteAdded}, nil), Via: enqueues(notifier(noteAdded)), Until: untilUnlock, What: "the notification of an added value is not queued"})
	})
	ck.Do("replay", "a new reference is told of every existing value", func(o *Obl) {
		ref := listStore("directiveInstance.refs", "append", "prepend")
		skip := anyOf(lit("<ReferenceHandler>==nil"), lit("dirRef.h==nil"))
		note := anyOf(notifies(noteAdded, "dirRef.h", "resolver.vals[*]"), notifies(noteAdded, "<ReferenceHandler>", "resolver.vals[*]"))
		o.ForEach(ForEachRule{At: dcPkg, After: ref, Coll: litRes, Must: anyOf(done("resolver.vals"), empty("resolver.vals")), Reach: true, ReachSkip: skip, Until: untilUnlock, What: "the values of a resolver are not replayed to a new reference"})
		o.ForEach(ForEachRule{At: dcPkg, After: ref, Coll: []string{"resolver.vals"}, Must: note, What: "an existing value is not replayed to a new reference"})
	})
	ck.Do("removed", "every unreleased reference is told of every removed value", func(o *Obl) {
		vals := []string{"resolver.vals", "new [1]*value"}
		o.ForEach(ForEachRule{At: dcPkg, After: evValGone, Coll: vals, Must: anyOf(done(refs...), empty(refs...)), Reach: true, What: "the references are not told of a removed value"})
		o.ForEach(ForEachRule{At: dcPkg, After: evValGone, Coll: refs, Must: notifies(noteGone, "dirRef.h"), Skip: refSkip, What: "a reference is not told of a removed value"})
		o.Guard(GuardRule{At: dcPkg, Effect: notifies(noteGone, "*", "resolver.vals[*]"), Needs: []Pred{listStore("resolver.vals", "clear")}, Optional: true, What: "a value that was not removed is reported removed"})
		o.Path(PathRule{At: dcPkg, From: makesClosure([]string{noteGone}, nil), Via: enqueues(notifier(noteGone)), What: "the notification of a removed value is not queued"})
		o.NeverIn(dcPkg, allOf(makesClosure([]string{noteGone}, nil), notP(notifies(noteGone, "*", "<[]*value>[*]", "new [1]*value[*]", "resolver.vals[*]", "<*value>"))), "a removal notification carries another value than the removed one")
		o.NeverIn(dcPkg, allOf(makesClosure([]string{noteGone}, nil), notP(notifies(noteGone, "dirRef.h"))), "a removal notification goes to another handler")
		// the removed values are the old ones, not what is left
		o.Path(PathRule{At: dcPkg, From: listStore("resolver.vals", "clear"), Forbid: inRoot(loads("resolver.vals")), Via: isExit, What: "the list of values is read after it was cleared"})
	})
	ck.Do("value-id", "value ids count up from one", func(o *Obl) {
		inc := storeTo("directiveInstance.valCtr", "(directiveInstance.valCtr+1)")
		o.Guard(GuardRule{At: dcPkg, Effect: evValAdded, Needs: []Pred{inc}, Reset: anyOf(evEngineUnlock, evValAdded), What: "a value is added without taking a new id"})
		o.CountsUp(dcPkg, "value.id", "directiveInstance.valCtr", "the id of a value is taken before it is counted up")
		o.NeverIn(dcPkg, allOf(storeTo("value.id"), notP(storeTo("value.id", "directiveInstance.valCtr", "(directiveInstance.valCtr+1)", "<uint32>"))), "the id of a value is not taken from the counter")
		o.NeverIn(dcPkg, allOf(storeTo("directiveInstance.valCtr"), notP(inc)), "the value id counter does not only count up")
	})
	ck.Do("added-what", "AddValue records the value it is given and returns its id", func(o *Obl) {
		o.Never(addV, allOf(storeTo("value.val"), notP(storeTo("value.val", "<Value>"))), "the value attached is not the one given")
		o.Never(addV, exitWith(func(c *Ctx, r []Val) bool {
			if len(r) != 2 {
				return true
			}
			ok, id := c.Str(r[1]), c.Str(r[0])
			return ok == "true" && !globAny([]string{"directiveInstance.valCtr", "(directiveInstance.valCtr+1)", "value.id"}, id) || ok == "false" && id != "0"
		}), "the result is not the id of the added value")
		o.Guard(GuardRule{Root: addV, Effect: exitWith(func(c *Ctx, r []Val) bool { return len(r) == 2 && c.Str(r[1]) != "false" }), Needs: []Pred{evValAdded}, What: "success is reported without adding the value"})
		o.Guard(GuardRule{Root: addV, Effect: exitWith(func(c *Ctx, r []Val) bool { return len(r) == 2 && c.Str(r[1]) == "false" }), Needs: []Pred{notP(evValAdded)}, Reset: evValAdded, What: "an added value is reported as rejected"})
	})
	match := lit("<uint32>==value.id", "value.id==<uint32>", "contains(resolver.vals,value.id=<uint32>)")
	ck.Do("remove-which", "RemoveValue removes exactly the value with the given id and returns it", func(o *Obl) {
		o.DeletesOne(dcPkg, "resolver.vals")
		o.Guard(GuardRule{Root: remV, Effect: evValGone, Needs: []Pred{match}, Reset: iter("resolver.vals"), What: "a value with another id is removed"})
		o.Path(PathRule{Root: remV, From: match, Via: evValGone, What: "the value is found but not removed"})
		o.Path(PathRule{Root: remV, From: lit("resolver.ctx==resolverHandler.ctx"), Via: anyOf(match, done("resolver.vals"), lit("!contains(resolver.vals,value.id=<uint32>)")), What: "the values are not searched for the given id"})
		o.Never(remV, exitWith(func(c *Ctx, r []Val) bool {
			return len(r) != 2 || c.Str(r[1]) == "true" && c.Str(r[0]) != "value.val" || c.Str(r[1]) == "false" && c.Str(r[0]) != "nil"
		}), "the result is not the removed value")
		o.Guard(GuardRule{Root: remV, Effect: exitWith(func(c *Ctx, r []Val) bool { return len(r) == 2 && c.Str(r[1]) != "false" }), Needs: []Pred{evValGone}, What: "a value is reported removed that was not"})
	})
	ck.Do("clear-which", "ClearValues withdraws every value of the resolver and reports the ids", func(o *Obl) {
		o.Path(PathRule{Root: clrV, From: lit("resolver.ctx==resolverHandler.ctx"), Via: storeTo("resolver.vals", "nil"), Skip: empty("resolver.vals"), What: "values remain after clearing"})
		o.ForEach(ForEachRule{Root: clrV, Coll: []string{"resolver.vals"}, Must: func(c *Ctx, ev *Event) bool {
			st, ok := ev.Instr.(*ssa.Store)
			return ok && ev.Kind == KInstr && c.StrV(st.Val) == "value.id"
		}, What: "the id of a cleared value is not reported"})
	})
	_ = e
}

func checkE05(ck *Check) {
	p := ck.P
	addV := p.Method(dcPkg, "resolverHandler", "AddValue")
	const count, count2, max = "(~+len(resolver.vals))", "(len(resolver.vals)+~)", "ValueOptions.MaxValueCount"
	litFullCount := lit("!"+count+"<"+max, "!"+count2+"<"+max, "!0<"+max)
	litRoomCount := lit(count+"<"+max, count2+"<"+max, "0<"+max)
	litNoMax := lit(max+"==0", "!0<"+max)
	litMax := lit("!"+max+"==0", "0<"+max)
	litHard, litSoft := lit("ValueOptions.MaxValueHardCap"), lit("!ValueOptions.MaxValueHardCap")
	litFull, litNotFull := lit("directiveInstance.full"), lit("!directiveInstance.full")
	setFull, setRoom := storeTo("directiveInstance.full", "true"), storeTo("directiveInstance.full", "false")
	hasVals := lit("!len(resolver.vals)==0", "0<len(resolver.vals)")
	noVals := lit("len(resolver.vals)==0", "!0<len(resolver.vals)")
	stop := storeTo("resolver.stopped", "true")
	running := selectDefault("Context.Done(resolver.ctx)")
	changed := anyOf(evValAdded, evValGone, evEngineUnlock)
	ck.Do("count", "the values of every resolver are counted", func(o *Obl) {
		o.ForEach(ForEachRule{Root: p.Method(dcPkg, "resolverHandler", "CountValues"), Coll: litRes, Must: loads("resolver.vals"), What: "the values of a resolver are not counted"})
	})
	ck.Do("stable", "the resolvers that are stopped or started again are those attached when the loop over them began", func(o *Obl) {
		o.StableLoop(dcPkg, evEngineUnlock, litRes...)
	})
	ck.Do("hard-cap", "a value is recorded only if there is no hard cap or there is room", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: evValAdded, Needs: []Pred{anyOf(litNoMax, litRoomCount, litSoft)}, Reset: changed, What: "a value is recorded although the hard cap is reached"})
	})
	ck.Do("reject", "a value is rejected only at the hard cap or from a stale handle", func(o *Obl) {
		stale := lit("!resolver.ctx==resolverHandler.ctx")
		o.Guard(GuardRule{Root: addV, Effect: exitWith(func(c *Ctx, r []Val) bool { return len(r) == 2 && c.Str(r[1]) != "true" }),
			Needs: []Pred{anyOf(stale, litMax), anyOf(stale, litFullCount), anyOf(stale, litHard)}, Reset: anyOf(evValAdded, evValGone, evEngineLock), What: "a value is rejected although the hard cap is not reached"})
	})
	ck.Do("reevaluated", "the cap is evaluated again after every change of the values", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: anyOf(evValAdded, evValGone), Via: anyOf(litNoMax, litFullCount, litRoomCount), MinFrom: 2, What: "the value cap is not evaluated after the values changed"})
	})
	ck.Do("full", "the instance is marked full exactly while the maximum is reached", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: setFull, Needs: []Pred{litFullCount, litMax}, Reset: changed, What: "the instance is marked full below the maximum"})
		o.Guard(GuardRule{At: dcPkg, Effect: setRoom, Needs: []Pred{litRoomCount}, Reset: changed, What: "the instance is marked not full at the maximum"})
		o.Path(PathRule{At: dcPkg, From: litFullCount, Via: setFull, Skip: anyOf(litFull, evValAdded, litHard, litNoMax), What: "the maximum is reached but the instance is not marked full"})
		o.Path(PathRule{At: dcPkg, From: litRoomCount, Via: setRoom, Skip: anyOf(litNotFull, evValAdded, litNoMax), What: "there is room again but the instance stays marked full"})
	})
	ck.Do("stopped", "resolvers that are working without having produced a value are stopped at the maximum", func(o *Obl) {
		o.ForEach(ForEachRule{At: dcPkg, After: setFull, Coll: litRes, Must: stop, Skip: anyOf(lit("resolver.idle", "resolver.exited"), hasVals, litNotFull, litResGone), Leave: litNotFull, Reach: true, What: "a resolver without values keeps running at the maximum"})
		o.Path(PathRule{At: dcPkg, From: stop, Via: evStopResolver, What: "a resolver is marked stopped but keeps running"})
		o.Guard(GuardRule{At: dcPkg, Effect: stop, Needs: []Pred{anyOf(setFull, litFull), anyOf(noVals, evResAdded), anyOf(lit("!resolver.idle"), evResAdded)}, Reset: anyOf(iter(litRes...), evEngineUnlock), Optional: true, What: "a resolver is stopped although the maximum is not reached, or it has values"})
	})
	ck.Do("restarted", "resolvers that were stopped at the maximum or failed are started again when there is room", func(o *Obl) {
		o.ForEach(ForEachRule{At: dcPkg, After: setRoom, Coll: litRes, Must: anyOf(goCall(), running), Skip: anyOf(litResGone, litFull), SkipAll: []Pred{lit("!resolver.stopped"), lit("!resolver.exited", "resolver.err==nil")}, Leave: litFull, Reach: true, What: "a stopped or failed resolver is not started again"})
	})
	ck.Do("attached", "an attached resolver is started, unless the maximum is reached: then it is marked for a later start", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: evResAdded, Via: anyOf(goCall(), stop), Skip: running, What: "an attached resolver is neither started nor marked for a later start"})
		o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{anyOf(litNotFull, setRoom)}, Reset: anyOf(evEngineUnlock, setFull), What: "a resolver is started at the maximum"})
		o.Path(PathRule{At: dcPkg, From: storeTo("resolver.stopped", "false"), Via: goCall(), Optional: true, What: "the mark for a later start is lost"})
	})
}

func init() {
	register("E05", "Guards and path obligations around every change of the value lists, of the full mark and of the stopped marks", checkE05)
}

// idleCall: the call of an idle callback in a closure, if the function value makes one on every path.
func (c *Ctx) idleCall(v Val) (closureCall, bool) {
	for _, cc := range c.closureCalls(v, true) {
		if cc.Call.IsInvoke() || len(cc.Call.Args) != 2 || typeName(cc.Call.Value.Type()) != "IdleCallback" {
			continue
		}
		return cc, true
	}
	return closureCall{}, false
}

// idleNote matches building a closure that calls an idle callback rendering as one of the patterns.
func idleNote(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		mc, ok := ev.Instr.(*ssa.MakeClosure)
		if !ok {
			return false
		}
		cc, ok := c.idleCall(Val{c.S.F, mc})
		return ok && globAny(pats, c.Str(Val{cc.F, cc.Call.Value}))
	}
}

func checkE06(ck *Check) {
	p := ck.P
	addCb := p.Method(dcPkg, "directiveInstance", "AddIdleCallback")
	getErrs := p.Method(dcPkg, "directiveInstance", "GetResolverErrors")
	mark := p.Method(dcPkg, "resolverHandler", "MarkIdle")
	storeIdle := storeTo("directiveInstance.idle")
	anyNote := idleNote("callback.cb", "<IdleCallback>")
	isNote := func(c *Ctx, v Val) bool { _, ok := c.idleCall(v); return ok }
	type idleSt struct{ ready, notReady, done, working, notIdle, notExited, owe bool }
	ready, notReady := lit("directiveInstance.ready"), lit("!directiveInstance.ready")
	itRes, dnRes := iter(litRes...), anyOf(done(litRes...), empty(litRes...))
	notIdle, notExited := lit("!resolver.idle"), lit("!resolver.exited")
	wasIdle, wasBusy := lit("directiveInstance.idle"), lit("!directiveInstance.idle")
	evReady := storeTo("directiveInstance.ready", "true")
	ck.Do("truth", "the instance is said to be idle exactly if the handlers were called and no resolver was found working", func(o *Obl) {
		o.Watch(dcPkg, anyOf(storeIdle, anyNote), idleSt{}, func(c *Ctx, ev *Event, st any, hit bool) any {
			s := st.(idleSt)
			if hit {
				v := Val{}
				if ss, ok := ev.Instr.(*ssa.Store); ok {
					v = Val{c.S.F, ss.Val}
				} else {
					cc, _ := c.idleCall(Val{c.S.F, ev.Instr.(*ssa.MakeClosure)})
					v = Val{cc.F, cc.Call.Args[0]}
				}
				idle, known := c.known(v)
				switch {
				case !known:
					// a closure would look at a later state
					if in, isIn := v.V.(ssa.Instruction); c.Str(v) != "directiveInstance.idle" || isIn && in.Parent() != c.S.F.fn && !storeIdle(c, ev) {
						c.Violate("unknown", "%s: the idle state is not derived from the resolvers here", fnName(c.S.F.fn))
					}
				case idle && !s.ready:
					c.Violate("early", "%s: the instance is reported idle although the initial handlers were not all called", fnName(c.S.F.fn))
				case idle && (!s.done || s.working):
					c.Violate("working", "%s: the instance is reported idle although a resolver is working", fnName(c.S.F.fn))
				case !idle && !s.notReady && !s.working:
					c.Violate("idle", "%s: the instance is reported busy although no resolver is working", fnName(c.S.F.fn))
				}
			}
			if s.owe && (evEngineUnlock(c, ev) || ev.Kind == KExit) {
				c.Violate("lost", "%s: the changed idle state is not recorded", fnName(c.S.F.fn))
			}
			if evEngineUnlock(c, ev) {
				return idleSt{}
			}
			if storeIdle(c, ev) || litReleased(c, ev) {
				s.owe = false
			}
			if wasIdle(c, ev) && (s.notReady || s.working) || wasBusy(c, ev) && s.ready && s.done && !s.working {
				s.owe = true
			}
			if ev.Kind == KEdge {
				if itRes(c, ev) {
					s.notIdle, s.notExited = false, false
				}
				s.ready, s.notReady = s.ready || ready(c, ev), s.notReady || notReady(c, ev)
				s.done = s.done || dnRes(c, ev)
				s.notIdle, s.notExited = s.notIdle || notIdle(c, ev), s.notExited || notExited(c, ev)
				s.working = s.working || s.notIdle && s.notExited
			}
			if evReady(c, ev) {
				s.ready, s.notReady = true, false
			}
			if storeTo("resolver.idle|resolver.exited")(c, ev) || evResAdded(c, ev) || evResRemoved(c, ev) {
				s.done, s.working = false, false
			}
			return s
		})
	})
	ck.Do("ready", "the instance becomes ready only when all initial handlers were called", func(o *Obl) {
		o.Guard(GuardRule{At: dcPkg, Effect: evReady, Needs: []Pred{anyOf(done("Controller.hnd"), empty("Controller.hnd"))}, What: "the instance is ready before all handlers were asked"})
		o.Path(PathRule{Root: engine(p).add, From: calls("Handler.HandleDirective"), Via: evReady, What: "the instance does not become ready after its handlers were called"})
	})
	onOld := func(c *Ctx, ev *Event) bool { return baseOf(c, ev) != "new resolver" }
	reeval := anyOf(storeIdle, lit("*directiveInstance.idle*", "!*directiveInstance.idle*"))
	ck.Do("evaluated", "the idle state is evaluated again after everything that may change it", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: anyOf(allOf(storeTo("resolver.idle"), onOld), evResRemoved, evReady), Via: reeval, Disarm: evResAdded, Skip: anyOf(litReleased, evResAdded), MinFrom: 3, What: "the idle state is not evaluated after it may have changed"})
		// whichever of the two is asked first, one of them is always asked about
		looks := func(looked Pred) func(o *Obl) {
			return func(o *Obl) {
				o.Path(PathRule{At: dcPkg, From: anyOf(allOf(storeTo("resolver.idle", "true"), onOld), evResRemoved, evReady), Via: anyOf(looked, wasIdle), Disarm: evResAdded, Skip: anyOf(litReleased, evResAdded), What: "the resolvers are not looked at after one may have become idle"})
				o.Path(PathRule{At: dcPkg, From: allOf(storeTo("resolver.idle", "false"), onOld), Via: anyOf(looked, wasBusy), Disarm: evResAdded, Skip: anyOf(litReleased, evResAdded), What: "the resolvers are not looked at after one may have started working"})
				o.Path(PathRule{At: dcPkg, From: storeTo("resolver.idle", "<bool>"), Via: looked, Optional: true, What: "the resolvers are not looked at after one was marked"})
			}
		}
		o.Or(looks(anyOf(ready, notReady, storeIdle)), looks(anyOf(notIdle, lit("resolver.idle"), storeIdle)))
		o.Path(PathRule{At: dcPkg, From: allOf(storeTo("resolver.exited", "true"), onOld), Via: reeval, Skip: anyOf(litReleased, lit("resolver.idle"), evResAdded), Disarm: evResAdded, What: "the idle state is not evaluated after a resolver exited"})
		o.Path(PathRule{At: dcPkg, From: goCall(), Via: reeval, Skip: anyOf(litReleased, evResAdded), Disarm: evResAdded, What: "the idle state is not evaluated after a resolver was started"})
	})
	ck.Do("reported", "every registered idle callback is told of every change", func(o *Obl) {
		o.ForEach(ForEachRule{At: dcPkg, After: storeIdle, Coll: []string{"directiveInstance.idles"}, Must: idleNote("callback.cb"), Skip: anyOf(litCbDead, lit("callback.cb==nil")), Reach: true, Until: untilUnlock, What: "an idle callback is not told of a change"})
		o.Path(PathRule{At: dcPkg, From: idleNote("callback.cb"), Via: enqueues(isNote), Until: untilUnlock, What: "the notification of a changed idle state is not queued"})
		o.Guard(GuardRule{At: dcPkg, Effect: idleNote("callback.cb"), Needs: []Pred{litCbFresh}, Reset: iter("directiveInstance.idles"), What: "a released idle callback is told of a change"})
		o.Guard(GuardRule{At: dcPkg, Effect: storeTo("directiveInstance.idles", "nil"), Needs: []Pred{anyOf(litReleased, evDispose)}, Optional: true, What: "the idle callbacks are dropped although the instance is not disposed"})
	})
	ck.Do("initial", "an idle callback is told of the current state and recorded when it is registered", func(o *Obl) {
		o.Path(PathRule{Root: addCb, Via: enqueues(isNote), Skip: anyOf(litReleased, lit("<IdleCallback>==nil")), What: "a new idle callback is not told of the current state"})
		o.Path(PathRule{Root: addCb, Via: listStore("directiveInstance.idles", "append", "prepend"), Skip: anyOf(litReleased, lit("<IdleCallback>==nil")), What: "a new idle callback is not recorded"})
		o.Path(PathRule{Root: addCb, From: anyOf(listStore("directiveInstance.idles", "append", "prepend")), Via: enqueues(isNote), Until: evEngineUnlock, Skip: isExit, What: "the state may change between recording an idle callback and telling it"})
	})
	ck.Do("errors", "idle callbacks and GetResolverErrors are given the errors of the resolvers", func(o *Obl) {
		o.Watch(dcPkg, anyNote, 0, func(c *Ctx, ev *Event, st any, hit bool) any {
			if !hit {
				return st
			}
			cc, _ := c.idleCall(Val{c.S.F, ev.Instr.(*ssa.MakeClosure)})
			for _, v := range c.flowElems(Val{cc.F, cc.Call.Args[1]}) {
				if s := c.Str(v); s != "resolver.err" && s != "nil" {
					c.Violate("errs", "%s: an idle callback is given %s as resolver errors", fnName(c.S.F.fn), s)
				}
			}
			return st
		})
		seen := func(o *Obl, root *ssa.Function) {
			o.ForEach(ForEachRule{Root: root, Coll: litRes, Must: adds("resolver.err"), Skip: lit("resolver.err==nil"), What: "the error of a resolver is not reported"})
		}
		seen(o, getErrs)
		seen(o, addCb)
	})
	ck.Do("error-first", "the error of an execution is recorded before its end is reported", func(o *Obl) {
		o.Path(PathRule{At: dcPkg, From: evResolve, Via: storeTo("resolver.err", "Resolver.Resolve(*"), Skip: litStale, Until: anyOf(isExit, idleNote("callback.cb")), What: "idle callbacks are told of the end of an execution without its error"})
	})
	ck.Do("release", "a released idle callback is not told of later changes", func(o *Obl) {
		o.DeletesOne(dcPkg, "directiveInstance.idles")
		for _, r := range p.returnedClosures(addCb) {
			if len(r.FreeVars) == 0 {
				continue
			}
			o.Path(PathRule{Root: r, Via: setFlag("callback.released"), Skip: litCbDead, What: "releasing an idle callback does not mark it released"})
			o.Path(PathRule{Root: r, From: lit("!swap(callback.released,true)"), Via: storeTo("directiveInstance.idles"), Skip: anyOf(done("directiveInstance.idles"), lit("!contains(directiveInstance.idles,*)")), What: "the released idle callback stays in the list"})
			o.Guard(GuardRule{Root: r, Effect: listStore("directiveInstance.idles", "delete", "clear", "other"), Needs: []Pred{lit("*==directiveInstance.idles[*]", "directiveInstance.idles[*]==*", "contains(directiveInstance.idles,*)")}, Optional: true, What: "another idle callback is unregistered"})
		}
	})
	idleNow := anyOf(storeTo("resolver.idle", "true"), lit("resolver.idle"))
	busyNow := anyOf(storeTo("resolver.idle", "false"), lit("!resolver.idle"))
	ck.Do("working", "a resolver counts as working from its start until it marks itself idle, returns or is stopped", func(o *Obl) {
		o.Or(func(o *Obl) {
			o.Path(PathRule{At: dcPkg, From: goCall(), Via: busyNow, Until: untilUnlock, What: "a started resolver does not count as working"})
		}, func(o *Obl) {
			o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{busyNow}, Reset: evEngineUnlock, What: "a started resolver does not count as working"})
		})
		o.Or(func(o *Obl) {
			o.Guard(GuardRule{At: dcPkg, Effect: goCall(), Needs: []Pred{storeTo("resolver.exited", "false")}, Reset: evEngineUnlock, What: "a started resolver is still marked exited"})
		}, func(o *Obl) {
			o.Path(PathRule{At: dcPkg, From: goCall(), Via: storeTo("resolver.exited", "false"), Until: untilUnlock, What: "a started resolver is still marked exited"})
		})
		o.Path(PathRule{At: dcPkg, From: dynCall("resolver.ctxCancel"), Via: anyOf(storeTo("resolver.exited", "true"), goCall(), storeTo("directiveInstance.res", "nil")), Until: untilUnlock, What: "a stopped resolver is not marked exited"})
		o.Path(PathRule{At: dcPkg, From: dynCall("resolver.ctxCancel"), Via: anyOf(idleNow, goCall(), storeTo("directiveInstance.res", "nil")), Until: untilUnlock, What: "a stopped resolver still counts as working"})
		o.Path(PathRule{At: dcPkg, From: calls("Resolver.Resolve"), Via: idleNow, Skip: lit("!resolver.ctx==resolverHandler.ctx"), What: "a resolver that returned still counts as working"})
		o.Guard(GuardRule{At: dcPkg, Effect: storeTo("resolver.idle", "true"), Needs: []Pred{anyOf(calls("Resolver.Resolve"), evStopResolver, storeTo("directiveInstance.full", "true"), lit("directiveInstance.full"), storeTo("resolver.di"), lit("<bool>"))}, What: "a resolver is marked idle that neither returned nor was stopped"})
	})
	ck.Do("mark", "MarkIdle records what the resolver says", func(o *Obl) {
		match := lit("resolver.ctx==resolverHandler.ctx")
		o.Path(PathRule{Root: mark, From: match, Via: storeTo("resolver.idle", "<bool>"), Skip: lit("resolver.idle==<bool>", "<bool>==resolver.idle"), What: "the state given by the resolver is not recorded"})
		o.Never(mark, allOf(storeTo("resolver.idle"), notP(storeTo("resolver.idle", "<bool>"))), "the recorded state is not the one given")
	})
}

func init() {
	register("E06", "A monitor of the loops over the resolvers at every report of the idle state, and path obligations from everything that may change it", checkE06)
}

// engineCallback matches calling code of the users of the engine.
func engineCallback(c *Ctx, ev *Event) bool {
	cc := execCall(ev)
	if cc == nil {
		return false
	}
	if cc.IsInvoke() {
		return c.W.P.calleeIs(cc, []string{"Handler.HandleDirective", "ReferenceHandler.*", "Resolver.Resolve"})
	}
	if cc.StaticCallee() != nil {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	if ev.Inlined {
		return false
	}
	return typeName(cc.Value.Type()) != "CancelFunc"
}

func checkE08(ck *Check) {
	fields := ck.mutableFields(dcPkg)
	ck.Do("lock", "the engine's lock is acquired and released in pairs on every path and guards all mutable state", func(o *Obl) {
		for f := range fields {
			o.SiteName("field " + f)
		}
		for _, f := range []string{"Controller.dir", "Controller.hnd", "directiveInstance.refs", "directiveInstance.res", "resolver.vals", "value.removeCallbacks"} {
			if !fields[f] {
				o.Fail("fields", 0, nil, "the analysis did not find that %s is mutable", f)
			}
		}
		o.Lockset(LockRule{Pkg: dcPkg, Lock: evEngineLock, Unlock: evEngineUnlock, Fields: fields, Taken: true})
	})
	ck.Do("atomic", "mutable state is changed only in the critical section that looked at it, or after looking again", func(o *Obl) {
		for f := range fields {
			// each of these is drained, or looked at again, in a loop that gives the lock up to call user code
			o.Atomic(LockRule{Pkg: dcPkg, Lock: evEngineLock, Unlock: evEngineUnlock, Fields: fieldSet(f)},
				"directiveInstance.callingRefCbs>*", "directiveInstance.refCbs>*", "directiveInstance.refs>*", "Controller.dir>*", "resolver.vals>*", "directiveInstance.ready>*")
		}
	})
}

func init() {
	register("E08", "Lockset analysis of every entry point of the engine package: all fields written after construction are accessed under the lock, which is paired on every path", checkE08)
}

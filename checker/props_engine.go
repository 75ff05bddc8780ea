package main

import (
	"golang.org/x/tools/go/ssa"
)

const dcPkg = "directive/controller"

// Events of the directive engine.
var (
	evEngineUnlock = callArgs("Mutex.Unlock", "Controller.mtx")
	evEngineLock   = callArgs("Mutex.Lock", "Controller.mtx")
	evDispose      = setFlag("directiveInstance.released")
	litReleased    = lit("load(directiveInstance.released)", "swap(directiveInstance.released,true)")
	litLive        = lit("!load(directiveInstance.released)", "!swap(directiveInstance.released,true)", "CompareAndSwap(directiveInstance.released,false,true)")
	litRefDead     = lit("load(dirRef.released)", "swap(dirRef.released,true)")
	litCbDead      = lit("load(callback.released)", "swap(callback.released,true)")
	litLastStrong  = litField("directiveInstance.refs[last]", "dirRef.weak", false)
	litLastWeak    = litField("directiveInstance.refs[last]", "dirRef.weak", true)
	litNoRefs      = lit("len(directiveInstance.refs)==0")
	evStopTimer    = callArgs("Timer.Stop", "directiveInstance.destroyTimer")
	evLaunch       = goCall()
)

// enqueues matches adding a closure or function value to the engine's notification queue.
func enqueues(match func(c *Ctx, v Val) bool) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		st, ok := ev.Instr.(*ssa.Store)
		if !ok || c.StrV(st.Addr) != "directiveInstance.refCbs" {
			return false
		}
		_, added := c.listOp(st)
		for _, v := range added {
			for _, l := range c.phiLeaves(v) {
				if match(c, l) {
					return true
				}
			}
		}
		return false
	}
}

// notifier matches function values that call one of the named callees on every path.
func notifier(names ...string) func(c *Ctx, v Val) bool {
	return func(c *Ctx, v Val) bool {
		for _, cc := range c.closureCalls(v, true) {
			if c.W.P.calleeIs(cc.Call, names) {
				return true
			}
		}
		return false
	}
}

func rendered(pats ...string) func(c *Ctx, v Val) bool {
	return func(c *Ctx, v Val) bool { return globAny(pats, c.Str(v)) }
}

// argStr renders argument i (receiver first) of a call made inside a closure.
func (c *Ctx) argStr(cc closureCall, i int) string {
	args := cc.Call.Args
	if cc.Call.IsInvoke() {
		if i == 0 {
			return c.Str(Val{cc.F, cc.Call.Value})
		}
		i--
	}
	if i < 0 || i >= len(args) {
		return ""
	}
	return c.Str(Val{cc.F, args[i]})
}

// notifies matches the creation of a closure that notifies a reference handler; the handler and the value
// must render as given.
func notifies(name, handler string, value ...string) Pred {
	return makesClosure([]string{name}, func(c *Ctx, cc closureCall) bool {
		return globAny([]string{handler}, c.argStr(cc, 0)) && (len(value) == 0 || globAny(value, c.argStr(cc, 2)))
	})
}

type engineRoots struct {
	add, addHandler                *ssa.Function
	addRef, release, close, closeU *ssa.Function
	timer                          *ssa.Function
	disposers                      []*ssa.Function
}

func engine(p *Prog) engineRoots {
	var e engineRoots
	e.add = p.Method(dcPkg, "Controller", "AddDirective")
	e.addHandler = p.Method(dcPkg, "Controller", "AddHandler")
	e.addRef = p.Method(dcPkg, "directiveInstance", "AddReference")
	e.release = p.Method(dcPkg, "dirRef", "Release")
	e.close = p.Method(dcPkg, "directiveInstance", "Close")
	e.closeU = p.Method(dcPkg, "directiveInstance", "CloseIfUnreferenced")
	ts := p.closuresPassedTo(dcPkg, 1, "time.AfterFunc")
	if len(ts) != 1 {
		anchorFail("expected one function run by the disposal timer, found %d", len(ts))
	}
	e.timer = ts[0]
	e.disposers = []*ssa.Function{e.add, e.release, e.close, e.closeU, e.timer}
	return e
}

func init() {
	register("E01", "Path obligations and guards over Controller.AddDirective and everything it calls: the equivalence scan visits every running instance, only a live equivalent not superseded one is referenced, superseded ones are disposed, the new instance is appended under the lock hold of a complete scan and before handlers run", checkE01)
	register("E02", "Path obligations and guards over the entry points that take and release references, and the disposal timer", checkE02)
	register("E03", "Path obligations from every event that marks an instance disposed to the return of its entry point", checkE03)
	register("E04", "Path obligations from every change of a resolver's value list to the queued notifications", checkE04)
}

func checkE01(ck *Check) {
	p := ck.P
	e := engine(p)
	scanned := anyOf(done("Controller.dir"), lit("!is(<Directive>*,DirectiveWithEquiv)"))
	equal := lit("*.IsEquivalent(*,directiveInstance.dir)")
	supersedes := lit("*.Superceeds(<Directive>*,directiveInstance.dir)")
	ck.Do("scan-all", "every running live instance is compared with the new directive", func(o *Obl) {
		o.ForEach(ForEachRule{Root: e.add, Coll: []string{"Controller.dir"}, Must: callArgs(".IsEquivalent", "*", "directiveInstance.dir"),
			Skip: litReleased, Leave: equal, What: "a running directive is not compared with the new one"})
	})
	ck.Do("scan-fresh", "a new instance is listed only after a complete comparison under the same hold of the lock", func(o *Obl) {
		o.Guard(GuardRule{Root: e.add, Effect: listStore("Controller.dir", "append", "prepend", "other"), Needs: []Pred{scanned}, Reset: evEngineUnlock,
			What: "an instance is listed although the running directives were not all compared since the lock was taken"})
	})
	ck.Do("share-live", "only a live, equivalent instance that is not superseded gets the new reference", func(o *Obl) {
		o.Guard(GuardRule{Root: e.add, Effect: storeTo("dirRef.di", "Controller.dir[*]"), Needs: []Pred{equal, lit("!load(directiveInstance.released)")},
			Reset: anyOf(iter("Controller.dir"), evEngineUnlock, supersedes),
			What:  "a running instance is handed out without being live, equivalent and not superseded"})
	})
	ck.Do("share-one", "an equivalent instance that is not superseded is handed out, not duplicated", func(o *Obl) {
		o.Path(PathRule{Root: e.add, From: equal, Via: anyOf(storeTo("dirRef.di", "Controller.dir[*]")), Skip: anyOf(supersedes), Until: anyOf(iter("Controller.dir"), listStore("Controller.dir", "append"), isExit),
			What: "an equivalent live instance is not reused"})
	})
	ck.Do("share-strong", "the reference handed out with a running instance keeps it alive", func(o *Obl) {
		o.Never(e.add, allOf(storeTo("dirRef.weak"), notP(storeTo("dirRef.weak", "false"))), "the caller gets a weak reference")
	})
	ck.Do("supersede", "a superseded instance is disposed before the scan goes on", func(o *Obl) {
		o.Path(PathRule{Root: e.add, From: supersedes, Via: evDispose, Until: anyOf(iter("Controller.dir"), done("Controller.dir"), listStore("Controller.dir", "append"), isExit),
			What: "an instance superseded by the new directive is not disposed"})
		o.Guard(GuardRule{Root: e.add, Effect: evDispose, Needs: []Pred{equal, supersedes, lit("!load(directiveInstance.released)")}, Reset: iter("Controller.dir"),
			What: "an instance is disposed although the new directive does not supersede it"})
	})
	ck.Do("listed-first", "the new instance is listed before any handler is asked", func(o *Obl) {
		o.Guard(GuardRule{Root: e.add, Effect: calls("Handler.HandleDirective"), Needs: []Pred{listStore("Controller.dir", "append")},
			What: "a handler is asked to resolve a directive that is not listed"})
	})
	ck.Do("returns", "the instance returned is the one the returned reference is on, and it is listed or was found", func(o *Obl) {
		eff := exitWith(func(c *Ctx, r []Val) bool { return len(r) == 3 && c.Str(r[0]) != "nil" })
		o.Guard(GuardRule{Root: e.add, Effect: eff, Needs: []Pred{anyOf(listStore("Controller.dir", "append"), storeTo("dirRef.di", "Controller.dir[*]"))},
			What: "an instance is returned that is neither listed nor was found running"})
		bad := exitWith(func(c *Ctx, r []Val) bool {
			if len(r) != 3 || c.Str(r[0]) == "nil" {
				return false
			}
			s, t := c.Str(r[0]), c.Str(r[1])
			return t != "new dirRef" || !(glob("Controller.dir[*]", s) || s == "new directiveInstance") || c.Str(r[2]) != "nil"
		})
		o.Never(e.add, bad, "the result is not an instance together with a new reference on it")
	})
	ck.Do("listed-is-new", "what is listed is the instance that is returned", func(o *Obl) {
		o.Path(PathRule{Root: e.add, From: allOf(listStore("Controller.dir", "append")),
			Via: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) == "new directiveInstance" }), Until: isExit,
			What: "the listed instance is not the returned one"})
	})
}

func checkE02(ck *Check) {
	p := ck.P
	e := engine(p)
	stored := listStore("directiveInstance.refs", "append", "prepend", "other")
	weak := lit("<bool>")
	strong := lit("!<bool>")
	for _, r := range []*ssa.Function{e.addRef, e.add} {
		r := r
		ck.Do("ref-counted-"+r.Name(), "a reference on a live instance is recorded in it", func(o *Obl) {
			o.Path(PathRule{Root: r, From: storeTo("dirRef.di"), Via: stored, Skip: litReleased, What: "a new reference is not recorded in its instance"})
			o.Guard(GuardRule{Root: r, Effect: stored, Needs: []Pred{anyOf(litLive, storeTo("directiveInstance.dir"))}, Reset: evEngineUnlock, What: "a reference is recorded on an instance that may be disposed"})
		})
	}
	ck.Do("weak-first", "weak references precede strong ones, so the last one tells whether any strong one is left", func(o *Obl) {
		o.Guard(GuardRule{Root: e.addRef, Effect: listStore("directiveInstance.refs", "prepend"), Needs: []Pred{anyOf(weak, lit("dirRef.weak"))}, What: "a strong reference is put before weak ones"})
		o.Guard(GuardRule{Root: e.addRef, Effect: listStore("directiveInstance.refs", "append"), Needs: []Pred{anyOf(strong, lit("!dirRef.weak"))}, What: "a weak reference is put after strong ones"})
		o.Never(e.addRef, allOf(storeTo("dirRef.weak"), notP(storeTo("dirRef.weak", "<bool>"))), "the weak mark is not the one asked for")
		o.Never(e.add, allOf(storeTo("dirRef.weak"), notP(storeTo("dirRef.weak", "false"))), "the initial reference is weak")
	})
	ck.Do("ref-cancels-timer", "the first strong reference cancels a pending disposal", func(o *Obl) {
		for _, r := range []*ssa.Function{e.addRef, e.add} {
			o.Path(PathRule{Root: r, From: storeTo("dirRef.weak"), Via: evStopTimer,
				Skip: anyOf(allOf(weak, func(c *Ctx, ev *Event) bool { return r == e.addRef }), litReleased, lit("directiveInstance.destroyTimer==nil"), litLastStrong, storeTo("directiveInstance.dir"),
					// the initial reference of an instance that was just built
					allOf(stored, func(c *Ctx, ev *Event) bool {
						return baseOf(c, ev) == "new directiveInstance"
					})),
				What: "a strong reference does not cancel the pending disposal"})
		}
		o.Guard(GuardRule{Root: e.addRef, Effect: evStopTimer, Needs: []Pred{anyOf(strong, lit("!dirRef.weak"))}, What: "a weak reference cancels the pending disposal"})
		o.Path(PathRule{Root: e.addRef, From: evStopTimer, Via: storeTo("directiveInstance.destroyTimer", "nil"), Until: anyOf(isExit, evEngineUnlock), What: "a stopped disposal timer is not forgotten, so it is not armed again"})
		may := map[*ssa.Function]bool{e.addRef: true}
		for _, d := range e.disposers {
			may[d] = true
		}
		for _, en := range p.entries(dcPkg) {
			if !may[en.Fn] {
				o.Never(en.Fn, anyOf(evStopTimer, storeTo("directiveInstance.destroyTimer", "nil")), "a pending disposal is canceled by an operation that must not")
			}
		}
	})
	removed := listStore("directiveInstance.refs", "delete")
	ck.Do("release-once", "releasing a reference removes it once", func(o *Obl) {
		o.DeletesOne(dcPkg, "directiveInstance.refs")
		o.Guard(GuardRule{Root: e.release, Effect: removed, Needs: []Pred{lit("!swap(dirRef.released,true)", "CompareAndSwap(dirRef.released,false,true)"), lit("<dirRef>==directiveInstance.refs[*]", "contains(directiveInstance.refs,<dirRef>)")},
			What: "a reference is removed although it was released before"})
		o.Path(PathRule{Root: e.release, From: lit("!swap(dirRef.released,true)", "CompareAndSwap(dirRef.released,false,true)"), Via: removed, Skip: anyOf(done("directiveInstance.refs"), lit("!contains(directiveInstance.refs,<dirRef>)")),
			What: "a released reference stays recorded"})
		o.ForEach(ForEachRule{Root: e.release, Coll: []string{"directiveInstance.refs"}, Must: anyOf(lit("<dirRef>==directiveInstance.refs[*]"), lit("!<dirRef>==directiveInstance.refs[*]"), litRefDead, lit("!swap(dirRef.released,true)", "!load(dirRef.released)")), Leave: removed,
			What: "a recorded reference is not compared with the one released"})
	})
	emptyImm := lit("ValueOptions.UnrefDisposeEmptyImmediate")
	zero := lit("ValueOptions.UnrefDisposeDur==0")
	ck.Do("last-release", "when no strong reference is left the instance is disposed or its disposal is scheduled", func(o *Obl) {
		o.Path(PathRule{Root: e.release, From: removed, Via: anyOf(evDispose, allOf(calls("time.AfterFunc"))),
			Skip: anyOf(litLastStrong, litReleased, lit("!directiveInstance.destroyTimer==nil")),
			What: "the last strong reference is released without disposing or scheduling disposal"})
		o.Guard(GuardRule{Root: e.release, Effect: anyOf(evDispose, calls("time.AfterFunc")), Needs: []Pred{removed, anyOf(litNoRefs, litLastWeak)}, Reset: evEngineUnlock,
			What: "the instance is disposed or its disposal scheduled while a strong reference is held"})
	})
	ck.Do("when", "immediate disposal happens exactly without delay, or on request while there are no values", func(o *Obl) {
		o.Guard(GuardRule{Root: e.release, Effect: evDispose, Needs: []Pred{anyOf(zero, emptyImm), anyOf(zero, done("directiveInstance.res"))}, Reset: evEngineUnlock,
			What: "the instance is disposed at once although a delay is configured"})
		o.Guard(GuardRule{Root: e.release, Effect: calls("time.AfterFunc"), Needs: []Pred{lit("!ValueOptions.UnrefDisposeDur==0", "0<ValueOptions.UnrefDisposeDur"), lit("directiveInstance.destroyTimer==nil")}, Reset: evEngineUnlock,
			What: "a disposal timer is armed without a delay, or a second time"})
		o.Guard(GuardRule{Root: e.release, Effect: calls("time.AfterFunc"), Needs: []Pred{anyOf(lit("!ValueOptions.UnrefDisposeEmptyImmediate"), iter("directiveInstance.res"))}, Reset: evEngineUnlock,
			What: "disposal is delayed although the directive asks for immediate disposal while empty"})
		o.Never(e.release, allOf(calls("time.AfterFunc"), notP(callArgs("time.AfterFunc", "ValueOptions.UnrefDisposeDur"))), "the delay is not the configured one")
		o.Path(PathRule{Root: e.release, From: calls("time.AfterFunc"), Via: storeTo("directiveInstance.destroyTimer", "time.AfterFunc(*"), Until: anyOf(isExit, evEngineUnlock),
			What: "the disposal timer is not recorded, so a new reference cannot cancel it"})
	})
	ck.Do("timer", "the timer disposes the instance unless it was disposed or the timer was replaced or canceled meanwhile", func(o *Obl) {
		same := lit("*==directiveInstance.destroyTimer", "directiveInstance.destroyTimer==*")
		o.Guard(GuardRule{Root: e.timer, Effect: evDispose, Needs: []Pred{evEngineLock, lit("!load(directiveInstance.released)"), allOf(same, notP(lit("directiveInstance.destroyTimer==nil")))}, Reset: evEngineUnlock,
			What: "the timer disposes the instance without checking, under the lock, that it is still the pending one"})
		o.Path(PathRule{Root: e.timer, Via: evDispose, Skip: anyOf(litReleased, lit("!*==directiveInstance.destroyTimer", "!directiveInstance.destroyTimer==*")), What: "the timer expires without disposing the instance"})
	})
	ck.Do("close-unreferenced", "CloseIfUnreferenced closes exactly when there is no reference of the kinds asked about", func(o *Obl) {
		o.Guard(GuardRule{Root: e.closeU, Effect: evDispose, Needs: []Pred{anyOf(litNoRefs, litLastWeak), anyOf(litNoRefs, lit("!<bool>"))}, Reset: evEngineUnlock,
			What: "the instance is closed although it is referenced"})
		o.Path(PathRule{Root: e.closeU, Disarm: evDispose, Once: true, From: anyOf(litNoRefs), Via: evDispose, Skip: litReleased, What: "an unreferenced instance is not closed"})
		o.Path(PathRule{Root: e.closeU, Disarm: evDispose, Once: true, From: anyOf(litLastWeak), Via: evDispose, Skip: anyOf(litReleased, lit("<bool>")), What: "an instance with weak references only is not closed"})
	})
	ck.Do("only-these-dispose", "nothing else disposes an instance", func(o *Obl) {
		ok := map[*ssa.Function]bool{}
		for _, d := range e.disposers {
			ok[d] = true
		}
		for _, en := range p.entries(dcPkg) {
			if !ok[en.Fn] {
				o.Never(en.Fn, evDispose, "an instance is disposed by an operation that must not")
			}
		}
	})
}

// baseOf renders the object whose field an event stores to.
func baseOf(c *Ctx, ev *Event) string {
	if st, ok := ev.Instr.(*ssa.Store); ok {
		a := c.Resolve(Val{c.S.F, st.Addr})
		if _, _, b, ok := fieldOf(a.V); ok {
			return c.Str(Val{a.F, b})
		}
	}
	return ""
}

func shortRoot(fn *ssa.Function) string {
	s := fnName(fn)
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

// reaches reports whether an event can occur under a root.
func (ck *Check) reaches(root *ssa.Function, p Pred) bool {
	found := false
	w := &Walker{P: ck.P, Root: root, Init: 0, Interesting: ck.interesting(root)}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		if found {
			c.Stop()
		} else if p(c, ev) {
			found = true
		}
		return st
	}
	w.Run()
	return found
}

// always reports whether an event occurs on every path of a function.
func (ck *Check) always(root *ssa.Function, p Pred) bool {
	ok := true
	w := &Walker{P: ck.P, Root: root, Init: false, Interesting: ck.interesting(root)}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		if !st.(bool) && p(c, ev) {
			return true
		}
		if ev.Kind == KExit && !st.(bool) {
			ok = false
		}
		return st
	}
	w.Run()
	return ok
}

package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const dirPkg = "directive"

// acq describes the life of what a resolver acquires.
type acq struct {
	get    Pred   // the acquisition
	rel    string // how its release function renders ("" : release is a call)
	relBy  Pred   // or: the call that releases it
	what   string
	failed Pred // edges on which there is nothing to release
}

// life: what was acquired is released exactly once on every path: by a call, or by handing its release function on.
func (o *Obl) life(root *ssa.Function, a acq) {
	type state struct{ held, raw, once, released, called bool }
	never := func(*Ctx, *Event) bool { return false }
	callRaw, callOnce, none, failed := Pred(never), Pred(never), Pred(never), a.failed
	if a.relBy != nil {
		callRaw = a.relBy
	} else {
		wrapped := "sync.OnceFunc(" + a.rel + ")"
		callRaw = dynCall(a.rel)
		callOnce = anyOf(dynCall(wrapped), callArgs("Once.Do", "*", a.rel))
		none = lit(a.rel+"==nil", wrapped+"==nil")
	}
	if failed == nil {
		failed = never
	}
	n := 0
	o.Monitor(root, state{}, func(c *Ctx, ev *Event, x any) any {
		s := x.(state)
		bad := func(key, what string) { c.Violate(key, "%s: %s", fnName(root), what) }
		handed := func(names ...string) (string, bool) {
			if !calls(names...)(c, ev) {
				return "", false
			}
			cc := execCall(ev)
			return c.StrV(cc.Args[len(cc.Args)-1]), true
		}
		switch {
		case a.get(c, ev):
			if ev.Kind == KInstr {
				o.Site(ev.Instr)
			}
			n++
			if s.held {
				bad("leak", a.what+" is not released before the next one is acquired")
			}
			s = state{held: true}
		case none(c, ev), failed(c, ev):
			s.held = false
		case callRaw(c, ev):
			if s.released || s.raw || s.once {
				bad("twice", a.what+" may be released twice")
			}
			s.held, s.released = false, true
		case callOnce(c, ev):
			if s.raw {
				bad("twice", a.what+" may be released twice")
			}
			s.held, s.once, s.called = false, true, true
		case ev.Kind == KExit && s.held:
			bad("leak", a.what+" is not released")
		case a.rel != "" && dynCall("ResolverHandler.AddValueRemovedCallback(*", "ResolverHandler.AddResolverRemovedCallback(*")(c, ev):
			// not handed on any more
			if s.once || s.raw {
				s.held = !s.released && !s.called
			}
		default:
			if cb, ok := handed("ResolverHandler.AddValueRemovedCallback", "ResolverHandler.AddResolverRemovedCallback"); ok && a.rel != "" {
				if globAny([]string{a.rel}, cb) {
					if s.released || s.raw || s.once {
						bad("twice", a.what+" may be released twice")
					}
					s.raw, s.held = true, false
				} else if glob("sync.OnceFunc("+a.rel+")", cb) {
					if s.released {
						bad("twice", a.what+" may be released twice")
					}
					s.once, s.held = true, false
				}
			}
		}
		return s
	})
	if n == 0 {
		o.Fail("none", root.Pos(), nil, "%s acquires nothing: %s", fnName(root), a.what)
	}
}

// literalsGiven: the function literals given as argument n to the calls that match.
func (o *Obl) literalsGiven(root *ssa.Function, call Pred, n int) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	var out []*ssa.Function
	o.Monitor(root, 0, func(c *Ctx, ev *Event, x any) any {
		if call(c, ev) {
			cc := execCall(ev)
			if n < len(cc.Args) {
				f := o.ck.P.funcValue(c.Resolve(Val{c.S.F, cc.Args[n]}).V, 0)
				if f == nil {
					f = o.ck.P.funcValue(cc.Args[n], 0)
				}
				if f != nil && !set[f] {
					set[f] = true
					out = append(out, f)
				}
			}
		}
		return x
	})
	if len(out) == 0 {
		o.Fail("literal", root.Pos(), nil, "%s gives no known function", fnName(root))
	}
	return out
}

// closesOnce: closing a channel in the nested functions of a resolver happens at most once.
func (o *Obl) closesOnce(rel string, root *ssa.Function) {
	p := o.ck.P
	single := map[*ssa.Function]bool{}
	for _, f := range append(p.closuresPassedTo(rel, 1, "Once.Do"), p.closuresPassedTo(rel, 0, "sync.OnceFunc")...) {
		single[f] = true
	}
	for _, f := range nested(root) {
		if f == root || single[f] || !o.ck.ownEvent(f, calls("close")) {
			continue
		}
		o.Guard(GuardRule{Root: f, Effect: calls("close"), Needs: []Pred{lit("*CompareAndSwap(*)")}, What: "a channel may be closed twice"})
	}
}

func checkR01(ck *Check) {
	p := ck.P
	const add, hnd = "ResolverHandler.AddValue", "<ResolverHandler>"
	withdraw := calls("ResolverHandler.ClearValues", "ResolverHandler.RemoveValue")
	ended := recvFrom("Context.Done(<Context>)")
	accepted, rejected := lit(add+"(*)#1"), lit("!"+add+"(*)#1")
	access, getter := p.Method(dirPkg, "AccessResolver", "Resolve"), p.Method(dirPkg, "KeyedGetterResolver", "Resolve")
	keyedRef, refc := p.Method(dirPkg, "KeyedRefCountResolver", "Resolve"), p.Method(dirPkg, "RefCountResolver", "Resolve")
	simple := p.Method(dirPkg, "GetterResolver", "Resolve")
	ck.Inside = dirPkg
	const accGet, keyGet, simGet = "AccessResolver.getter", "KeyedGetterResolver.getter", "GetterResolver.getter"
	got := func(f, n string) string { return "dyn:" + f + "(*)#" + n }
	refLits := func(o *Obl) []*ssa.Function { return o.literalsGiven(refc, calls("RefCount.Access"), 2) }
	ck.Do("released", "the release function of what was acquired is called or handed on exactly once on every path", func(o *Obl) {
		o.life(access, acq{get: dynCall(accGet), rel: got(accGet, "1"), what: "the accessed value"})
		o.life(getter, acq{get: dynCall(keyGet), rel: got(keyGet, "1"), what: "the value of the key"})
		o.life(keyedRef, acq{get: calls("KeyedRefCount.AddKeyRef"), relBy: callArgs("KeyedRef.Release", "KeyedRefCount.AddKeyRef(*)#0"), what: "the reference to the key"})
		o.Path(PathRule{Root: access, From: lit(got(accGet, "2") + "==nil"), Via: callArgs("ResolverHandler.AddValueRemovedCallback", hnd, add+"(*)#0", got(accGet, "1")+"|sync.OnceFunc("+got(accGet, "1")+")|closure*"), Skip: anyOf(rejected, lit(got(accGet, "1")+"==nil", "sync.OnceFunc("+got(accGet, "1")+")==nil")), Until: waitSel, What: "the accessed value is not released when the emitted value is removed"})
		// nothing but RefCount.Access keeps a reference to a counted value: it is released when the callback returns
		o.Path(PathRule{Root: refc, Via: callArgs("RefCount.Access", "RefCountResolver.rc", "<Context>", "closure*"), What: "the counted value is not accessed"})
		for _, f := range refLits(o) {
			o.Path(PathRule{Root: f, From: rejected, Via: isExit, Forbid: blocks, What: "a rejected value is kept"})
		}
	})
	ck.Do("needed", "what was acquired is kept for as long as the emitted value is: until the resolver is stopped or it reports itself released", func(o *Obl) {
		for _, k := range []struct {
			f         *ssa.Function
			rel, wait Pred
			waits     []string
		}{
			{access, anyOf(dynCall(got(accGet, "1")), dynCall("sync.OnceFunc("+got(accGet, "1")+")"), isExit), selectsOn("Context.Done(<Context>)", "makechan|*getWaitCh()|*#1"), []string{"Context.Done(<Context>)", "makechan", "*getWaitCh()"}},
			{getter, anyOf(dynCall(got(keyGet, "1")), isExit), selectsOn("Context.Done(<Context>)", "*getWaitCh()|var:<-chan struct{}|makechan"), []string{"Context.Done(<Context>)", "*getWaitCh()", "var:<-chan struct{}", "makechan"}},
			{keyedRef, anyOf(calls("KeyedRef.Release"), isExit), nil, []string{"Context.Done(<Context>)"}},
		} {
			if k.wait != nil {
				o.Path(PathRule{Root: k.f, From: accepted, Via: k.wait, Skip: lit("!Uint32.CompareAndSwap(*)"), Until: k.rel, What: "what was acquired is released while it is needed, or waiting does not end when it is invalid"})
			}
			o.Path(PathRule{Root: k.f, From: accepted, Via: recvFrom(k.waits...), Skip: lit("!Uint32.CompareAndSwap(*)"), Until: k.rel, What: "what was acquired is released while it is needed"})
			o.Never(k.f, uninterruptible("Context.Done(<Context>)"), "the resolver does not end when it is stopped")
			o.Path(PathRule{Root: k.f, From: ended, Via: isExit, Forbid: anyOf(dynCall(accGet, keyGet), calls("KeyedRefCount.AddKeyRef", add), notReturning("Canceled", "Context.Err(")), Skip: lit("Context.Err(<Context>)==nil"), What: "something is acquired after the resolver was stopped"})
		}
		for _, f := range refLits(o) {
			o.Path(PathRule{Root: f, From: anyOf(accepted), Via: ended, Until: anyOf(withdraw, isExit), What: "the counted value is released while it is needed"})
			o.Path(PathRule{Root: f, From: anyOf(accepted), Via: withdraw, What: "a value that is not valid any more is still emitted"})
			o.Never(f, uninterruptible("Context.Done(<Context>)"), "the resolver does not end when the value changes")
			for _, v := range f.FreeVars {
				if strings.HasSuffix(strings.TrimPrefix(v.Type().String(), "*"), "context.Context") {
					o.Fail("ctx", f.Pos(), nil, "the context of the resolver is used instead of that of the counted value")
				}
			}
		}
		o.Path(PathRule{Root: keyedRef, From: accepted, Via: withdraw, Until: calls("KeyedRef.Release"), What: "the value of a released reference is still emitted"})
	})
	ck.Do("invalid", "an acquisition that reports itself released wakes the resolver and its value is withdrawn before the next acquisition", func(o *Obl) {
		signal := anyOf(calls("close"), dynCall("broadcast", "<func()>"))
		wake := func(c *Ctx, ev *Event) bool {
			if !calls("Broadcast.HoldLock", "Once.Do")(c, ev) {
				return signal(c, ev)
			}
			f := p.funcValue(execCall(ev).Args[1], 0)
			return f != nil && ck.always(f, signal)
		}
		for _, f := range o.literalsGiven(access, dynCall(accGet), 1) {
			o.Path(PathRule{Root: f, Via: wake, What: "the resolver is not told that the value is invalid"})
		}
		o.closesOnce(dirPkg, access)
		if ck.reaches(access, recvFrom("makechan")) {
			o.Guard(GuardRule{Root: access, Effect: dynCall(accGet), Needs: []Pred{makesChan}, Reset: dynCall(accGet), What: "the signal of an earlier acquisition, which may have been given already, is used again"})
		}
		o.closesOnce(dirPkg, getter)
		o.Path(PathRule{Root: access, From: recvFrom("makechan", "*getWaitCh()"), Via: withdraw, Skip: anyOf(ended, lit("!Context.Err(<Context>)==nil")), Until: anyOf(dynCall(accGet), isExit), What: "the value that is invalid is not withdrawn"})
		for _, f := range []*ssa.Function{access, getter, keyedRef} {
			o.Path(PathRule{Root: f, From: rejected, Via: isExit, Forbid: blocks, What: "a rejected value is kept"})
		}
		const swap, cas = "Uint32.Swap(*)", "Uint32.CompareAndSwap(*)"
		mine := add + "(*)#0"
		if ck.reaches(getter, calls("Uint32.CompareAndSwap")) {
			o.Path(PathRule{Root: getter, From: accepted, Via: anyOf(lit(cas), allOf(withdraw, notP(calls("ResolverHandler.RemoveValue"))), callArgs("ResolverHandler.RemoveValue", hnd, mine)), Until: anyOf(dynCall(keyGet), waitSel, isExit), What: "the value that became invalid while it was emitted is not withdrawn"})
			o.Never(getter, allOf(calls("Uint32.CompareAndSwap"), notP(callArgs("Uint32.CompareAndSwap", "*", "0", mine))), "another value is withdrawn when it is invalid")
			o.Path(PathRule{Root: getter, From: lit(cas), Via: waitSel, What: "the value is released while it is needed"})
		}
		o.Never(getter, allOf(calls("Uint32.Store"), notP(callArgs("Uint32.Store", "*", "4294967295"))), "a release that came in meanwhile is lost")
		o.Guard(GuardRule{Root: getter, Effect: dynCall(keyGet), Needs: []Pred{anyOf(dynCall("getWaitCh", "<func() <-chan struct{}>"), makesChan)}, Reset: waitSel, What: "a value that becomes invalid is missed"})
		o.Path(PathRule{Root: getter, From: waitSel, Via: withdraw, Skip: isExit, Until: dynCall(keyGet), What: "the value that is invalid is not withdrawn"})
		for _, f := range o.literalsGiven(getter, dynCall(keyGet), 2) {
			if !ck.reaches(f, calls("Uint32.Swap")) {
				o.Path(PathRule{Root: f, Via: wake, What: "the resolver is not told that the value is invalid"})
				continue
			}
			if !ck.reaches(getter, calls("Uint32.CompareAndSwap")) {
				o.Fail("publish", getter.Pos(), nil, "the value that was emitted is not known to what invalidates it")
			}
			o.Path(PathRule{Root: f, Via: calls("Uint32.Swap"), What: "a value is not marked invalid"})
			old := lit(swap+"==0", "4294967295=="+swap, swap+"==4294967295")
			o.Path(PathRule{Root: f, From: calls("Uint32.Swap"), Via: wake, Skip: old, What: "the resolver is not told that the value is invalid"})
			o.Path(PathRule{Root: f, From: calls("Uint32.Swap"), Via: callArgs("ResolverHandler.RemoveValue", hnd, swap), Skip: old, Until: wake, What: "the value that is invalid is not withdrawn"})
			o.Guard(GuardRule{Root: f, Effect: calls("ResolverHandler.RemoveValue"), Needs: []Pred{lit("!" + swap + "==0"), lit("!4294967295=="+swap, "!"+swap+"==4294967295")}, What: "a value is withdrawn twice"})
		}
	})
	ck.Do("failed", "a failed acquisition is the error of the resolver and emits nothing; what was acquired is what is emitted", func(o *Obl) {
		for _, k := range []struct {
			f        *ssa.Function
			get, val string
			err      string
		}{
			{access, accGet, "0", "2"}, {getter, keyGet, "0", "2"}, {simple, simGet, "0", "1"},
			{keyedRef, "KeyedRefCountResolver.buildValue", "0", "1"},
		} {
			fail, ok := lit("!"+got(k.get, k.err)+"==nil"), lit(got(k.get, k.err)+"==nil")
			o.Path(PathRule{Root: k.f, From: fail, Via: isExit, Forbid: anyOf(notReturning(k.get+"("), calls(add)), What: "a failed acquisition is not returned"})
			free := lit(k.get + "==nil")
			o.Guard(GuardRule{Root: k.f, Effect: calls(add), Needs: []Pred{ok}, Free: free, What: "something is emitted although acquiring it failed"})
			vals := got(k.get, k.val)
			if k.f == keyedRef {
				vals += "|KeyedRefCount.AddKeyRef(*)#1"
			}
			o.Never(k.f, allOf(calls(add), notP(callArgs(add, hnd, vals))), "something else is emitted")
		}
		for _, f := range append(refLits(o), keyedRef) {
			build := "RefCountResolver.buildValue"
			if f == keyedRef {
				build = "KeyedRefCountResolver.buildValue"
			}
			fail := lit("!" + got(build, "1") + "==nil")
			o.Path(PathRule{Root: f, From: fail, Via: isExit, Forbid: anyOf(notReturning(build+"("), calls(add)), What: "a failed acquisition is not returned"})
			o.Path(PathRule{Root: f, From: lit("!" + build + "==nil"), Via: dynCallArgs(build, "<Context>", "<T>|KeyedRefCount.AddKeyRef(*)#1"), What: "the value is not built"})
			o.Path(PathRule{Root: f, From: lit("!" + build + "==nil"), Via: isExit, Forbid: allOf(calls(add), notP(callArgs(add, "*", got(build, "0")))), What: "a value is emitted that was not built"})
			o.Never(f, allOf(calls(add), notP(callArgs(add, "*", got(build, "0")+"|<T>|KeyedRefCount.AddKeyRef(*)#1"))), "something else is emitted")
			o.Path(PathRule{Root: f, From: lit("!" + got(build, "0") + "==nil"), Via: calls(add), What: "what was built is not emitted"})
		}
		o.Path(PathRule{Root: simple, From: lit(got(simGet, "1") + "==nil"), Via: calls(add), What: "what was acquired is not emitted"})
		o.Path(PathRule{Root: access, From: lit(got(accGet, "2") + "==nil"), Via: calls(add), What: "what was acquired is not emitted"})
		o.Path(PathRule{Root: getter, From: lit("!"+got(keyGet, "0")+"==zero", "!zero=="+got(keyGet, "0")), Via: calls(add), What: "what was acquired is not emitted"})
		o.Never(keyedRef, allOf(calls("KeyedRefCount.AddKeyRef"), notP(callArgs("KeyedRefCount.AddKeyRef", "KeyedRefCountResolver.rc", "KeyedRefCountResolver.key"))), "another key is acquired")
		o.Never(getter, allOf(dynCall(keyGet), notP(dynCallArgs(keyGet, "<Context>", "KeyedGetterResolver.key", "closure*|var:func*"))), "another key is acquired")
		o.Never(access, allOf(dynCall(accGet), notP(dynCallArgs(accGet, "<Context>", "closure*|var:func*|sync.OnceFunc(*)"))), "the value is accessed with another context")
		o.Never(simple, allOf(dynCall(simGet), notP(dynCallArgs(simGet, "<Context>"))), "the value is got with another context")
		fn := p.Method(dirPkg, "FuncResolver", "Resolve")
		run := dynCallArgs("FuncResolver.fn", "<Context>", hnd)
		o.Path(PathRule{Root: fn, Via: run, Skip: lit("FuncResolver.fn==nil"), What: "the function is not called"})
		o.Path(PathRule{Root: fn, From: run, Via: isExit, Forbid: notReturning("FuncResolver.fn("), What: "the result of the function is not returned"})
		vals := p.Method(dirPkg, "ValueResolver", "Resolve")
		const list = "ValueResolver.vals"
		all := lit("len("+list+")==ResolverHandler.CountValues(<ResolverHandler>,false)", "ResolverHandler.CountValues(<ResolverHandler>,false)==len("+list+")")
		o.ForEach(ForEachRule{Root: vals, Coll: []string{list}, Must: callArgs(add, hnd, list+"[]"), What: "a value is not emitted"})
		o.Path(PathRule{Root: vals, Via: anyOf(done(list), empty(list)), Skip: all, What: "a value is not emitted"})
		o.Never(vals, allOf(calls(add), notP(callArgs(add, hnd, list+"[]"))), "something else is emitted")
		o.Path(PathRule{Root: vals, From: lit("!ResolverHandler.CountValues(<ResolverHandler>,false)==0"), Via: calls("ResolverHandler.ClearValues"), Skip: all, Until: calls(add), What: "a value is emitted twice"})
	})
	ck.Inside = ""
}

// makesChan: a channel is made.
func makesChan(c *Ctx, ev *Event) bool {
	_, ok := ev.Instr.(*ssa.MakeChan)
	return ok && ev.Kind == KInstr
}

func checkR04(ck *Check) {
	p := ck.P
	r := p.Method(dirPkg, "RetryResolver", "Resolve")
	ck.Inside = dirPkg
	const inner, next = "Resolver.Resolve(*)", "BackOff.NextBackOff(*)"
	run := callArgs("Resolver.Resolve", "RetryResolver.res", "<Context>", "<ResolverHandler>")
	again := calls("Resolver.Resolve")
	ok, failed := lit(inner+"==nil"), lit("!"+inner+"==nil")
	ended := anyOf(recvFrom("Context.Done(<Context>)"), lit("!Context.Err(<Context>)==nil"))
	stop := lit("-1=="+next, next+"==-1")
	goesOn := anyOf(lit("!-1=="+next, "!"+next+"==-1"))
	ck.Do("run", "the inner resolver runs with the context and handler of the retrying one, which returns when it succeeds", func(o *Obl) {
		o.Path(PathRule{Root: r, Via: run, What: "the inner resolver does not run"})
		o.Never(r, allOf(again, notP(run)), "another resolver runs, or with another context or handler")
		o.Path(PathRule{Root: r, From: ok, Via: isExit, Forbid: anyOf(again, blocks, notReturningNil), What: "the resolver goes on although the inner one succeeded"})
		o.Path(PathRule{Root: r, From: ok, Via: calls("BackOff.Reset"), What: "the backoff is not reset after a success"})
		o.Guard(GuardRule{Root: r, Effect: calls("BackOff.Reset"), Needs: []Pred{ok}, Optional: true, What: "the backoff is reset although the inner resolver failed"})
		o.Guard(GuardRule{Root: r, Effect: allOf(isExit, notP(notReturningNil)), Needs: []Pred{ok}, Optional: true, What: "success is returned although the inner resolver failed"})
	})
	ck.Do("backoff", "after an error the next interval of the backoff is waited for, and a backoff that stops ends it with the error", func(o *Obl) {
		wait := anyOf(recvFrom("Timer.C", "time.After("+next+")"), callArgs("time.Sleep", next))
		o.Path(PathRule{Root: r, From: failed, Via: wait, Until: again, Skip: isExit, What: "the resolver runs again without waiting for the backoff"})
		o.Path(PathRule{Root: r, From: failed, Via: again, Skip: anyOf(ended, stop), What: "the resolver does not run again after an error"})
		o.Never(r, allOf(calls("time.NewTimer", "time.After", "time.Sleep"), notP(callArgs("time.NewTimer|time.After|time.Sleep", next))), "another time is waited")
		o.Guard(GuardRule{Root: r, Effect: calls("time.NewTimer", "time.After", "time.Sleep"), Needs: []Pred{goesOn}, Reset: again, What: "the backoff is not stopped"})
		o.Path(PathRule{Root: r, From: stop, Via: isExit, Forbid: anyOf(again, notReturning("Resolver.Resolve(")), What: "the error is not returned when the backoff stops"})
		o.Never(r, allOf(calls("BackOff.NextBackOff"), notP(callArgs("BackOff.NextBackOff", "RetryResolver.bo"))), "another backoff is used")
	})
	ck.Do("ends", "the resolver ends when its context is canceled", func(o *Obl) {
		o.Path(PathRule{Root: r, From: failed, Via: anyOf(polls("Context.Done(<Context>)"), calls("Context.Err")), Until: anyOf(again, calls("BackOff.NextBackOff")), Skip: isExit, What: "a canceled resolver runs again"})
		o.Path(PathRule{Root: r, From: ended, Via: isExit, Forbid: anyOf(again, notReturning("Canceled", "Context.Err(", "Resolver.Resolve(")), What: "the resolver does not end when it is stopped"})
		drains := recvFrom("Timer.C")
		o.Never(r, allOf(uninterruptible("Context.Done(<Context>)"), notP(drains)), "waiting does not end when the resolver is stopped")
		o.Guard(GuardRule{Root: r, Effect: allOf(uninterruptible("Context.Done(<Context>)"), drains), Needs: []Pred{lit("!Timer.Stop(*)")}, Reset: calls("time.NewTimer"), Optional: true, What: "waiting does not end when the resolver is stopped"})
	})
	ck.Inside = ""
}

// polls: a select (with or without a default) on the channel.
func polls(ch string) Pred {
	return func(c *Ctx, ev *Event) bool {
		sel, ok := ev.Instr.(*ssa.Select)
		if !ok || ev.Kind != KInstr {
			return recvFrom(ch)(c, ev)
		}
		for _, s := range sel.States {
			if glob(ch, c.StrV(s.Chan)) {
				return true
			}
		}
		return false
	}
}

// notForeign: a comparison of the result with a value that nobody else can return.
func privateCase(call string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge {
			return false
		}
		if lit("var:bool*", "!var:bool*", "phi:bool*")(c, ev) {
			return true
		}
		if ev.Lit.Op != "eq" || !ev.Lit.Truth {
			return lit("errors.Is("+call+",*)")(c, ev) && !lit("errors.Is("+call+",EOF)", "errors.Is("+call+",context.*)")(c, ev)
		}
		x, y := c.Resolve(ev.Lit.X), c.Resolve(ev.Lit.Y)
		if !glob(call, c.Str(x)) {
			x, y = y, x
		}
		if !glob(call, c.Str(x)) {
			return false
		}
		if glob("errors.New(*)", c.Str(y)) {
			return true
		}
		g, ok := globalOf(y.V)
		return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/"+dirPkg && !g.Object().Exported()
	}
}

// unbuffered: a channel without a buffer is waited for.
func unbuffered(c *Ctx, ev *Event) bool {
	sel, ok := ev.Instr.(*ssa.Select)
	if !ok || ev.Kind != KInstr {
		return false
	}
	for _, s := range sel.States {
		if mk, ok := c.Resolve(Val{c.S.F, s.Chan}).V.(*ssa.MakeChan); ok {
			if k, ok := mk.Size.(*ssa.Const); !ok || k.Int64() < 1 {
				return true
			}
		}
	}
	return false
}

func globalOf(v ssa.Value) (*ssa.Global, bool) {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	g, ok := v.(*ssa.Global)
	return g, ok
}

func checkR02(ck *Check) {
	p := ck.P
	const add, rem, hnd, watch = "ResolverHandler.AddValue", "ResolverHandler.RemoveValue", "<ResolverHandler>", "ccontainer.WatchChanges(*)"
	const id, val = "var:uint32", "<T>"
	empty, nonEmpty := both(val, "var:T")
	ck.Inside = dirPkg
	type watcher struct {
		typ  string
		r    *ssa.Function
		cb   []*ssa.Function
		xfrm string
	}
	ws := []watcher{{typ: "WatchableResolver"}, {typ: "WatchableTransformResolver", xfrm: "WatchableTransformResolver.xfrm"}}
	for i := range ws {
		ws[i].r = p.Method(dirPkg, ws[i].typ, "Resolve")
	}
	callbacks := func(o *Obl, w watcher) []*ssa.Function {
		return o.literalsGiven(w.r, calls("ccontainer.WatchChanges"), 3)
	}
	ck.Do("watch", "a watching resolver starts from nothing, watches its container until it is stopped, and returns the errors of the container", func(o *Obl) {
		for _, w := range ws {
			good := callArgs("ccontainer.WatchChanges", "<Context>", "var:T|zero|nil", w.typ+".ctr", "*", "*")
			o.Path(PathRule{Root: w.r, Via: good, What: "the container is not watched"})
			o.Never(w.r, allOf(calls("ccontainer.WatchChanges"), notP(good)), "something else is watched")
			o.Guard(GuardRule{Root: w.r, Effect: calls("ccontainer.WatchChanges"), Needs: []Pred{calls("ResolverHandler.ClearValues")}, What: "values of an earlier execution are kept"})
			o.Never(w.r, storeTo("var:T"), "the initial state is not empty")
			o.Path(PathRule{Root: w.r, From: calls("ccontainer.WatchChanges"), Via: isExit, Skip: privateCase(watch), Forbid: notReturning("ccontainer.WatchChanges("), What: "an error of the source or of the transformation is not returned"})
		}
	})
	ck.Do("mirror", "the value emitted before is withdrawn before the next one is emitted, and each current value that is not empty is emitted", func(o *Obl) {
		for _, w := range ws {
			for _, f := range callbacks(o, w) {
				was := anyOf(lit(id+"==0"), callArgs(rem, hnd, id), calls("ResolverHandler.ClearValues"))
				result := val
				next := calls(add)
				if w.xfrm != "" {
					next = anyOf(next, dynCall(w.xfrm))
					result = "dyn:" + w.xfrm + "(*)#0"
				}
				o.Path(PathRule{Root: f, Via: was, Until: anyOf(next, isExit), What: "the value that was emitted before is not withdrawn"})
				o.Never(f, allOf(calls(rem), notP(callArgs(rem, hnd, id))), "another value is withdrawn")
				emit := callArgs(add, hnd, result)
				o.Never(f, allOf(calls(add), notP(emit)), "something else is emitted")
				o.Path(PathRule{Root: f, From: calls(add), Via: isExit, Skip: anyOf(lit("!"+add+"(*)#1"), calls(rem)), Forbid: calls(add), What: "a value is emitted twice"})
				rejected := lit("!" + add + "(*)#1")
				o.Path(PathRule{Root: f, From: anyOf(calls(rem), calls(add)), Via: storeTo(id), Skip: rejected, What: "the value that is emitted is not remembered"})
				o.Path(PathRule{Root: f, From: calls(add), Via: storeTo(id, add+"(*)#0"), Skip: rejected, What: "the value that is emitted is not remembered"})
				o.Never(f, allOf(storeTo(id), notP(storeTo(id, "0", add+"(*)#0"))), "another value is remembered")
				o.Path(PathRule{Root: f, From: calls(add), Via: isExit, Forbid: storeTo(id, "0"), Skip: lit("!" + add + "(*)#1"), What: "the value that is emitted is forgotten"})
				o.Guard(GuardRule{Root: f, Effect: next, Needs: []Pred{nonEmpty}, What: "an empty value is emitted"})
				if w.xfrm == "" {
					o.Path(PathRule{Root: f, From: nonEmpty, Via: emit, What: "the current value is not emitted"})
				} else {
					xf := dynCallArgs(w.xfrm, "<Context>", val)
					ok, fail := "dyn:"+w.xfrm+"(*)#1", "dyn:"+w.xfrm+"(*)#2"
					o.Path(PathRule{Root: f, From: nonEmpty, Via: xf, What: "the current value is not transformed"})
					o.Never(f, allOf(dynCall(w.xfrm), notP(xf)), "something else is transformed")
					o.Path(PathRule{Root: f, From: lit(ok), Via: emit, Skip: lit("!" + fail + "==nil"), What: "the transformed value is not emitted"})
					o.Guard(GuardRule{Root: f, Effect: calls(add), Needs: []Pred{lit(ok), lit(fail + "==nil")}, What: "a value is emitted although transforming it failed or dropped it"})
					o.Path(PathRule{Root: f, From: lit("!" + fail + "==nil"), Via: isExit, Forbid: anyOf(calls(add), notReturning(w.xfrm+"(")), What: "a failed transformation is not returned"})
				}
				o.Path(PathRule{Root: f, From: lit(add + "(*)#1"), Via: isExit, Forbid: notReturningNil, What: "watching ends although the value was accepted"})
				o.Path(PathRule{Root: f, From: empty, Via: isExit, Forbid: notReturningNil, What: "watching ends when there is no value"})
			}
		}
	})
	const has, was, k = "has(makemap,<K>)", "makemap[<K>]", "<K>"
	const vadd, vrem, vhnd, xfrm = "ValueHandler.AddValue", "ValueHandler.RemoveValue", "<ValueHandler>", "<func(K, V) (O, bool)>"
	added, notRemoved := lit("<bool>"), lit("!<bool#2>")
	for _, name := range []string{"NewUniqueListResolver", "NewUniqueListXfrmResolver", "NewUniqueMapResolver", "NewUniqueMapXfrmResolver"} {
		f := p.Func(dirPkg, name)
		transforms := strings.Contains(name, "Xfrm")
		ck.Do("keyed:"+name, "each item of the list or map has one value, withdrawn when the item changes or disappears", func(o *Obl) {
			ctor, n := "unique.NewKeyedList", 2
			good := callArgs(ctor, "<func(V) K>", "<func(K, V, V) bool>", "*", "nil")
			if strings.Contains(name, "Map") {
				ctor, n = "unique.NewKeyedMap", 1
				good = callArgs(ctor, "<func(K, V, V) bool>", "*", "nil")
			}
			o.Path(PathRule{Root: f, Via: good, What: "the items are not compared as requested, or those present initially are not emitted"})
			for _, cb := range o.literalsGiven(f, calls(ctor), n) {
				result, next := "<V>", calls(vadd)
				if transforms {
					result, next = "dyn:"+xfrm+"(*)#0", anyOf(calls(vadd), dynCall(xfrm))
					xf := dynCallArgs(xfrm, k, "<V>")
					o.Never(cb, allOf(dynCall(xfrm), notP(xf)), "something else is transformed")
					o.Path(PathRule{Root: cb, From: lit("dyn:" + xfrm + "(*)#1"), Via: callArgs(vadd, vhnd, result), What: "a transformed item is not emitted"})
					o.Guard(GuardRule{Root: cb, Effect: calls(vadd), Needs: []Pred{lit("dyn:" + xfrm + "(*)#1")}, What: "an item is emitted that was dropped"})
				}
				none := lit("!"+has, was+"==0")
				withdraw := callArgs(vrem, vhnd, was)
				o.Path(PathRule{Root: cb, From: lit("!<bool>"), Via: anyOf(none, withdraw), Disarm: anyOf(none, withdraw), Until: anyOf(next, isExit), What: "the value of an item that changed or disappeared is not withdrawn"})
				o.Never(cb, allOf(calls(vrem), notP(withdraw)), "another value is withdrawn")
				o.Path(PathRule{Root: cb, From: withdraw, Disarm: mapDel("makemap", k), Via: anyOf(mapDel("makemap", k), mapPut("makemap", k, vadd+"(*)#0")), What: "a value that was withdrawn is still remembered"})
				o.Path(PathRule{Root: cb, From: mapDel("makemap", "*"), Disarm: withdraw, Via: withdraw, Optional: true, What: "a value is forgotten that was not withdrawn"})
				o.Never(cb, allOf(mapDel("makemap", "*"), notP(mapDel("makemap", k))), "the value of another item is forgotten")
				emit := callArgs(vadd, vhnd, result)
				want := emit
				if transforms {
					want = dynCall(xfrm)
				}
				o.Path(PathRule{Root: cb, From: added, Via: want, What: "an item is not emitted"})
				o.Path(PathRule{Root: cb, From: notRemoved, Via: want, What: "an item that changed is not emitted"})
				o.Never(cb, allOf(calls(vadd), notP(emit)), "something else is emitted")
				o.Path(PathRule{Root: cb, From: calls(vadd), Via: isExit, Skip: anyOf(lit("!"+vadd+"(*)#1"), withdraw), Forbid: calls(vadd), What: "an item is emitted twice"})
				o.Guard(GuardRule{Root: cb, Effect: next, Needs: []Pred{anyOf(added, notRemoved)}, What: "an item that disappeared is emitted"})
				put := mapPut("makemap", k, vadd+"(*)#0")
				o.Path(PathRule{Root: cb, From: lit(vadd + "(*)#1"), Via: put, What: "the value of an item is not remembered"})
				o.Never(cb, allOf(mapPut("makemap", "*", "*"), notP(put)), "another value is remembered")
				o.Guard(GuardRule{Root: cb, Effect: put, Needs: []Pred{lit(vadd + "(*)#1")}, What: "a value is remembered that was rejected"})
			}
		})
	}
	ck.Inside = ""
}

func checkR03(ck *Check) {
	p := ck.P
	const add, rem, hnd = "ResolverHandler.AddValue", "ResolverHandler.RemoveValue", "<ResolverHandler>"
	ck.Inside = dirPkg
	for _, k := range []struct{ typ, ctor, av string }{
		{"TransformResolver", "directive.NewCallbackHandler", "AttachedValue"},
		{"TypedTransformResolver", "directive.NewTypedCallbackHandler", "TypedAttachedValue"},
	} {
		r := p.Method(dirPkg, k.typ, "Resolve")
		src := k.av + ".GetValueID(<" + k.av + "*>)"
		xfrm := k.typ + ".xfrm"
		res := func(n string) string { return "dyn:" + xfrm + "(*)#" + n }
		id := add + "(*)#0"
		accepted := lit(add + "(*)#1")
		errs := func(v ...string) Pred { return sentValue(v...) }
		added := func(o *Obl) *ssa.Function { return o.litArg(r, 0, k.ctor) }
		ck.Do(k.typ+":pair", "each source value is transformed and emitted once, paired by the id of the source value, and exactly its value is removed with it", func(o *Obl) {
			f, g := added(o), o.litArg(r, 1, k.ctor)
			xf := dynCallArgs(xfrm, "<Context>", "<"+k.av+"*>")
			o.Path(PathRule{Root: f, Via: xf, Skip: lit(xfrm + "==nil"), What: "a value is not transformed"})
			o.Never(f, allOf(dynCall(xfrm), notP(xf)), "something else is transformed")
			emits := []string{res("0")}
			if k.typ == "TransformResolver" {
				plain := "AttachedValue.GetValue(<AttachedValue>).(T)"
				emits = append(emits, plain)
				o.Path(PathRule{Root: f, From: lit(xfrm + "==nil"), Via: callArgs(add, hnd, plain), Skip: lit("!is(AttachedValue.GetValue(<AttachedValue>),T)"), What: "a value is not passed on"})
				o.Path(PathRule{Root: f, From: lit("!" + xfrm + "==nil"), Via: isExit, Forbid: callArgs(add, "*", plain), What: "a value is passed on that was not transformed"})
			}
			o.Path(PathRule{Root: f, From: lit(res("2")), Via: callArgs(add, hnd, res("0")), Skip: lit("!" + res("3") + "==nil"), What: "a transformed value is not emitted"})
			o.Guard(GuardRule{Root: f, Effect: calls(add), Needs: []Pred{lit(res("2"), xfrm+"==nil"), lit(res("3")+"==nil", xfrm+"==nil")}, What: "a value is emitted although transforming it failed or dropped it"})
			o.Never(f, allOf(calls(add), notP(callArgs(add, hnd, strings.Join(emits, "|")))), "something else is emitted")
			put := mapPut("*map*", src, id)
			o.Path(PathRule{Root: f, From: accepted, Via: put, What: "the emitted value is not paired with its source"})
			o.Never(f, allOf(mapPut("*", "*", "*"), notP(put)), "the emitted value is paired with something else")
			o.Guard(GuardRule{Root: f, Effect: mapPut("*", "*", "*"), Needs: []Pred{accepted}, What: "a value is paired that was rejected"})
			has, val := "has(*map*,"+src+")", "*map*["+src+"]"
			o.Path(PathRule{Root: g, Via: anyOf(callArgs(rem, hnd, val), lit("!"+has, val+"==0")), What: "the value of a removed source value is not removed"})
			o.Never(g, allOf(calls(rem, "ResolverHandler.ClearValues"), notP(callArgs(rem, hnd, val))), "another value is removed")
			o.Path(PathRule{Root: g, From: lit(has, "!"+val+"==0"), Via: mapDel("*map*", src), What: "a removed value stays paired"})
			o.Never(g, allOf(mapDel("*", "*"), notP(mapDel("*map*", src))), "another pair is removed")
		})
		ck.Do(k.typ+":release", "the release function of each transformed value is called or handed on exactly once", func(o *Obl) {
			f := added(o)
			o.life(f, acq{get: dynCall(xfrm), rel: res("1"), what: "the transformed value"})
			o.Path(PathRule{Root: f, From: accepted, Via: callArgs("ResolverHandler.AddValueRemovedCallback", hnd, id, res("1")+"|sync.OnceFunc("+res("1")+")"), Skip: lit(res("1")+"==nil", "nil==nil", xfrm+"==nil"), What: "the transformed value is not released when the emitted value is removed"})
			o.Never(f, allOf(calls("ResolverHandler.AddValueRemovedCallback"), notP(callArgs("ResolverHandler.AddValueRemovedCallback", hnd, id, "*"))), "the transformed value is released with another value")
		})
		ck.Do(k.typ+":errors", "errors of the transformation and of the source directive, and its end, end the resolver; its idle state is passed on", func(o *Obl) {
			f, gone, idle := added(o), o.litArg(r, 2, k.ctor), o.litArg(r, 1, "Instance.AddIdleCallback")
			o.Path(PathRule{Root: f, From: lit("!" + res("3") + "==nil"), Via: errs(res("3")), What: "a failed transformation does not end the resolver"})
			o.Path(PathRule{Root: gone, Via: errs("ErrDirectiveDisposed"), What: "the end of the source directive does not end the resolver"})
			o.ForEach(ForEachRule{Root: idle, Coll: []string{"<[]error>"}, Must: errs("<[]error>[]"), Skip: lit("<[]error>[]==nil"), Leave: errs("<[]error>[]"), What: "an error of the source directive does not end the resolver"})
			o.Path(PathRule{Root: idle, Via: anyOf(callArgs("ResolverHandler.MarkIdle", hnd, "<bool>"), errs("<[]error>[]")), What: "the idle state of the source directive is not passed on"})
			o.Guard(GuardRule{Root: idle, Effect: calls("ResolverHandler.MarkIdle"), Needs: []Pred{anyOf(done("<[]error>"), empty("<[]error>"), errs("<[]error>[]"))}, What: "an error of the source directive is ignored"})
			o.Never(idle, allOf(calls("ResolverHandler.MarkIdle"), notP(callArgs("ResolverHandler.MarkIdle", hnd, "<bool>"))), "another idle state is passed on")
			for _, c := range []*ssa.Function{f, o.litArg(r, 1, k.ctor), gone, idle} {
				o.Never(c, blocks, "a callback blocks the source directive")
			}
			o.Path(PathRule{Root: r, From: recvFrom("makechan"), Via: isExit, Forbid: notReturning("<-makechan"), What: "the error is not returned"})
			o.Never(r, unbuffered, "an error that is reported before it is waited for is lost")
			o.Never(r, uninterruptible("Context.Done(<Context>)"), "the resolver does not end when it is stopped")
			ok := lit("DirectiveAdder.AddDirective(*)#2==nil")
			o.Path(PathRule{Root: r, From: ok, Via: selectsOn("Context.Done(<Context>)", "makechan"), Until: anyOf(calls("Reference.Release"), isExit), What: "the source directive is released while it is needed"})
			if k.typ == "TypedTransformResolver" {
				o.Path(PathRule{Root: r, From: lit(xfrm + "==nil"), Via: isExit, Forbid: anyOf(calls("DirectiveAdder.AddDirective"), exitWith(func(c *Ctx, x []Val) bool { return c.W.nilness(c.S.env, x[0]) == 1 })), What: "a resolver without a transformation does not fail"})
			}
		})
		ck.Do(k.typ+":withdraw", "the source directive is released and everything withdrawn when the resolver ends, also what is added meanwhile", func(o *Obl) {
			f := added(o)
			good := callArgs("DirectiveAdder.AddDirective", k.typ+".adder", k.typ+".dir", "*")
			o.Path(PathRule{Root: r, Via: good, Skip: lit(xfrm + "==nil"), What: "the source directive is not added"})
			o.Never(r, allOf(calls("DirectiveAdder.AddDirective"), notP(good)), "another directive is added")
			ok := lit("DirectiveAdder.AddDirective(*)#2==nil")
			o.Path(PathRule{Root: r, From: lit("!DirectiveAdder.AddDirective(*)#2==nil"), Via: isExit, Forbid: notReturning("DirectiveAdder.AddDirective("), What: "the error of adding the directive is not returned"})
			o.Path(PathRule{Root: r, From: ok, Via: callArgs("Reference.Release", "DirectiveAdder.AddDirective(*)#1"), Until: calls("ResolverHandler.ClearValues"), What: "the source directive is not released before its values are withdrawn"})
			o.Path(PathRule{Root: r, From: ok, Via: calls("ResolverHandler.ClearValues"), What: "the values are not withdrawn"})
			o.Path(PathRule{Root: r, From: ok, Via: callArgs("Instance.AddIdleCallback", "DirectiveAdder.AddDirective(*)#0", "*"), Until: waitSel, What: "the idle state is not passed on"})
			o.Path(PathRule{Root: r, From: calls("Instance.AddIdleCallback"), Via: dynCall("Instance.AddIdleCallback(*)"), What: "the idle state is passed on after the resolver ended"})
			o.Path(PathRule{Root: r, From: ok, Via: callArgs("Bool.Store", "*", "true"), Until: calls("ResolverHandler.ClearValues"), What: "a value added while returning is kept"})
			o.Never(r, allOf(calls("Bool.Store"), notP(callArgs("Bool.Store", "*", "true"))), "a value added while returning is kept")
			o.Path(PathRule{Root: f, From: accepted, Via: anyOf(lit("!load(*)", "!Bool.Load(*)"), callArgs(rem, hnd, id)), What: "a value added while returning is kept"})
		})
	}
	ck.Inside = ""
}

func init() {
	register("R01", "path-sensitive typestate of acquisitions (resource life cycle) and must-call rules over the resolver adaptors", checkR01)
	register("R02", "path rules and pairing of values with items over the change callbacks of the watching resolvers", checkR02)
	register("R03", "path rules, pairing of ids and typestate of releases over the callbacks of the transform resolvers", checkR03)
	register("R04", "path rules over the retry loop", checkR04)
}

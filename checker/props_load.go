package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storedIn returns the nilness of the value that an event stores in a field (0 unknown, 1 nil, 2 not nil), -1 if it does not.
func storedIn(c *Ctx, ev *Event, field string) int {
	if !storeTo(field)(c, ev) {
		return -1
	}
	st, ok := ev.Instr.(*ssa.Store)
	if !ok {
		return -1
	}
	return int(c.W.nilness(c.S.env, Val{c.S.F, st.Val}))
}

// uninterruptible: a blocking operation that does not end when one of the channels is closed.
func uninterruptible(done ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if !blocks(c, ev) {
			return false
		}
		switch x := ev.Instr.(type) {
		case *ssa.Select:
			for _, s := range x.States {
				if globAny(done, c.StrV(s.Chan)) {
					return false
				}
			}
		case *ssa.UnOp:
			return !globAny(done, c.StrV(x.X))
		}
		return true
	}
}

func checkL01(ck *Check) {
	p := ck.P
	r := p.Method(loaderPkg, "resolver", "Resolve")
	const (
		add      = "ResolverHandler.AddValue"
		factory  = "ExecController.GetExecControllerFactory(*)"
		conf     = "ExecController.GetExecControllerConfig(*)"
		built    = "Factory.Construct(*)#0"
		buildErr = "Factory.Construct(*)#1"
		ran      = "Bus.ExecuteController(*)"
		custom   = "ExecController.GetExecControllerRetryBackoff(*)"
		next     = "BackOff.NextBackOff(*)"
		ctrlF    = "execControllerValue.ctrl"
		errF     = "execControllerValue.err"
	)
	construct, execute := calls("Factory.Construct"), calls("Bus.ExecuteController")
	buildFailed, runFailed := lit("!"+buildErr+"==nil"), lit("!"+ran+"==nil")
	buildOK, runOK := lit(buildErr+"==nil"), lit(ran+"==nil")
	noCtrl := lit(built+"==nil", "var:Controller==nil")
	ended := anyOf(lit("!Context.Err(<Context>)==nil"), recvFrom("Context.Done(<Context>)"))
	withdraw := anyOf(calls("ResolverHandler.ClearValues"), calls("ResolverHandler.RemoveValue"))
	handed := calls("ResolverHandler.AddValueRemovedCallback", "ResolverHandler.AddResolverRemovedCallback")
	closes, removes := calls("Controller.Close"), calls("Bus.RemoveController")
	ck.Inside = loaderPkg
	ck.Do("run", "the controller is constructed from the factory and configuration of the request, and executed until the resolver is stopped", func(o *Obl) {
		good := callArgs("Factory.Construct", factory, "<Context>", conf, "*")
		o.Path(PathRule{Root: r, Via: good, What: "the controller is not constructed"})
		o.Never(r, allOf(construct, notP(good)), "the controller is constructed from something else than the request, or with another context")
		run := callArgs("Bus.ExecuteController", "*.bus", "<Context>", built+"|var:Controller")
		o.Path(PathRule{Root: r, From: buildOK, Via: run, Skip: anyOf(noCtrl, recvFrom("Context.Done(<Context>)"), buildFailed), What: "the controller is not executed"})
		o.Never(r, allOf(execute, notP(run)), "another controller is executed, or it is not stopped when the resolver is stopped")
		h := p.Method(loaderPkg, "Controller", "HandleDirective")
		const dir = "Instance.GetDirective(<Instance>)"
		o.Path(PathRule{Root: h, From: lit("is(" + dir + ",ExecController)"), Via: storeTo("resolver.dir", dir+".(ExecController)"), What: "a request is not resolved"})
		o.Path(PathRule{Root: h, From: lit("is(" + dir + ",ExecController)"), Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool {
			return !glob("*newResolver(*|*new resolver*", c.Str(r[0])) && !strings.Contains(c.Str(r[0]), "esolver")
		}), What: "a request is not resolved"})
	})
	type state struct {
		ctrl, err int8 // nilness of the fields of the value being built
		shown     int8 // 1 a running controller is emitted
		over      bool // the execution ended
		pending   bool // a failure was not reported
		sealed    bool // the running state was emitted before the execution
	}
	ck.Do("state", "the running state is emitted before the controller is executed and withdrawn before anything is done after its execution failed or was canceled", func(o *Obl) {
		n := 0
		o.Monitor(r, state{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(state)
			if k := storedIn(c, ev, ctrlF); k >= 0 {
				s.ctrl = int8(k)
			}
			if k := storedIn(c, ev, errF); k >= 0 {
				s.err = int8(k)
			}
			bad := func(what string) {
				c.Violate("state", "%s: %s", fnName(r), what)
			}
			next := construct(c, ev) || execute(c, ev) || waitSel(c, ev)
			if s.shown == 1 && s.over && (next || ev.Kind == KExit) {
				bad("a controller is still reported as running after its execution ended")
			}
			switch {
			case calls(add)(c, ev):
				o.Site(ev.Instr)
				n++
				if s.ctrl == 1 && s.err == 1 {
					bad("a state is emitted with neither a controller nor an error")
				}
				if s.ctrl != 1 {
					if s.err != 1 {
						bad("a running controller is reported with an error")
					}
					if s.over {
						bad("a controller is reported as running that is not executed")
					}
					s.shown = 1
				}
				s.ctrl, s.err = 0, 0
			case withdraw(c, ev):
				s.shown = 0
			case execute(c, ev):
				if s.shown != 1 {
					bad("a controller is executed that is not reported as running")
				}
				s.over = true
			case construct(c, ev):
				s.over = false
			case ended(c, ev):
				// canceled
			case runOK(c, ev):
				if s.over && !s.sealed {
					s.over = false
				}
			}
			if lit("!Context.Err(<Context>)==nil")(c, ev) {
				s.sealed, s.over = true, true
			}
			if waitSel(c, ev) || withdraw(c, ev) {
				s.over = false
			}
			return s
		})
		if n < 2 {
			o.Fail("emits", r.Pos(), nil, "%s emits %d kinds of states, expected 2", fnName(r), n)
		}
		o.Path(PathRule{Root: p.Func(loaderPkg, "NewExecControllerValue"), Via: storeTo(ctrlF, "<Controller>"), What: "the state does not name the controller"})
		o.Path(PathRule{Root: p.Func(loaderPkg, "NewExecControllerValue"), Via: storeTo(errF, "<error>"), What: "the state does not tell the error"})
		for _, g := range [][2]string{{"GetController", ctrlF}, {"GetError", errF}} {
			o.Never(p.Method(loaderPkg, "execControllerValue", g[0]), exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != g[1] }), "the state reports something else")
		}
	})
	ck.Do("retry", "a failed construction or execution is reported as an error state and retried after a backoff, for as long as the request lives", func(o *Obl) {
		again := anyOf(construct, execute)
		stop := lit("-1=="+next, next+"==-1", "Stop=="+next, next+"==Stop")
		wait := anyOf(recvFrom("Timer.C", "*Timer*", "time.After(*)"), calls("time.Sleep"))
		zero := lit(next+"==0", "0=="+next, "!0<"+next, "!"+next+">0")
		for _, f := range []struct {
			lit  Pred
			err  string
			what string
		}{{buildFailed, buildErr, "construction"}, {runFailed, ran, "execution"}} {
			giveUp := anyOf(ended, stop)
			o.Path(PathRule{Root: r, From: f.lit, Via: storeTo(errF, f.err), Skip: anyOf(giveUp, zero), Until: anyOf(again, isExit, waitSel), What: "a failed " + f.what + " is not reported"})
			o.Path(PathRule{Root: r, From: f.lit, Via: calls("BackOff.NextBackOff"), Skip: ended, Until: anyOf(again, waitSel), What: "a failed " + f.what + " is retried without a backoff"})
			o.Path(PathRule{Root: r, From: f.lit, Via: wait, Skip: anyOf(giveUp, zero), Until: anyOf(again, isExit), What: "a failed " + f.what + " is retried without waiting"})
			o.Path(PathRule{Root: r, From: f.lit, Via: again, Skip: giveUp, What: "a failed " + f.what + " is not retried"})
			o.Path(PathRule{Root: r, From: f.lit, Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) == 1 }), Skip: again, What: "a failed " + f.what + " ends the resolver without an error"})
		}
		o.Path(PathRule{Root: r, From: storeTo(errF, buildErr, ran), Via: calls(add), Until: anyOf(again, isExit, waitSel, storeTo(errF)), What: "the error is not reported"})
		o.Never(r, allOf(storeTo(errF), notP(storeTo(errF, buildErr, ran, "nil"))), "another error is reported")
		o.Path(PathRule{Root: r, From: anyOf(storeTo(errF, ran), storeTo(errF, buildErr)), Via: withdraw, Skip: anyOf(lit("!"+add+"(*)#1"), ended), Until: again, What: "the error state is not withdrawn when the controller is started again"})
		o.Never(r, allOf(calls("time.NewTimer", "time.After", "time.Sleep"), notP(callArgs("time.NewTimer|time.After|time.Sleep", next+"|phi:Duration"))), "another time is waited")
		o.Never(r, uninterruptible("Context.Done(<Context>)"), "the backoff is not ended when the request ends")
		o.Guard(GuardRule{Root: r, Effect: calls("backoff.NewExponentialBackOff", "cbackoff.NewExponentialBackOff"), Needs: []Pred{lit(custom+"==nil", "dyn:"+custom+"()==nil")}, What: "the backoff of the request is not used"})
		o.Path(PathRule{Root: r, From: lit("!dyn:" + custom + "()==nil"), Via: isExit, Forbid: allOf(calls("BackOff.NextBackOff"), notP(callArgs("BackOff.NextBackOff", "dyn:"+custom+"()"))), What: "another backoff than that of the request is used"})
		o.Path(PathRule{Root: r, From: stop, Via: isExit, Forbid: anyOf(again, exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) == 1 })), What: "retrying goes on, or no error is returned, when the backoff ended"})
	})
	type life struct {
		open, attached, done, ok bool
	}
	ck.Do("close", "a constructed controller is closed and removed from the bus once it is no longer used, or when what it was emitted as is withdrawn", func(o *Obl) {
		o.Monitor(r, life{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(life)
			bad := func(key, what string) {
				c.Violate(key, "%s: %s", fnName(r), what)
			}
			switch {
			case construct(c, ev):
				if s.open {
					bad("replaced", "a controller is replaced that was not closed")
				}
				o.Site(ev.Instr)
				s = life{open: true}
			case buildFailed(c, ev), s.open && noCtrl(c, ev):
				s.open = false
			case execute(c, ev):
				if s.done {
					bad("used", "a controller is executed that was closed")
				}
				s.attached, s.ok = true, false
			case runFailed(c, ev):
				s.attached = false // the bus removed it
			case runOK(c, ev):
				s.ok = true
			case removes(c, ev):
				s.attached = false
			case closes(c, ev):
				if s.done {
					bad("twice", "a controller is closed twice")
				}
				if s.attached {
					bad("order", "a controller is closed that is attached to the bus")
				}
				s.open, s.done = false, true
			case handed(c, ev):
				if !s.ok {
					bad("handed", "closing is left to the removal of the state although the controller failed")
				}
				if s.done {
					bad("twice", "a controller is closed twice")
				}
				s.open, s.attached, s.done = false, false, true
			case ev.Kind == KExit:
				if s.open {
					bad("leak", "a constructed controller is not closed")
				}
				if s.attached {
					bad("attached", "a controller is not removed from the bus")
				}
			}
			return s
		})
		o.Guard(GuardRule{Root: r, Effect: calls("ResolverHandler.AddResolverRemovedCallback"), Needs: []Pred{lit("!" + add + "(*)#1")}, Optional: true, What: "a controller is not closed when what it was emitted as is withdrawn"})
		seen := map[*ssa.Function]bool{}
		lits := o.pkgLitsArg(loaderPkg, 2, "ResolverHandler.AddValueRemovedCallback")
		lits = append(lits, o.pkgLitsArg(loaderPkg, 1, "ResolverHandler.AddResolverRemovedCallback")...)
		for _, l := range lits {
			if seen[l] {
				continue
			}
			seen[l] = true
			ci := "var:Controller"
			o.Path(PathRule{Root: l, Via: callArgs("Controller.Close", ci), Skip: lit(ci + "==nil"), What: "the controller is not closed when its state is withdrawn"})
			o.Path(PathRule{Root: l, Via: callArgs("Bus.RemoveController", "*", ci), Skip: lit(ci + "==nil"), What: "the controller is not removed from the bus when its state is withdrawn"})
			o.Guard(GuardRule{Root: l, Effect: closes, Needs: []Pred{removes}, What: "a controller is closed that is attached to the bus"})
		}
		o.Never(r, allOf(calls("ResolverHandler.AddValueRemovedCallback"), notP(callArgs("ResolverHandler.AddValueRemovedCallback", "<ResolverHandler>", add+"(*)#0", "*"))), "closing is bound to another value")
	})
	ck.Do("wait", "waiting for a controller returns it only in a state with a controller and without an error, and never blocks the bus", func(o *Obl) {
		w := p.Func(loaderPkg, "WaitExecControllerRunning")
		ok := exitWith(func(c *Ctx, r []Val) bool {
			return c.W.nilness(c.S.env, r[3]) != 2 && !glob("Context.Err(*)", c.Str(r[3]))
		})
		o.Guard(GuardRule{Root: w, Effect: ok, Needs: []Pred{lit("!ExecControllerValue.GetController(*)==nil"), lit("ExecControllerValue.GetError(*)==nil")}, Reset: waitSel, What: "a controller counts as running that is not, or whose state has an error"})
		o.Path(PathRule{Root: w, From: lit("!ExecControllerValue.GetError(*)==nil"), Via: isExit, Forbid: notReturning("ExecControllerValue.GetError("), What: "the error is not returned"})
		o.Never(w, exitWith(func(c *Ctx, r []Val) bool {
			return c.W.nilness(c.S.env, r[3]) == 1 && !glob("ExecControllerValue.GetController(*)", c.Str(r[0]))
		}), "another controller is returned")
		if l := o.litArg(w, 0, "bus.NewCallbackHandler", "directive.NewCallbackHandler"); l != nil {
			o.Never(l, blocks, "the callback of the directive may block")
			o.Path(PathRule{Root: l, Via: anyOf(sends("*"), selectDefault("*")), Skip: lit("!is(*)", "AttachedValue.GetValue(*).(ExecControllerValue)*==nil"), What: "a state is not considered"})
			o.Never(l, allOf(sends("*"), notP(sentValue("*GetValue(<AttachedValue>)*"))), "another state is considered")
		}
		o.Never(w, uninterruptible("Context.Done(*)"), "waiting does not end with the context")
	})
	ck.Inside = ""
}

func init() {
	register("L01", "Typestate monitors over every path of the execution resolver: the emitted state, retries after failures, and closing of what was constructed", checkL01)
}

// selectsOn: a blocking select with a case for each of the channels.
func selectsOn(chans ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if !waitSel(c, ev) {
			return false
		}
		for _, ch := range chans {
			found := false
			for _, s := range ev.Instr.(*ssa.Select).States {
				found = found || globAny(strings.Split(ch, "|"), c.StrV(s.Chan))
			}
			if !found {
				return false
			}
		}
		return true
	}
}

func checkL02(ck *Check) {
	p := ck.P
	const (
		add     = "ResolverHandler.AddValue"
		conf    = "LoadControllerWithConfig.GetLoadControllerConfig(*)"
		local   = "FactoryResolver.GetFactoryMatchingConfig(*)"
		remote  = "bus.ExecOneOff(*)"
		found   = "AttachedValue.GetValue(" + remote + "#0).(Factory)"
		exec    = "Bus.AddDirective(*)"
		dirPkgs = resolverPkg + "|" + loaderPkg
	)
	r := p.Method(resolverPkg, "loadWithConfigResolver", "Resolve")
	start := calls("Bus.AddDirective")
	ck.Inside = dirPkgs
	ck.Do("lookup", "the factory for the configuration is looked up in the registry and then on the bus, and a failed lookup is returned", func(o *Obl) {
		look := callArgs("FactoryResolver.GetFactoryMatchingConfig", "loadWithConfigResolver.res", "<Context>", conf)
		o.Path(PathRule{Root: r, Via: look, What: "the factory is not looked up"})
		o.Never(r, allOf(calls("FactoryResolver.GetFactoryMatchingConfig"), notP(look)), "the factory of another configuration is looked up")
		o.Path(PathRule{Root: r, From: lit("!" + local + "#1==nil"), Via: isExit, Forbid: anyOf(notReturning("FactoryResolver.GetFactoryMatchingConfig("), start), What: "a failed lookup is not returned"})
		ask := callArgs("bus.ExecOneOff", "<Context>", "loadWithConfigResolver.bus", "new loadFactoryByConfig|*NewLoadFactoryByConfig(*)", "*", "*")
		o.Path(PathRule{Root: r, From: lit(local + "#0==nil"), Via: ask, What: "the factory is not looked up on the bus"})
		o.Never(r, allOf(storeTo("loadFactoryByConfig.loadConfig"), notP(storeTo("loadFactoryByConfig.loadConfig", conf))), "the factory of another configuration is looked up")
		o.Path(PathRule{Root: r, From: lit("!" + remote + "#3==nil"), Via: isExit, Forbid: anyOf(notReturning("bus.ExecOneOff("), start), What: "a failed lookup is not returned"})
		ex := p.Func(resolverPkg, "ExLoadFactoryByConfig")
		o.Never(ex, exitWith(func(c *Ctx, r []Val) bool {
			return c.W.nilness(c.S.env, r[2]) == 1 && !(glob(found, c.Str(r[0])) && glob(remote+"#2", c.Str(r[1])))
		}), "another factory or reference is returned")
	})
	ck.Do("exec", "the controller is executed with the factory, configuration and backoff of the request and what it emits is passed through", func(o *Obl) {
		good := callArgs("Bus.AddDirective", "loadWithConfigResolver.bus", "*", "bus.NewPassThruHandler(<ResolverHandler>,context.WithCancel*(<Context>)#1)|bus.NewPassThruHandler(<ResolverHandler>,closure*)")
		o.Path(PathRule{Root: r, From: lit("!"+local+"#0==nil", "!"+found+"==nil"), Via: good, Skip: lit("!" + local + "#1==nil"), What: "the controller is not executed"})
		o.Never(r, allOf(start, notP(good)), "something else is executed, or its values are not passed through")
		for _, f := range [][3]string{
			{"factory", local + "#0|" + found, "another factory is used"},
			{"config", conf, "another configuration is used"},
			{"retryBackoff", "LoadControllerWithConfig.GetExecControllerRetryBackoff(*)", "the backoff of the request is not used"},
		} {
			st := func(c *Ctx, ev *Event) bool {
				return storeTo("execController."+f[0], strings.Split(f[1], "|")...)(c, ev)
			}
			o.Guard(GuardRule{Root: r, Effect: start, Needs: []Pred{st}, What: f[2]})
			o.Never(r, allOf(storeTo("execController."+f[0]), notP(st)), f[2])
		}
		o.Guard(GuardRule{Root: r, Effect: start, Needs: []Pred{lit("!"+local+"#0==nil", "!"+found+"==nil")}, What: "a controller is executed without a factory"})
		failed := lit("!" + exec + "#2==nil")
		o.Path(PathRule{Root: r, From: failed, Via: anyOf(storeTo("execControllerValue.err", exec+"#2"), notReturningNil), What: "an execution that cannot be requested is not reported"})
		o.Path(PathRule{Root: r, From: storeTo("execControllerValue.err", exec+"#2"), Via: calls(add), What: "an execution that cannot be requested is not reported"})
		o.Never(r, allOf(storeTo("execControllerValue.err"), notP(storeTo("execControllerValue.err", exec+"#2"))), "another error is reported")
		o.Never(r, allOf(storeTo("execControllerValue.ctrl"), notP(storeTo("execControllerValue.ctrl", "nil"))), "a controller is reported that is not running")
		o.Guard(GuardRule{Root: r, Effect: calls(add), Needs: []Pred{failed}, What: "a state is emitted that is not that of the execution"})
	})
	ck.Do("released", "the execution and the factory are released, and the values end, when the resolver is stopped, the execution is disposed, the factory goes or the resolver controller is closed", func(o *Obl) {
		keeps := goCall()
		o.Path(PathRule{Root: r, From: lit("!" + found + "==nil"), Via: anyOf(keeps, callArgs("Reference.Release", remote+"#2")), Skip: lit(remote + "#2==nil"), What: "the factory is not released"})
		o.Path(PathRule{Root: r, From: lit(found + "==nil"), Via: anyOf(keeps, callArgs("Reference.Release", remote+"#2")), Skip: lit(remote + "#2==nil"), Optional: true, What: "the factory is not released"})
		o.Path(PathRule{Root: r, From: lit(exec + "#2==nil"), Via: anyOf(keeps, callArgs("Reference.Release", exec+"#1")), What: "the execution is not released"})
		o.Path(PathRule{Root: r, From: calls("context.WithCancel"), Via: anyOf(keeps, dynCall("context.WithCancel*(<Context>)#1")), What: "the context of the values is not canceled"})
		n := 0
		val, closed, gone := "Context.Done(context.WithCancel*(<Context>)#0)", "Context.Done(Controller.subCtx)", "Context.Done(var:Context*)|Context.Done(phi:Context*)"
		for _, g := range p.goSites(resolverPkg) {
			root := p.goTarget(g)
			if root == nil || !ck.reaches(root, calls("Reference.Release")) {
				continue
			}
			n++
			o.SiteName(fnName(root))
			execRef, facRef := exec+"#1", "*ExLoadFactoryByConfig(*)#1|"+remote+"#2|var:Reference|phi:Reference*"
			o.Path(PathRule{Root: root, Go: g, Via: callArgs("Reference.Release", execRef), What: "the execution is not released"})
			o.Path(PathRule{Root: root, Go: g, Via: callArgs("Reference.Release", facRef), Skip: lit("*ExLoadFactoryByConfig(*)#1==nil", remote+"#2==nil", "var:Reference==nil", "phi:Reference*==nil"), What: "the factory is not released"})
			o.Path(PathRule{Root: root, Go: g, Via: dynCall("context.WithCancel*(<Context>)#1"), What: "the values are not ended"})
			o.Path(PathRule{Root: root, Go: g, Via: selectsOn(val, closed, gone), What: "the execution is not released when the resolver is stopped or closed, or the factory goes"})
			o.NeverG(root, g, allOf(blocks, notP(selectsOn(val, closed, gone))), nil, "the release waits for something else")
			o.Guard(GuardRule{Root: root, Go: g, Effect: anyOf(calls("Reference.Release"), dynCall("context.WithCancel*(<Context>)#1")), Needs: []Pred{recvFrom(val, closed, "Context.Done(var:Context*)", "Context.Done(phi:Context*)")}, What: "the execution is released while it is needed"})
		}
		if n == 0 {
			o.Fail("norelease", r.Pos(), nil, "no goroutine releases the execution")
		}
		ends := func(factory string) Pred {
			if !ck.reaches(r, storeTo("var:Context*")) { // not shared with a closure
				return callArgs("FactoryWithContext.GetFactoryContext", factory)
			}
			return storeTo("var:Context*", "FactoryWithContext.GetFactoryContext("+factory+")")
		}
		o.Path(PathRule{Root: r, From: lit("is(" + local + "#0,FactoryWithContext)"), Via: ends(local + "#0*"), Skip: isExit, Until: start, What: "the end of the factory is not noticed"})
		o.Path(PathRule{Root: r, From: lit("is(*(Factory),FactoryWithContext)"), Via: ends("*(Factory)*"), Until: start, What: "the end of the factory is not noticed"})
		o.Never(r, allOf(storeTo("var:Context*"), notP(storeTo("var:Context*", "FactoryWithContext.GetFactoryContext(*)", "context.Background()", "context.WithCancel*(<Context>)#0", "<Context>"))), "the end of another context is waited for")
		cl, mk := p.Method(resolverPkg, "Controller", "Close"), p.Func(resolverPkg, "NewController")
		o.Path(PathRule{Root: cl, Via: dynCall("Controller.subCtxCancel"), What: "closing does not end the executions"})
		for i, f := range []string{"Controller.subCtx", "Controller.subCtxCancel"} {
			v := "context.WithCancel*(context.Background())#" + string(rune('0'+i))
			o.Path(PathRule{Root: mk, Via: storeTo(f, v), What: "closing does not end the executions"})
			o.NeverIn(resolverPkg, allOf(storeTo(f), notP(storeTo(f, v))), "closing does not end the executions")
		}
	})
	ck.Do("registry", "constructors and factories in the registry are emitted, the factory for as long as the resolver runs, and failed lookups are returned", func(o *Obl) {
		for _, k := range []struct{ typ, call, key string }{
			{"LoadConfigConstructorByIDResolver", "FactoryResolver.GetConfigCtorByID", "LoadConfigConstructorByID.LoadConfigConstructorByIDConfigID(*)"},
			{"LoadFactoryByConfigResolver", "FactoryResolver.GetFactoryMatchingConfig", "LoadFactoryByConfig.LoadFactoryByConfig(*)"},
		} {
			f := p.Method(resolverPkg, k.typ, "Resolve")
			look, got := callArgs(k.call, k.typ+".res", "<Context>", k.key), k.call+"(*)"
			o.Path(PathRule{Root: f, Via: look, What: "nothing is looked up"})
			o.Never(f, allOf(calls(k.call), notP(look)), "something else is looked up")
			o.Path(PathRule{Root: f, From: lit("!" + got + "#1==nil"), Via: isExit, Forbid: notReturning(k.call + "("), What: "a failed lookup is not returned"})
			emit := callArgs(add, "<ResolverHandler>", got+"#0")
			o.Path(PathRule{Root: f, From: lit("!" + got + "#0==nil"), Via: emit, Skip: lit("!" + got + "#1==nil"), What: "what was found is not emitted"})
			o.Never(f, allOf(calls(add), notP(emit)), "something else is emitted")
			o.Guard(GuardRule{Root: f, Effect: calls(add), Needs: []Pred{lit("!" + got + "#0==nil"), lit(got + "#1==nil")}, What: "nothing is emitted as a value"})
			o.Guard(GuardRule{Root: f, Effect: calls("ResolverHandler.RemoveValue", "ResolverHandler.ClearValues"), Needs: []Pred{recvFrom("Context.Done(<Context>)")}, Optional: true, What: "the value is removed while the resolver runs"})
			o.Never(f, uninterruptible("Context.Done(<Context>)"), "the resolver does not end when it is stopped")
		}
	})
	ck.Do("handled", "each kind of request is resolved from the registry of the controller", func(o *Obl) {
		h := p.Method(resolverPkg, "Controller", "HandleDirective")
		const dir = "Instance.GetDirective(<Instance>)"
		for _, k := range [][2]string{{"LoadControllerWithConfig", "loadWithConfigResolver"}, {"LoadConfigConstructorByID", "LoadConfigConstructorByIDResolver"}, {"LoadFactoryByConfig", "LoadFactoryByConfigResolver"}} {
			is := lit("is(" + dir + "," + k[0] + ")")
			for _, st := range []Pred{storeTo(k[1]+".dir", dir+".("+k[0]+")"), storeTo(k[1]+".res", "Controller.resolver"), calls("directive.Resolvers", "directive.R")} {
				o.Path(PathRule{Root: h, From: is, Via: st, What: "a request is not resolved"})
			}
			if k[1] == "loadWithConfigResolver" {
				o.Path(PathRule{Root: h, From: is, Via: storeTo(k[1]+".bus", "Controller.bus"), What: "the request is resolved on another bus"})
			}
		}
	})
	ck.Inside = ""
}

func init() {
	register("L02", "Path and guard analysis of the controller resolvers: lookups, the execution passed through, and the release of every reference on all of its ends", checkL02)
}

package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const execPkg, apiCtrlPkg = "controller/exec", "bus/api/controller"

// blocks: an operation that may block: a channel operation outside of a select with a default case, or a sleep.
func blocks(c *Ctx, ev *Event) bool {
	if ev.Kind != KInstr {
		return false
	}
	switch x := ev.Instr.(type) {
	case *ssa.Select:
		return x.Blocking
	case *ssa.Send:
		return true
	case *ssa.UnOp:
		return x.Op.String() == "<-"
	}
	return calls("time.Sleep", "WaitGroup.Wait", "Cond.Wait")(c, ev)
}

// returnsIt: exits whose last result does not contain any of the patterns are matched (for Forbid).
func notReturning(pats ...string) Pred {
	return exitWith(func(c *Ctx, r []Val) bool {
		s := c.Str(r[len(r)-1])
		for _, p := range pats {
			if glob("*"+p+"*", s) {
				return false
			}
		}
		return true
	})
}

// execErrors: every error of executing a request is returned.
func (o *Obl) execErrors(r *ssa.Function, calls ...string) {
	for _, call := range calls {
		o.Path(PathRule{Root: r, From: lit("!" + call + "==nil"), Once: true, Via: isExit, Forbid: notReturning(call), What: "an error is not returned"})
	}
}

const (
	sendResp = "dyn:<func(*ExecControllerResponse) error>(*)"
	addApply = "Bus.AddDirective(*)#2"
	yamlErr  = "configset_json.UnmarshalYAML(*)#1"
	setErr   = "ConfigSet.Resolve(*)#1"
	confErr  = "ControllerConfig.Resolve(*)#1"
)

func checkB07(ck *Check) {
	p := ck.P
	exec := p.Method(busAPIPkg, "API", "ExecController")
	enabled := lit("Config.GetEnableExecController(API.conf)", "Config.EnableExecController", "API.conf.EnableExecController")
	disabled := lit("!Config.GetEnableExecController(API.conf)", "!Config.EnableExecController", "API.conf==nil")
	const run = "ExecControllerRequest.Execute"
	ck.Inside = busAPIPkg
	ck.Do("gate", "a request to execute a controller is rejected before anything is done unless the configuration enables it", func(o *Obl) {
		harmless := calls("Config.*", "SRPCControllerBusService_ExecControllerStream.Context", "errors.*")
		o.Guard(GuardRule{Root: exec, Effect: allOf(func(c *Ctx, ev *Event) bool { return execCall(ev) != nil && !ev.Inlined }, notP(harmless)), Needs: []Pred{enabled}, What: "something is done although executing controllers is not enabled"})
		o.Path(PathRule{Root: exec, From: disabled, Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "ErrExecControllerDisabled" }), What: "a disabled request is not rejected"})
		o.NilErrOnlyIf(exec, "a request succeeds that is not enabled", fact("Config.GetEnableExecController(API.conf)", "Config.EnableExecController"))
		// nothing else gets at the bus
		for _, f := range p.FuncsIn(busAPIPkg) {
			if f.Parent() == nil && f != exec {
				o.Never(f, calls(run, "Bus.AddDirective", "Bus.AddController", "Bus.ExecuteController", "controller_exec.ExecuteController"), "a controller is executed without the gate")
			}
		}
	})
	ck.Do("run", "an enabled request is executed on the bus with the stream of the request, and its error is returned", func(o *Obl) {
		o.Path(PathRule{Root: exec, From: enabled, Via: callArgs(run, "<ExecControllerRequest>", "SRPCControllerBusService_ExecControllerStream.Context(*)|Stream.Context(*)", "API.bus", "*", "closure|*Send*|bound*"), What: "an enabled request is not executed"})
		o.Path(PathRule{Root: exec, From: calls(run), Via: isExit, Forbid: notReturning(run + "("), What: "the error of the request is not returned"})
		for _, f := range p.FuncsIn(busAPIPkg) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || !strings.HasSuffix(calleeName(&c.Call), "Send") || c.Type().String() != "error" {
						continue
					}
					o.Site(c)
					if len(*c.Referrers()) == 0 {
						o.Fail("send|"+fnName(f), c.Pos(), nil, "%s: an error of the stream is dropped", fnName(f))
					}
				}
			}
		}
	})
	ck.Do("config", "the gate uses the configuration that was given to the API", func(o *Obl) {
		o.Path(PathRule{Root: p.Func(busAPIPkg, "NewAPI"), Via: storeTo("API.conf", "<Config>"), What: "the configuration is not stored"})
		o.Path(PathRule{Root: p.Func(busAPIPkg, "NewAPI"), Via: storeTo("API.bus", "<Bus>"), What: "the bus is not stored"})
		get := p.Method(busAPIPkg, "Config", "GetEnableExecController")
		o.TrueOnlyIf(get, "executing controllers counts as enabled although it is not", fact("Config.EnableExecController"))
		o.NeverIn(busAPIPkg, allOf(storeTo("Config.EnableExecController"), notP(inMessage)), "executing controllers is enabled by the API itself")
	})
	ck.Do("info", "the bus information lists every controller and every directive", func(o *Obl) {
		r := p.Method(busAPIPkg, "API", "GetBusInfo")
		for _, l := range [][3]string{
			{"Bus.GetControllers(API.bus)", "GetBusInfoResponse.RunningControllers", "Controller.GetControllerInfo(Bus.GetControllers(API.bus)[])"},
			{"Bus.GetDirectives(API.bus)", "GetBusInfoResponse.RunningDirectives", "*NewDirectiveState(Bus.GetDirectives(API.bus)[])"},
		} {
			o.ForEach(ForEachRule{Root: r, Coll: []string{l[0]}, Must: anyOf(adds(l[2], "new DirectiveState"), indexPut(l[2], "new DirectiveState")), Reach: true, What: "an entry is missing"})
			o.Never(r, subList(l[0], l[1], "makeslice*"), "only a part of the list is returned")
			o.Never(r, allOf(fieldStore(l[1]), notP(storeTo(l[1], "append(*", "makeslice*", "phi*", "var*", "localvar*", "slices.Grow*"))), "the list is replaced")
		}
		o.Path(PathRule{Root: r, Via: exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) == 2 && c.W.nilness(c.S.env, r[1]) == 1 }), What: "the bus information is not returned"})
	})
	ck.Inside = ""
	ck.Do("state", "the state of a directive names the directive", func(o *Obl) {
		r := p.Func("directive", "NewDirectiveInfo")
		o.Path(PathRule{Root: r, Via: storeTo("DirectiveInfo.Name", "Directive.GetName(<Directive>)"), What: "the name of the directive is not reported"})
		s := p.Func("directive", "NewDirectiveState")
		o.Path(PathRule{Root: s, Via: storeTo("DirectiveInfo.Name", "Directive.GetName(Instance.GetDirective(<Instance>))"), What: "the state is that of another directive"})
	})
	ck.Inside = execPkg
	ck.Do("errors", "request, resolution and stream errors are returned", func(o *Obl) {
		r := p.Method(execPkg, "ExecControllerRequest", "Execute")
		o.execErrors(r, addApply, yamlErr, setErr, sendResp)
		o.Path(PathRule{Root: r, From: lit("!" + confErr + "==nil"), Via: anyOf(dynCallArgs("<func(*ExecControllerResponse) error>", "new ExecControllerResponse"), notReturningNil), Skip: lit("<func(*ExecControllerResponse) error>==nil"), Until: anyOf(iter("*GetConfigs(*", "makemap:*"), isExit), What: "a config that cannot be resolved is not reported"})
	})
	ck.Inside = busAPIPkg
	ck.Do("server", "the server reports its errors and stops accepting requests when its controller stops", func(o *Obl) {
		r := p.Method(apiCtrlPkg, "Controller", "Execute")
		const lis = "net.Listen(*)"
		mk := func(c *Ctx, ev *Event) bool {
			return ev.Kind == KInstr && callArgs("bus_api.NewAPI", "Controller.bus", "Config.GetBusApiConfig(Controller.conf)")(c, ev)
		}
		o.Path(PathRule{Root: r, Via: mk, What: "the API is not created for the bus and the configuration of the controller"})
		o.Never(r, allOf(calls("bus_api.NewAPI"), notP(mk)), "the API is created for another bus or configuration")
		for _, c := range []string{"Mux.Register(*)", "API.RegisterAsSRPCServer(*)"} {
			o.Path(PathRule{Root: r, From: lit("!" + c + "==nil"), Optional: true, Via: isExit, Forbid: notReturning(c), What: "the error of registering the API is not returned"})
		}
		o.Path(PathRule{Root: r, From: lit("!" + lis + "#1==nil"), Via: isExit, Forbid: notReturning(lis + "#1"), What: "the error of listening is not returned"})
		o.Path(PathRule{Root: r, From: lit(lis + "#1==nil"), Via: callArgs("Listener.Close", lis+"#0"), What: "the server keeps accepting requests after its controller stopped"})
		o.Path(PathRule{Root: r, From: lit(lis + "#1==nil"), Via: goCall(), Skip: calls("srpc.AcceptMuxedListener"), What: "requests are not accepted"})
		o.Guard(GuardRule{Root: r, Effect: callArgs("Listener.Close", lis+"#0"), Needs: []Pred{anyOf(recvFrom("Context.Done(<Context>)", "makechan*"), calls("srpc.AcceptMuxedListener"), lit("!Context.Err(*)==nil"))}, What: "the server stops although neither its controller nor accepting ended"})
		for _, g := range p.goSites(apiCtrlPkg) {
			if root := p.goTarget(g); root != nil && ck.reaches(root, calls("srpc.AcceptMuxedListener")) {
				o.Path(PathRule{Root: root, Go: g, From: calls("srpc.AcceptMuxedListener"), Via: sendsValue("srpc.AcceptMuxedListener(*)"), What: "the error of accepting is not reported"})
				o.NeverG(root, g, allOf(calls("srpc.AcceptMuxedListener"), notP(callArgs("srpc.AcceptMuxedListener", "<Context>", "net.Listen(*)#0", "*"))), nil, "requests are accepted without the context, or on another listener")
			}
		}
		if !ck.reaches(r, calls("context.AfterFunc")) {
			o.Never(r, uninterruptible("Context.Done(<Context>)"), "the server goes on after its controller stopped")
		}
		o.Path(PathRule{Root: r, From: recvFrom("makechan*"), Via: isExit, Forbid: notReturning("<-makechan"), What: "the error of accepting is not returned"})
	})
	ck.Inside = ""
}

// notReturningNil: a return with an error that is not nil.
func notReturningNil(c *Ctx, ev *Event) bool {
	return ev.Kind == KExit && len(ev.Results) > 0 && c.W.nilness(c.S.env, ev.Results[len(ev.Results)-1]) != 1
}

// inMessage: inside a generated file.
func inMessage(c *Ctx, ev *Event) bool {
	return strings.HasSuffix(c.W.P.Fset.Position(ev.Instr.Parent().Pos()).Filename, ".pb.go")
}

// sendsValue matches sending one of the values.
func sendsValue(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		s, ok := ev.Instr.(*ssa.Send)
		return ok && ev.Kind == KInstr && globAny(pats, c.StrV(s.X))
	}
}

// sentValue matches sending one of the values, also in a select.
func sentValue(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if sendsValue(pats...)(c, ev) {
			return true
		}
		sel, ok := ev.Instr.(*ssa.Select)
		if !ok || ev.Kind != KInstr {
			return false
		}
		for _, s := range sel.States {
			if s.Send != nil && globAny(pats, c.StrV(s.Send)) {
				return true
			}
		}
		return false
	}
}

// subList matches taking a part of one of the lists.
func subList(lists ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		s, ok := ev.Instr.(*ssa.Slice)
		return ok && ev.Kind == KInstr && (s.Low != nil || s.High != nil) && globAny(lists, c.StrV(s.X))
	}
}

// fieldStore matches any store to a field.
func fieldStore(field string) Pred { return storeTo(field) }

// indexPut matches a store of a value to an element of a list.
func indexPut(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		st, ok := ev.Instr.(*ssa.Store)
		if !ok {
			return false
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		return ok && !sameSlot(ia) && globAny(pats, c.StrV(st.Val))
	}
}

func init() {
	register("B07", "Guard analysis of the execute request, loop analysis of the bus information, error-path analysis of requests and of the server", checkB07)
}

func checkX01(ck *Check) {
	p := ck.P
	r := p.Method(execPkg, "ExecControllerRequest", "Execute")
	single := p.Func(execPkg, "ExecuteController")
	const (
		cbName  = "<func(*ExecControllerResponse) error>"
		status  = "ExecControllerResponse.Status"
		queue   = "valueQueue.changes"
		removed = "valueChange.removed"
		getID   = "State.GetId(*)"
		getErr  = "State.GetError(*)"
		getCtrl = "State.GetController(*)"
		list    = "*GetConfigs(*"
		states  = "makemap:ControllerStatus"
		cancel  = "context.WithCancel*(<Context>)#1"
	)
	lists := []string{list, "makemap:ControllerConfig", "phi:map[string]*ControllerConfig", "var:map[string]*ControllerConfig"}
	pub, noCb := dynCall(cbName), lit(cbName+"==nil")
	st := func(n string) Pred { return storeTo(status, n) }
	failed := lit("!" + confErr + "==nil")
	ck.Inside = execPkg
	ck.Do("applied", "every config of the request that can be resolved is applied under its id", func(o *Obl) {
		put := func(c *Ctx, ev *Event) bool {
			return mapPut("*", "key(*)", "ControllerConfig.Resolve(*)#0")(c, ev)
		}
		o.ForEach(ForEachRule{Root: r, Coll: lists, Must: anyOf(put, failed), Reach: true, ReachSkip: exitErrAny, Until: calls("configset.NewApplyConfigSet"),
			Skip: lit("\"\"==key(*)", "has(*,key(*))"), Leave: anyOf(exitErrAny, lit("!"+sendResp+"==nil")), What: "a config is neither applied nor reported"})
		o.Guard(GuardRule{Root: r, Effect: calls("Bus.AddDirective"), Needs: []Pred{anyOf(calls("configset_json.UnmarshalYAML"), lit("\"\"==ExecControllerRequest.GetConfigSetYaml(*)", "len(ExecControllerRequest.GetConfigSetYaml(*))==0"))}, What: "the YAML configs are not applied"})
		o.Guard(GuardRule{Root: r, Effect: calls("Bus.AddDirective"), Needs: []Pred{calls("configset.NewApplyConfigSet")}, What: "something else than the config set is applied"})
		o.Guard(GuardRule{Root: r, Effect: mapPut("*", "key(*)", "*"), Needs: []Pred{lit("!\"\"==key(*)")}, Reset: iter(lists...), What: "a config without an id is applied"})
		o.Path(PathRule{Root: r, From: failed, Via: anyOf(mapDel("*", "key(*)"), notReturningNil), Until: anyOf(calls("configset.NewApplyConfigSet"), iter(lists...)), What: "a config that cannot be resolved is applied"})
		o.Path(PathRule{Root: r, From: calls("Bus.AddDirective"), Via: isExit, Forbid: allOf(calls("Bus.AddDirective")), What: "the config set is applied twice"})
	})
	ck.Do("rejected", "requests without a config, unresolvable configs and failing streams end the request with an error", func(o *Obl) {
		o.execErrors(r, addApply, yamlErr, setErr, sendResp)
		o.Path(PathRule{Root: r, From: failed, Via: anyOf(pub, notReturningNil), Skip: noCb, Until: anyOf(iter(lists...), isExit), What: "a config that cannot be resolved is not reported"})
		bad := exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) == 1 })
		o.Never(r, bad, "the request ends without an error")
	})
	ck.Do("changes", "every change of a value reaches the loop that reports it, in order, without blocking the bus", func(o *Obl) {
		q := locks("valueQueue.mtx")
		for i, what := range []string{"added", "removed"} {
			n := 0
			for _, l := range o.pkgLitArg(execPkg, i, "bus.NewCallbackHandler", "directive.NewCallbackHandler") {
				n++
				isT := "is(AttachedValue.GetValue(<AttachedValue>),*)"
				val := "AttachedValue.GetValue(<AttachedValue>).(*)"
				o.Path(PathRule{Root: l, Via: listAddAny(queue), Skip: lit("!"+isT, val+"==nil", "\"\"==State.GetId("+val+")"), What: "a value that was " + what + " is not reported"})
				o.Never(l, allOf(storeTo("valueChange.val"), notP(storeTo("valueChange.val", val))), "another value is reported")
				flag := map[bool]string{true: "true", false: "false"}[i == 1]
				o.Never(l, allOf(storeTo(removed), notP(storeTo(removed, flag))), "a value that was "+what+" is reported as the opposite")
				if i == 1 {
					o.Path(PathRule{Root: l, From: listAddAny(queue), Via: isExit, What: "the removal is not reported"})
					o.Guard(GuardRule{Root: l, Effect: listAddAny(queue), Needs: []Pred{storeTo(removed, "true")}, What: "a removed value is reported as added"})
				}
				o.Never(l, blocks, "the callback of the directive may block")
			}
			if n < 2 {
				o.Fail("callbacks", 0, nil, "found %d callbacks for values that are %s, expected 2", n, what)
			}
		}
		o.Lockset(LockRule{Pkg: execPkg, Lock: q, Unlock: unlocks("valueQueue.mtx"), Free: callsOut, Fields: fieldSet(queue), Taken: true, WhatF: "calls out while holding the lock of the queue"})
		push, take := p.Method(execPkg, "valueQueue", "push"), p.Method(execPkg, "valueQueue", "take")
		o.Path(PathRule{Root: push, From: listStore(queue, "append"), Via: anyOf(sends("valueQueue.wake"), selectDefault("valueQueue.wake")), What: "the loop is not woken"})
		o.Never(push, listStore(queue, "prepend", "delete", "clear", "other"), "the order of the changes is not kept, or changes are lost")
		o.Path(PathRule{Root: take, Via: listStore(queue, "clear"), What: "changes are reported twice"})
		o.Never(take, allOf(listStore(queue, "append", "prepend", "delete", "other")), "changes are reordered or lost")
		o.Never(take, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != queue }), "not all changes are taken")
		for _, f := range []*ssa.Function{r, single} {
			o.Path(PathRule{Root: f, From: recvFrom("valueQueue.wake"), Via: calls("valueQueue.take"), What: "the loop misses changes"})
			o.Path(PathRule{Root: f, From: calls("Bus.AddDirective"), Via: isExit, Forbid: storeTo("var:*valueQueue*"), What: "the queue is replaced"})
		}
		for _, f := range p.FuncsIn(execPkg) {
			if f.Parent() == nil && ck.ownEvent(f, storeTo("valueQueue.wake")) {
				o.Never(f, allOf(storeTo("valueQueue.wake"), notP(bufferedChan)), "wake-ups are lost when the loop is busy")
				o.SiteName(fnName(f))
			}
		}
	})
	ck.Do("reported", "every change is reported with the status of its controller: configuring, running, or error", func(o *Obl) {
		it := iter(queue)
		gone, present := lit(removed), lit("!"+removed)
		end := anyOf(it, done(queue), pub, isExit)
		// the status of a report is that of its change
		type repSt struct {
			stored                int8 // last status stored, 9: unknown
			in, failed, gone, err bool
			here, noErr, has, no  bool
		}
		has, none := lit("!"+getCtrl+"==nil"), lit(getCtrl+"==nil")
		fails, works := lit("!"+getErr+"==nil"), lit(getErr+"==nil")
		lit1 := iter(lists...)
		o.Monitor(r, repSt{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(repSt)
			switch {
			case it(c, ev) || lit1(c, ev):
				s = repSt{stored: s.stored}
			case failed(c, ev):
				s.failed = true
			case gone(c, ev):
				s.gone = true
			case present(c, ev):
				s.here = true
			case fails(c, ev):
				s.err = true
			case works(c, ev):
				s.noErr = true
			case has(c, ev):
				s.has = true
			case none(c, ev):
				s.no = true
			case ev.Kind == KInstr && storeTo(status)(c, ev):
				s.stored = 9
				for i, n := range []string{"0", "1", "2", "3"} {
					if st(n)(c, ev) {
						s.stored = int8(i)
					}
				}
			case pub(c, ev):
				o.Site(ev.Instr)
				ok := s.stored == 3 && (s.failed || s.here && s.err) || s.stored == 2 && s.here && s.noErr && s.has || s.stored == 1 && (s.gone || s.here && s.noErr && s.no)
				if !ok {
					c.Violate("wrong", "%s: status %d is reported for a controller that is in another state", fnName(r), s.stored)
				}
			}
			return s
		})
		o.Never(r, allOf(storeTo(status), notP(storeTo(status, "0", "1", "2", "3"))), "an unknown status is reported")
		o.Path(PathRule{Root: r, From: lit("!" + getErr + "==nil"), Via: st("3"), Until: end, What: "an error of a controller is not reported as an error"})
		o.Path(PathRule{Root: r, From: failed, Disarm: done(lists...), Via: st("3"), Until: anyOf(iter(lists...), pub, isExit), What: "an unresolved config is not reported as an error"})
		o.Path(PathRule{Root: r, From: lit("!" + getCtrl + "==nil"), Via: st("2"), Until: end, What: "a running controller is not reported as running"})
		o.Path(PathRule{Root: r, From: gone, Once: true, Via: st("1"), Until: end, What: "a removed value is not reported"})
		o.Never(r, allOf(storeTo("ExecControllerResponse.ErrorInfo"), notP(storeTo("ExecControllerResponse.ErrorInfo", "error.Error("+getErr+")", "error.Error("+confErr+")", "\"\""))), "another error is reported")
		o.Path(PathRule{Root: r, From: st("3"), Via: storeTo("ExecControllerResponse.ErrorInfo"), Until: end, What: "the error is not part of the report"})
		o.Never(r, allOf(storeTo("ExecControllerResponse.Id"), notP(storeTo("ExecControllerResponse.Id", getID, "key(*)", "\"\""))), "another controller is reported")
		reset := calls("ExecControllerResponse.Reset")
		o.Guard(GuardRule{Root: r, Effect: pub, Needs: []Pred{storeTo("ExecControllerResponse.Id", getID, "key(*)"), st("*")}, Reset: anyOf(reset, it), What: "a report does not name its controller and status"})
		o.Path(PathRule{Root: r, From: pub, Via: anyOf(reset, isExit), Until: anyOf(pub, it), What: "a report contains the contents of the previous one"})
		o.Never(r, allOf(pub, notP(dynCallArgs(cbName, "new ExecControllerResponse"))), "another report is sent")
		// the only reports left out are those that would repeat the configuring status
		same := lit(status+"=="+states+"["+getID+"]", states+"["+getID+"]=="+status, "1=="+states+"["+getID+"]", states+"["+getID+"]==1")
		o.ForEach(ForEachRule{Root: r, Coll: []string{queue}, Must: pub, Skip: noCb, SkipAll: []Pred{same, anyOf(st("1"), lit("1=="+status, status+"==1"))}, Leave: exitErrAny, Reach: false, What: "a change is not reported"})
		track := func(c *Ctx, ev *Event) bool {
			return mapPut(states, getID, "*")(c, ev) || mapPut(states, "key(*)", "*")(c, ev)
		}
		o.Guard(GuardRule{Root: r, Effect: pub, Needs: []Pred{track}, Reset: anyOf(iter(lists...), it), What: "a report is sent that is not remembered"})
		o.Never(r, allOf(mapPut(states, "*", "*"), notP(anyOf(mapPut(states, "*", status), mapPut(states, "*", "1"), mapPut(states, "*", "2"), mapPut(states, "*", "3")))), "another status is remembered")
	})
	ck.Do("ends", "the request ends when its context or the directive ends, and releases the directive", func(o *Obl) {
		for _, f := range []*ssa.Function{r, single} {
			okLit := lit(addApply + "==nil")
			o.Path(PathRule{Root: f, From: okLit, Via: callArgs("Reference.Release", "Bus.AddDirective(*)#1"), What: "the directive is not released"})
			ended := recvFrom("Context.Done(context.WithCancel*(<Context>)#0)", "Context.Done(<Context>)")
			o.Path(PathRule{Root: f, From: ended, Via: isExit, Forbid: anyOf(waitSel, pub), What: "the request goes on although its context ended"})
			// every wait can be ended by the context
			o.Never(f, uninterruptible("Context.Done(context.WithCancel*(<Context>)#0)"), "a wait does not end when the directive is disposed or the context ends")
		}
		for _, f := range []*ssa.Function{r, single} {
			o.Path(PathRule{Root: f, Via: callArgs("bus.NewCallbackHandler|directive.NewCallbackHandler", "*", "*", cancel+"|closure"), Skip: exitErrAny, Until: calls("Bus.AddDirective"), What: "the request does not learn that the directive was disposed"})
		}
	})
	const cb1 = "<func(ControllerStatus)>"
	ck.Do("single", "executing one controller calls back with every new status and ends with its error", func(o *Obl) {
		val := "valueChange.val"
		gErr, gCtrl := "ExecControllerValue.GetError("+val+")", "ExecControllerValue.GetController("+val+")"
		call := func(n string) Pred { return dynCallArgs(cb1, n) }
		it := iter(queue)
		gone, present := lit(removed), lit("!"+removed)
		o.Guard(GuardRule{Root: single, Effect: call("2"), Needs: []Pred{present, lit(gErr + "==nil"), lit("!" + gCtrl + "==nil")}, Reset: it, What: "a controller is reported as running that is not"})
		o.Guard(GuardRule{Root: single, Effect: call("3"), Needs: []Pred{present, lit("!" + gErr + "==nil")}, Reset: it, What: "an error is reported although there is none"})
		o.Guard(GuardRule{Root: single, Effect: call("1"), Needs: []Pred{anyOf(gone, lit(gErr+"==nil")), anyOf(gone, lit(gCtrl+"==nil"))}, Reset: it, What: "a controller is reported as configuring that is running or failed"})
		// the last status that was reported is the current one whenever a change was handled
		type repSt struct {
			last, want int8
			nobody     bool // nothing to report to
		}
		has, none, fails := lit("!"+gCtrl+"==nil"), lit(gCtrl+"==nil"), lit("!"+gErr+"==nil")
		report := dynCall(cb1, "func:*")
		o.Monitor(single, repSt{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(repSt)
			if s.nobody || lit(cb1+"==nil")(c, ev) {
				return repSt{nobody: true}
			}
			end := it(c, ev) || done(queue)(c, ev) || isExit(c, ev)
			if end && s.want > 0 && s.want != s.last {
				c.Violate("status", "%s: after a change the last status that was reported is %d and not %d", fnName(single), s.last, s.want)
			}
			switch {
			case end:
				s.want = 0
			case present(c, ev):
				s.want = 1
			case gone(c, ev):
				s.want = -1
			case fails(c, ev) && s.want >= 0:
				s.want = 3
			case has(c, ev) && s.want > 0 && s.want != 3:
				s.want = 2
			case has(c, ev) && s.want == -1 && s.last == 2:
				s.want = 1
			case none(c, ev) && s.want == 2:
				s.want = 1
			case report(c, ev):
				s.last = 0
				for i, n := range []string{"1", "2", "3"} {
					if dynCallArgs("*", n)(c, ev) {
						s.last = int8(i + 1)
					}
				}
				if s.last == 0 {
					c.Violate("unknown", "%s: an unknown status is reported", fnName(single))
				}
				o.Site(ev.Instr)
			}
			return s
		})
		o.Path(PathRule{Root: single, From: lit("!" + gErr + "==nil"), Via: isExit, Forbid: anyOf(notReturning(gErr), it), What: "the error of the controller is not returned"})
		o.execErrors(single, addApply)
	})
	ck.Inside = ""
}

// exitErrAny: a return with a value that may be an error.
func exitErrAny(c *Ctx, ev *Event) bool { return notReturningNil(c, ev) }

// listAddAny: anything is appended to the list.
func listAddAny(list string) Pred { return listStore(list, "append") }

// bufferedChan: the stored value is a channel with a buffer.
func bufferedChan(c *Ctx, ev *Event) bool {
	st, ok := ev.Instr.(*ssa.Store)
	if !ok {
		return false
	}
	mk, ok := c.Resolve(Val{c.S.F, st.Val}).V.(*ssa.MakeChan)
	if !ok {
		return false
	}
	k, ok := mk.Size.(*ssa.Const)
	return ok && k.Int64() >= 1
}

func init() {
	register("X01", "Path, guard and loop analysis of request execution: resolution, the queue of changes, every report, and every end", checkX01)
}

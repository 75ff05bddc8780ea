package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const inmemPkg, busPkg, busAPIPkg = "bus/inmem", "bus", "bus/api"

func checkB01(ck *Check) {
	p := ck.P
	const list = "Bus.controllers"
	listed := listStore(list, "append", "prepend")
	unlisted := listStore(list, "delete", "clear", "other")
	removed := anyOf(listStore(list, "delete"), done(list), empty(list))
	add, exec := p.Method(inmemPkg, "Bus", "AddController"), p.Method(inmemPkg, "Bus", "ExecuteController")
	remove := p.Method(inmemPkg, "Bus", "RemoveController")
	const hnd = "Controller.AddHandler(*,<Controller>)"
	attach := calls("Controller.AddHandler")
	attached, refused := lit(hnd+"#1==nil"), lit("!"+hnd+"#1==nil")
	run := calls("Controller.Execute")
	ck.Do("attached", "a controller is listed and receives directives before it is executed", func(o *Obl) {
		for _, r := range []*ssa.Function{add, exec} {
			o.Never(r, allOf(attach, notP(callArgs("Controller.AddHandler", "*", "<Controller>"))), "another handler is attached")
			o.Path(PathRule{Root: r, From: attached, Via: listed, Until: anyOf(run, goCall(), isExit), What: "an attached controller is not listed"})
			o.Guard(GuardRule{Root: r, Effect: anyOf(run, goCall()), Needs: []Pred{listed}, What: "a controller is executed that is not listed"})
			o.Guard(GuardRule{Root: r, Effect: retOK, Needs: []Pred{anyOf(run, goCall())}, What: "a controller is not executed"})
		}
		o.Guard(GuardRule{At: inmemPkg, Effect: listed, Needs: []Pred{attached, storeTo("attachedCtrl.ctrl", "<Controller>"), storeTo("attachedCtrl.rel", hnd+"#0")}, What: "a controller is listed that is not attached"})
	})
	ck.Do("refused", "a controller that could not be attached is neither listed nor executed, and the error is returned", func(o *Obl) {
		for _, r := range []*ssa.Function{add, exec} {
			bad := exitWith(func(c *Ctx, res []Val) bool {
				return !glob(hnd+"#1", c.Str(res[len(res)-1])) && !glob("*("+hnd+"#1*", c.Str(res[len(res)-1]))
			})
			o.Path(PathRule{Root: r, From: refused, Via: isExit, Forbid: anyOf(listed, run, goCall(), bad), What: "a controller that could not be attached is used, or the error is not returned"})
		}
	})
	ended := lit("Controller.Execute(*)==nil")
	failed := lit("!Controller.Execute(*)==nil")
	panics := func(c *Ctx, in ssa.Instruction) bool {
		x, ok := in.(*ssa.Call)
		return ok && c.W.P.calleeIs(&x.Call, []string{"Controller.Execute"})
	}
	ck.Do("failed", "a controller whose execution fails or panics is removed, and the error is reported", func(o *Obl) {
		n := 0
		for _, g := range p.goSites(inmemPkg) {
			root := p.goTarget(g)
			if root == nil || !ck.reaches(root, run) {
				continue
			}
			n++
			r := PathRule{Root: root, Go: g, From: run, Skip: ended, AtPanic: true, MayPanic: panics}
			r.Via, r.What = removed, "a failed controller stays on the bus"
			o.Path(r)
			r.Via, r.What, r.Skip = dynCall("<func(error)>"), "the error of a failed controller is not reported", anyOf(ended, lit("<func(error)>==nil"))
			o.Path(r)
			o.Path(PathRule{Root: root, Go: g, From: ended, Via: isExit, Forbid: anyOf(unlisted, dynCall("<func(error)>")), MayPanic: panics, What: "a controller that ended without an error is removed, or reported as failed"})
			o.NeverG(root, g, func(c *Ctx, ev *Event) bool {
				if !dynCall("<func(error)>")(c, ev) {
					return false
				}
				a := c.Args(execCall(ev))
				return len(a) != 1 || c.W.nilness(c.S.env, a[0]) != 2
			}, panics, "a nil error is reported")
			o.NeverG(root, g, func(c *Ctx, ev *Event) bool { return ev.Kind == KPanicExit }, panics, "a panic of a controller is not contained")
			o.NeverG(root, g, allOf(run, notP(callArgs("Controller.Execute", "<Controller>", "context.WithCancel*(<Context>)#0"))), nil, "the controller is executed with a context that its release does not cancel")
		}
		if n == 0 {
			o.Fail("goroutine", 0, nil, "no goroutine executes added controllers")
		}
		o.Path(PathRule{Root: exec, From: run, Via: removed, Skip: ended, AtPanic: true, MayPanic: panics, What: "a failed controller stays on the bus"})
		o.Path(PathRule{Root: exec, From: ended, Via: isExit, Forbid: unlisted, MayPanic: panics, What: "a controller that ended without an error is removed"})
		o.Path(PathRule{Root: exec, From: failed, Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) != 2 }), MayPanic: panics, What: "the error of a failed controller is not returned"})
		o.NeverG(exec, nil, func(c *Ctx, ev *Event) bool { return ev.Kind == KPanicExit }, panics, "a panic of a controller is not contained")
		// after a panic only the deferred function runs
		o.NeverG(exec, nil, func(c *Ctx, ev *Event) bool {
			return ev.Kind == KExit && c.Str(ev.Results[0]) != "Controller.Execute(<Controller>,<Context>)" && !glob(hnd+"#1", c.Str(ev.Results[0])) && c.W.nilness(c.S.env, ev.Results[0]) != 2
		}, panics, "a panic of a controller is not returned as an error")
	})
	match := lit("<Controller>==attachedCtrl.ctrl", "attachedCtrl.ctrl==<Controller>", "contains*(Bus.controllers*", "!index*(Bus.controllers*)==-1", "!index*(Bus.controllers*)<0")
	differ := lit("!<Controller>==attachedCtrl.ctrl", "!attachedCtrl.ctrl==<Controller>")
	ck.Do("removed", "removing a controller unlists exactly it and detaches its handler", func(o *Obl) {
		o.Path(PathRule{Root: remove, Via: removed, What: "the controller stays listed"})
		o.ForEach(ForEachRule{Root: remove, Coll: []string{list}, Must: anyOf(match, differ), Leave: unlistedBefore, Optional: true, What: "a listed controller is not looked at"})
		o.Path(PathRule{At: inmemPkg, From: match, Via: listStore(list, "delete"), Until: anyOf(unlocks("Bus.mtx"), iter(list), isExit), What: "the controller stays listed"})
		o.Guard(GuardRule{At: inmemPkg, Effect: unlisted, Needs: []Pred{match}, Reset: iter(list), What: "another controller is removed"})
		o.DeletesOne(inmemPkg, list)
		o.Path(PathRule{At: inmemPkg, From: unlisted, Via: dynCall("attachedCtrl.rel"), Skip: lit("attachedCtrl.rel==nil"), What: "the handler of a removed controller stays attached"})
		o.Guard(GuardRule{At: inmemPkg, Effect: dynCall("attachedCtrl.rel"), Needs: []Pred{unlisted}, What: "the handler of a controller is detached that stays listed"})
	})
	ck.Do("released", "the release function of a controller cancels its execution and removes it", func(o *Obl) {
		cl := p.returnedClosures(add)
		if len(cl) == 0 {
			o.Fail("closure", add.Pos(), nil, "AddController returns no release function")
		}
		for _, r := range cl {
			o.Path(PathRule{Root: r, Via: dynCall("context.WithCancel*(<Context>)#1"), What: "the execution of a released controller is not canceled"})
			o.Path(PathRule{Root: r, Via: removed, What: "a released controller stays on the bus"})
		}
	})
	ck.Do("listing", "the list of controllers contains every controller on the bus", func(o *Obl) {
		get := p.Method(inmemPkg, "Bus", "GetControllers")
		o.ForEach(ForEachRule{Root: get, Coll: []string{list}, Must: adds("attachedCtrl.ctrl"), Reach: true, What: "a controller is not listed"})
		o.NotShared(inmemPkg, fieldSet(list))
	})
}

// unlistedBefore: an iteration may be left once its element was found.
func unlistedBefore(c *Ctx, ev *Event) bool {
	return listStore("Bus.controllers", "delete")(c, ev)
}

func checkB02(ck *Check) {
	ck.Do("lock", "the list of controllers is accessed only under its lock, which is not held while anything else is called", func(o *Obl) {
		o.Lockset(LockRule{Pkg: inmemPkg, Lock: locks("Bus.mtx"), Unlock: unlocks("Bus.mtx"), Free: callsOut, Fields: fieldSet("Bus.controllers"), Taken: true, WhatF: "calls out while holding the lock of the controller list"})
		o.NotShared(inmemPkg, fieldSet("Bus.controllers"))
	})
}

// callsOut: code is called that the package does not contain: interface methods and function values.
func callsOut(c *Ctx, ev *Event) bool {
	cc := execCall(ev)
	if cc == nil || ev.Inlined {
		return false
	}
	if _, isGo := ev.Instr.(*ssa.Go); isGo {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	if cc.IsInvoke() {
		return true
	}
	if cc.StaticCallee() == nil {
		return true
	}
	_, isClo := cc.Value.(*ssa.MakeClosure)
	return isClo
}

func init() {
	register("B01", "Path, guard and loop analysis of adding, executing (with panics) and removing controllers", checkB01)
	register("B02", "Lockset analysis of every entry point of the bus", checkB02)
}

// litArg: the function literal that fn passes as argument n to a call of the named function,
// in its own body, in its literals, or in a helper of the same package.
func (o *Obl) litArg(fn *ssa.Function, n int, names ...string) *ssa.Function {
	out := o.litArgOpt(fn, n, names...)
	if out == nil {
		panic(anchorErr{fmt.Sprintf("the callback %d that %s passes to %s", n, fnName(fn), strings.Join(names, "|"))})
	}
	return out
}

func (o *Obl) litArgOpt(fn *ssa.Function, n int, names ...string) *ssa.Function {
	p := o.ck.P
	var out *ssa.Function
	seen := map[*ssa.Function]bool{}
	var search func(f *ssa.Function, depth int)
	search = func(f *ssa.Function, depth int) {
		if f == nil || seen[f] || depth > 4 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if !p.calleeIs(cc, names) {
					continue
				}
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				if _, ok := args[n].(*ssa.Const); ok {
					o.Fail("callback", in.Pos(), nil, "%s passes no callback %d to %s", fnName(fn), n, p.callName(cc))
				}
				if l := p.funcValue(args[n], 0); l != nil {
					out = l
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if out == nil || depth == 0 {
				search(a, depth+1)
			}
		}
		if out != nil {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && out == nil {
					if g := ci.Common().StaticCallee(); g != nil {
						if g = p.unwrap(g); p.inRepo[g] && fnPkg(g) == fnPkg(fn) {
							search(g, depth+1)
						}
					}
				}
			}
		}
	}
	search(fn, 0)
	return out
}

// funcValue: the function a value stands for: a literal, also when passed on by a parameter.
func (p *Prog) funcValue(v ssa.Value, depth int) *ssa.Function {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return p.unwrap(v.Fn.(*ssa.Function))
	case *ssa.Function:
		return p.unwrap(v)
	case *ssa.ChangeType:
		return p.funcValue(v.X, depth)
	case *ssa.Call:
		if cc := v.Common(); len(cc.Args) == 1 && p.calleeIs(cc, []string{"sync.OnceFunc"}) {
			return p.funcValue(cc.Args[0], depth)
		}
		// a function of the repository that returns one literal
		if f := v.Common().StaticCallee(); f != nil && depth < 3 {
			f = p.unwrap(f)
			if !p.inRepo[f] {
				break
			}
			var found *ssa.Function
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				l := p.funcValue(ret.Results[0], depth+1)
				if l == nil || found != nil && found != l {
					return nil
				}
				found = l
			}
			return found
		}
	case *ssa.UnOp:
		if v.Op != token.MUL || depth > 3 {
			break
		}
		var cell ssa.Value = v.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			cell = freeVarBinding(fv)
		}
		if a, ok := cell.(*ssa.Alloc); ok {
			var found *ssa.Function
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if found != nil {
						return nil
					}
					found = p.funcValue(st.Val, depth+1)
				}
			}
			return found
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(v); b != nil && depth < 4 {
			return p.funcValue(b, depth+1)
		}
	case *ssa.Parameter:
		fn := v.Parent()
		for i, q := range fn.Params {
			if q != v || depth > 3 {
				continue
			}
			for _, c := range p.repoFuncs() {
				for _, b := range c.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
							if l := p.funcValue(ci.Common().Args[i], depth+1); l != nil {
								return l
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// waitSel: a select that blocks.
func waitSel(c *Ctx, ev *Event) bool {
	sel, ok := ev.Instr.(*ssa.Select)
	return ok && ev.Kind == KInstr && sel.Blocking
}

// entersHold: the lock of a Broadcast is taken.
func entersHold(c *Ctx, ev *Event) bool {
	return ev.Kind == KEnter && c.holdFrame() == c.S.F
}

func exitErr(pats ...string) Pred {
	return exitWith(func(c *Ctx, r []Val) bool { return globAny(pats, c.Str(r[len(r)-1])) })
}

func checkB04(ck *Check) {
	p := ck.P
	oneOff, collect := p.Func(busPkg, "ExecOneOffWithFilter"), p.Func(busPkg, "ExecCollectValues")
	const newHnd, addIdle = "bus.NewCallbackHandler|directive.NewCallbackHandler", "Instance.AddIdleCallback"
	hnd := strings.Split(newHnd, "|")
	ck.Do("wakeup", "a waiting call reads its state in the critical section that obtains the channel it waits on, and every change of that state wakes it", func(o *Obl) {
		for _, f := range []*ssa.Function{oneOff, collect} {
			o.WaitLoop(busPkg, f)
		}
	})
	const val, err, cb, filter = "var:AttachedValue", "var:error", "<func()>", "<func(AttachedValue) (bool, error)>"
	const filtered = "dyn:" + filter + "(<AttachedValue>)"
	noVal, noErr := lit(val+"==nil"), lit(err+"==nil")
	noCb := lit(cb + "==nil")
	valSet, errSet := lit("!"+val+"==nil"), lit("!"+err+"==nil")
	accepted := lit(filter+"==nil", filtered+"#0")
	each := func(fn *ssa.Function, f func(cl *ssa.Function)) {
		for _, cl := range p.asyncClosures(fn) {
			f(cl)
		}
	}
	ck.Do("first", "the value returned is the first one that the filter accepts", func(o *Obl) {
		each(oneOff, func(cl *ssa.Function) {
			take := storeTo(val)
			g := func(need, reset Pred, what string) {
				o.Guard(GuardRule{Root: cl, Effect: take, Needs: []Pred{need}, Reset: reset, Optional: true, What: what})
			}
			g(noVal, nil, "a value is replaced by a later one")
			g(accepted, nil, "a value is taken that the filter did not accept")
			g(lit(err+"==nil", filtered+"#1==nil"), dynCall(filter), "a value is taken although the filter failed")
			o.Never(cl, allOf(take, notP(storeTo(val, "<AttachedValue>"))), "another value is taken")
			o.Never(cl, allOf(dynCall(filter), notP(dynCallArgs(filter, "<AttachedValue>"))), "the filter is asked about another value")
		})
		if cl := o.litArg(oneOff, 0, hnd...); cl != nil {
			o.Path(PathRule{Root: cl, Via: anyOf(storeTo(val), dynCall(filter)), Skip: anyOf(valSet, errSet), What: "a value is not looked at"})
			o.Path(PathRule{Root: cl, From: accepted, Via: storeTo(val), Skip: anyOf(valSet, errSet, lit("!"+filtered+"#1==nil")), What: "an accepted value is not taken"})
			o.Path(PathRule{Root: cl, From: dynCall(filter), Via: storeTo(err, filtered+"#1"), Skip: lit(filtered + "#1==nil"), What: "the error of the filter is lost"})
		}
	})
	idle := ck.roleVar(oneOff, "var:bool*", "<bool>")
	wait := ck.roleVar(oneOff, "var:bool*", "dyn:*ExecIdleCallback*#0")
	ck.Do("errors", "an error or the disposal of the directive ends the wait with that error, which nothing overwrites", func(o *Obl) {
		each(oneOff, func(cl *ssa.Function) {
			o.Guard(GuardRule{Root: cl, Effect: storeTo(err), Needs: []Pred{noErr}, Optional: true, What: "an error is overwritten"})
		})
		if cl := o.litArg(oneOff, 2, hnd...); cl != nil {
			o.Path(PathRule{Root: cl, Via: storeTo(err, "ErrDirectiveDisposed"), Skip: errSet, What: "the disposal of the directive is not reported"})
		}
		o.Path(PathRule{Root: oneOff, From: lit("Bus.AddDirective(*)#2==nil"), Via: calls(addIdle), Until: anyOf(waitSel, isExit), What: "the wait does not watch the idle state"})
		o.Never(oneOff, allOf(calls("Bus.AddDirective"), notP(callArgs("Bus.AddDirective", "*", "<Directive>", "*"))), "another directive is added")
		if idle == "" || wait == "" {
			return
		}
		if cl := o.litArg(oneOff, 1, addIdle); cl != nil {
			policy := "dyn:*ExecIdleCallback*(*)"
			o.Path(PathRule{Root: cl, Via: storeTo(idle, "<bool>"), Skip: errSet, What: "the idle state is not noted"})
			o.Path(PathRule{Root: cl, Via: dynCallArgs("*ExecIdleCallback*", "<bool>|"+idle, "<[]error>"), Skip: errSet, What: "the idle policy is not asked"})
			o.Path(PathRule{Root: cl, Via: storeTo(wait, policy+"#0"), Skip: errSet, What: "the decision of the idle policy is lost"})
			o.Path(PathRule{Root: cl, Via: storeTo(err, policy+"#1"), Skip: anyOf(errSet, lit(policy+"#1==nil")), What: "the error of the idle policy is lost"})
		}
	})
	ck.Do("outcome", "the wait ends with the value, with the error, or idle without a value when the policy says so, and only then", func(o *Obl) {
		o.Path(PathRule{Root: oneOff, From: valSet, Via: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) == val && c.Str(r[3]) == "nil" }), Forbid: waitSel, What: "the value is not returned"})
		o.Path(PathRule{Root: oneOff, From: errSet, Via: exitErr(err), Skip: valSet, Forbid: waitSel, What: "the error is not returned"})
		o.Path(PathRule{Root: oneOff, From: recvFrom("Context.Done(<Context>)"), Via: exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[3]) == 2 }), Forbid: waitSel, What: "the end of the context does not end the wait"})
		o.Path(PathRule{Root: oneOff, From: waitSel, Via: anyOf(entersHold, recvFrom("Context.Done(<Context>)")), Until: isExit, What: "the state is not read again after a change"})
		o.Guard(GuardRule{Root: oneOff, Effect: waitSel, Needs: []Pred{noVal}, Reset: entersHold, What: "waits although there is a value"})
		o.Guard(GuardRule{Root: oneOff, Effect: waitSel, Needs: []Pred{noErr}, Reset: entersHold, What: "waits although there is an error"})
		o.Guard(GuardRule{Root: oneOff, Effect: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "nil" }), Needs: []Pred{valSet}, What: "returns a value that is none"})
		o.Never(oneOff, exitWith(func(c *Ctx, r []Val) bool { s := c.Str(r[0]); return s != "nil" && s != val }), "returns another value")
		if idle == "" || wait == "" {
			return
		}
		none := exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) == "nil" && c.W.nilness(c.S.env, r[3]) != 2 })
		o.Guard(GuardRule{Root: oneOff, Effect: none, Needs: []Pred{lit(idle)}, What: "returns without a value although the directive is not idle"})
		o.Guard(GuardRule{Root: oneOff, Effect: none, Needs: []Pred{lit("!" + wait)}, What: "returns without a value although the policy says to wait"})
		o.Guard(GuardRule{Root: oneOff, Effect: waitSel, Needs: []Pred{lit("!"+idle, wait)}, Reset: entersHold, What: "waits although the directive is idle and the policy says to return"})
	})
	ck.Do("removed", "the value-disposed callback is called when the returned value is removed or the directive disposed, and not otherwise", func(o *Obl) {
		same := lit("AttachedValue.GetValueID("+val+")==AttachedValue.GetValueID(<AttachedValue>)", "AttachedValue.GetValueID(<AttachedValue>)==AttachedValue.GetValueID("+val+")")
		differ := lit("!AttachedValue.GetValueID("+val+")==AttachedValue.GetValueID(<AttachedValue>)", "!AttachedValue.GetValueID(<AttachedValue>)==AttachedValue.GetValueID("+val+")")
		if cl := o.litArg(oneOff, 1, hnd...); cl != nil {
			o.Path(PathRule{Root: cl, Via: dynCall(cb), Skip: anyOf(noCb, noVal, differ), What: "the removal of the returned value is not reported"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{same}, What: "the removal of another value is reported"})
		}
		if cl := o.litArg(oneOff, 2, hnd...); cl != nil {
			o.Path(PathRule{Root: cl, Via: dynCall(cb), Skip: noCb, What: "the disposal of the directive is not reported"})
		}
		each(oneOff, func(cl *ssa.Function) {
			o.Never(cl, allOf(anyOf(dynCall(cb)), inHold), "the callback is called with the lock held")
		})
	})
	ck.Do("collect", "collecting returns the values of the requested type that are present when the directive is idle, and an error of a resolver or the disposal ends it", func(o *Obl) {
		fn := collect
		const vals, ids, err, is, got, id = "var:[]T", "var:[]uint32", "var:error", "is(AttachedValue.GetValue(<AttachedValue>),T)", "AttachedValue.GetValue(<AttachedValue>).(T)", "AttachedValue.GetValueID(<AttachedValue>)"
		errSet, noErr := lit("!"+err+"==nil"), lit(err+"==nil")
		idle := ck.roleVar(fn, "var:bool*", "<bool>")
		// returned: the flag that the callbacks look at and the function itself sets
		returned := ""
		if cl := o.litArg(fn, 1, hnd...); cl != nil {
			returned = ck.testedVar(cl, "var:bool*", idle)
		}
		if returned == "" {
			o.Fail("returned", fn.Pos(), nil, "the removal of a value does not look at whether the values were returned")
			return
		}
		ret, notRet := lit(returned), lit("!"+returned)
		if cl := o.litArg(fn, 0, hnd...); cl != nil {
			add := listAdd(vals, got)
			addID := listAdd(ids, id)
			o.Guard(GuardRule{Root: cl, Effect: listStore(vals, "append", "prepend", "other", "delete", "clear"), Needs: []Pred{lit(is)}, What: "a value of another type is collected"})
			o.Guard(GuardRule{Root: cl, Effect: listStore(vals, "append", "prepend", "other", "delete", "clear"), Needs: []Pred{notRet}, What: "the values are changed after they were returned"})
			for _, e := range []Pred{add, addID} {
				o.Path(PathRule{Root: cl, Via: e, Skip: anyOf(lit("!"+is), ret), What: "a value, or its id, is not collected"})
			}
		}
		if cl := o.litArg(fn, 1, hnd...); cl != nil {
			match := lit(id+"=="+ids+"[]", ids+"[]=="+id, "contains("+ids+","+id+")")
			differ := lit("!"+id+"=="+ids+"[]", "!"+ids+"[]=="+id)
			for _, l := range []string{vals, ids} {
				o.Path(PathRule{Root: cl, From: match, Via: listStore(l, "delete"), Skip: ret, What: "a removed value, or its id, is kept"})
				o.Guard(GuardRule{Root: cl, Effect: listStore(l, "delete", "clear", "other"), Needs: []Pred{match}, Reset: iter(ids), What: "another value is removed"})
				o.DeletesOne(busPkg, l)
			}
			o.Path(PathRule{Root: cl, From: match, Via: dynCall(cb), Skip: anyOf(notRet, noCb, lit("swap(*,true)", "load(*)")), What: "the removal of a returned value is not reported"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{match}, What: "the removal of another value is reported"})
			o.ForEach(ForEachRule{Root: cl, Coll: []string{ids}, Must: anyOf(match, differ), Leave: match, Optional: true, Reach: true, ReachSkip: lit("!" + is), What: "a collected value is not looked at"})
		}
		if cl := o.litArg(fn, 2, hnd...); cl != nil {
			o.Path(PathRule{Root: cl, Via: storeTo(err, "ErrDirectiveDisposed"), Skip: anyOf(ret, errSet), What: "the disposal does not end the wait"})
			o.Path(PathRule{Root: cl, From: ret, Via: dynCall(cb), Skip: anyOf(noCb, lit("swap(*,true)", "load(*)")), What: "the disposal after the values were returned is not reported"})
		}
		each(fn, func(cl *ssa.Function) {
			o.Guard(GuardRule{Root: cl, Effect: storeTo(err), Needs: []Pred{noErr}, Optional: true, What: "an error is overwritten"})
			o.Never(cl, allOf(dynCall(cb), inHold), "the callback is called with the lock held")
		})
		if cl := o.litArg(fn, 1, addIdle); cl != nil && idle != "" {
			o.Path(PathRule{Root: cl, Via: storeTo(idle, "<bool>"), Skip: anyOf(errSet, lit(idle+"==<bool>", "<bool>=="+idle)), What: "the idle state is not noted"})
			o.ForEach(ForEachRule{Root: cl, Coll: []string{"<[]error>"}, Must: anyOf(lit("<[]error>[]==nil"), storeTo(err, "<[]error>[]")), Leave: storeTo(err, "<[]error>[]"), Reach: true, ReachSkip: errSet, What: "an error of a resolver is lost"})
			o.Path(PathRule{Root: cl, From: lit("!<[]error>[]==nil"), Via: storeTo(err, "<[]error>[]"), What: "an error of a resolver is lost"})
		}
		// the function itself
		o.Path(PathRule{Root: fn, From: lit("Bus.AddDirective(*)#2==nil"), Via: calls(addIdle), Until: anyOf(waitSel, isExit), What: "the wait does not watch the idle state"})
		o.Never(fn, allOf(calls("Bus.AddDirective"), notP(callArgs("Bus.AddDirective", "*", "<Directive>", "*"))), "another directive is added")
		o.Path(PathRule{Root: fn, From: errSet, Via: exitErr(err, err+"#*"), Forbid: waitSel, What: "the error is not returned"})
		o.Path(PathRule{Root: fn, From: recvFrom("Context.Done(<Context>)"), Via: exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[3]) == 2 }), Forbid: waitSel, What: "the end of the context does not end the wait"})
		o.Path(PathRule{Root: fn, From: waitSel, Via: anyOf(entersHold, recvFrom("Context.Done(<Context>)")), Until: isExit, What: "the state is not read again after a change"})
		done := exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[3]) != 2 })
		some := lit("!<bool>", "!len("+vals+"*)==0", "0<len("+vals+"*)")
		o.Guard(GuardRule{Root: fn, Effect: waitSel, Needs: []Pred{noErr}, Reset: entersHold, What: "waits although there is an error"})
		o.Guard(GuardRule{Root: fn, Effect: done, Needs: []Pred{noErr}, Reset: entersHold, What: "returns success although there is an error"})
		o.Never(fn, allOf(done, notP(exitWith(func(c *Ctx, r []Val) bool { return globAny([]string{vals, vals + "#*"}, c.Str(r[0])) }))), "returns other values than the collected ones")
		if idle != "" {
			o.Guard(GuardRule{Root: fn, Effect: done, Needs: []Pred{lit(idle)}, Reset: entersHold, What: "returns although the directive is not idle"})
			o.Guard(GuardRule{Root: fn, Effect: done, Needs: []Pred{some}, Reset: entersHold, What: "returns no value although it was told to wait for one"})
			o.Guard(GuardRule{Root: fn, Effect: waitSel, Needs: []Pred{lit("!"+idle, "len("+vals+"*)==0")}, Reset: entersHold, What: "waits although the directive is idle"})
			o.Guard(GuardRule{Root: fn, Effect: waitSel, Needs: []Pred{lit("!"+idle, "<bool>")}, Reset: entersHold, What: "waits for a value although it was not told to"})
		}
		o.Guard(GuardRule{Root: fn, Effect: done, Needs: []Pred{allOf(storeTo(returned, "*"), notP(storeTo(returned, "false")))}, Reset: entersHold, What: "the values are returned without being marked as returned"})
	})
	ck.Do("typed", "the typed variants accept only values of the requested type that the caller's filter accepts, and return what they accepted", func(o *Obl) {
		ck.Opaque = "bus.ExecOneOffWithFilter*"
		defer func() { ck.Opaque = "" }()
		const av, is = "AttachedValue.GetValue(<AttachedValue>)", "is(AttachedValue.GetValue(<AttachedValue>),T)"
		for _, w := range []struct{ fn, filter, arg string }{
			{"ExecOneOffWithFilterTyped", "<func(TypedAttachedValue[T]) (bool, error)>", "new typedAttachedValue"},
			{"ExecWaitValue", "<func(T) (bool, error)>", av + ".(T)"},
		} {
			fn := p.Func(busPkg, w.fn)
			cl := o.litArg(fn, 5, "bus.ExecOneOffWithFilter")
			if cl != nil {
				yes := exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "false" })
				asked := exitWith(func(c *Ctx, r []Val) bool {
					return glob("dyn:"+w.filter+"*#0", c.Str(r[0])) && glob("dyn:"+w.filter+"*#1", c.Str(r[1]))
				})
				o.Guard(GuardRule{Root: cl, Effect: yes, Needs: []Pred{lit(is)}, What: "a value of another type is accepted"})
				o.Guard(GuardRule{Root: cl, Effect: allOf(yes, notP(asked)), Needs: []Pred{lit(w.filter + "==nil")}, What: "a value is accepted without asking the filter"})
				o.Guard(GuardRule{Root: cl, Effect: allOf(isExit, notP(yes)), Needs: []Pred{lit("!"+is, "!dyn:"+w.filter+"*#0")}, What: "a value that the filter did not reject is rejected"})
				o.Never(cl, allOf(dynCall(w.filter), notP(dynCallArgs(w.filter, w.arg))), "the filter is asked about another value")
				if w.arg == "new typedAttachedValue" {
					o.Never(cl, allOf(storeTo("typedAttachedValue.vid"), notP(storeTo("typedAttachedValue.vid", "AttachedValue.GetValueID(<AttachedValue>)"))), "the filter is asked about another value")
					o.Never(cl, allOf(storeTo("typedAttachedValue.val"), notP(storeTo("typedAttachedValue.val", av+".(T)"))), "the filter is asked about another value")
				}
			}
		}
		for _, w := range []struct{ fn, xfrm, inner, out, arg string }{
			{"ExecOneOffWithXfrm", "<func(AttachedValue) (Value, bool, error)>", "bus.ExecOneOffWithFilter", "var:Value", "<AttachedValue>"},
			{"ExecOneOffWithXfrmTyped", "<func(TypedAttachedValue[T]) (R, bool, error)>", "bus.ExecOneOffWithFilterTyped", "var:R", "<TypedAttachedValue>"},
		} {
			fn := p.Func(busPkg, w.fn)
			cl := o.litArg(fn, 5, w.inner)
			if cl != nil {
				res := "dyn:" + w.xfrm + "(" + w.arg + ")"
				yes := exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "false" && c.W.nilness(c.S.env, r[1]) != 2 })
				for _, n := range []Pred{lit(res + "#1"), lit(res + "#2==nil"), storeTo(w.out, res+"#0")} {
					o.Guard(GuardRule{Root: cl, Effect: yes, Needs: []Pred{n}, What: "a value is accepted that the transform function did not, or what it made of it is lost"})
				}
				o.Guard(GuardRule{Root: cl, Effect: allOf(isExit, notP(yes)), Needs: []Pred{lit("!"+res+"#1", "!"+res+"#2==nil")}, What: "a value that the transform function accepted is rejected"})
				o.Path(PathRule{Root: cl, From: lit("!" + res + "#2==nil"), Via: exitErr(res + "#2"), What: "the error of the transform function is lost"})
			}
			o.Never(fn, exitWith(func(c *Ctx, r []Val) bool {
				x := c.Str(r[0])
				return x != w.out && !(c.W.nilness(c.S.env, r[4]) != 1 || c.W.nilness(c.S.env, r[1]) == 1)
			}), "something else than the transformed value is returned")
		}
		passed := []string{"<Context>", "<Bus>", "<Directive>", "<ExecIdleCallback>|<func(bool, []error) (bool, error)>", "<func()>"}
		for name, inner := range map[string]string{"ExecOneOff": "bus.ExecOneOffWithFilter", "ExecOneOffTyped": "bus.ExecOneOffWithFilterTyped", "ExecOneOffWithFilterTyped": "bus.ExecOneOffWithFilter", "ExecWaitValue": "bus.ExecOneOffWithFilter", "ExecOneOffWithXfrm": "bus.ExecOneOffWithFilter", "ExecOneOffWithXfrmTyped": "bus.ExecOneOffWithFilterTyped"} {
			fn := p.Func(busPkg, name)
			o.Path(PathRule{Root: fn, Via: callArgs(inner, passed...), What: "the directive is not executed with the given arguments"})
			from := inner + "(*)"
			o.Never(fn, exitWith(func(c *Ctx, r []Val) bool {
				n := len(r)
				return c.W.nilness(c.S.env, r[n-1]) != 2 && c.W.nilness(c.S.env, r[n-2]) != 1 && (!glob(from+"#2", c.Str(r[n-2])) || !glob(from+"#1", c.Str(r[n-3])))
			}), "another reference is returned")
		}
		counted := p.Func(busPkg, "NewOneOffRefCountResolver")
		for _, cl := range p.returnedClosures(counted) {
			const inner = "bus.ExecOneOffWithFilterTyped"
			o.Path(PathRule{Root: cl, Via: callArgs(inner, "<Context>", "<Bus>", "<Directive>", "<ExecIdleCallback>", "<func()>", "<func(TypedAttachedValue[T]) (bool, error)>"), What: "the directive is not executed with the given arguments, or the end of its value is not reported"})
			o.Never(cl, exitWith(func(c *Ctx, r []Val) bool {
				return c.W.nilness(c.S.env, r[2]) != 2 && c.W.nilness(c.S.env, r[1]) != 1 && (!glob("TypedAttachedValue*.GetValue("+inner+"(*)#0)", c.Str(r[0])) || c.W.nilness(c.S.env, r[1]) == 1)
			}), "another value is returned, or nothing to release it")
		}
		typed := p.Func(busPkg, "ExecOneOffWithFilterTyped")
		made := exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "nil" })
		inner := "bus.ExecOneOffWithFilter(*)#0"
		o.Guard(GuardRule{Root: typed, Effect: made, Needs: []Pred{storeTo("typedAttachedValue.vid", "AttachedValue.GetValueID("+inner+")")}, What: "another value id is returned"})
		o.Guard(GuardRule{Root: typed, Effect: made, Needs: []Pred{storeTo("typedAttachedValue.val", "AttachedValue.GetValue("+inner+").(T)")}, What: "another value is returned"})
		o.Guard(GuardRule{Root: typed, Effect: allOf(isExit, notP(made)), Needs: []Pred{lit("!bus.ExecOneOffWithFilter(*)#3==nil", "bus.ExecOneOffWithFilter(*)#2==nil")}, What: "the value is not returned"})
		wv := p.Func(busPkg, "ExecWaitValue")
		o.Never(wv, exitWith(func(c *Ctx, r []Val) bool {
			return c.W.nilness(c.S.env, r[2]) != 1 && !glob("AttachedValue.GetValue("+inner+").(T)", c.Str(r[0]))
		}), "another value is returned")
	})
	ck.Do("idle-policy", "the predefined idle policies report a resolver error unless they are told to ignore it, and wait exactly as documented", func(o *Obl) {
		elem := "<[]error>[]"
		failed := lit("!" + elem + "==nil")
		for _, fn := range []*ssa.Function{p.Func(busPkg, "WaitWhenIdle"), p.Func(busPkg, "ReturnWhenIdle")} {
			waits := fn.Name() == "WaitWhenIdle"
			skip := lit("<bool>")
			if !waits {
				skip = lit("!<bool>")
			}
			cls := p.returnedClosures(fn)
			if len(cls) == 0 {
				o.Fail("policy", fn.Pos(), nil, "%s returns no function", fnName(fn))
			}
			for _, cl := range cls {
				o.ForEach(ForEachRule{Root: cl, Coll: []string{"<[]error>"}, Must: anyOf(failed, lit(elem+"==nil")), Leave: failed, Reach: true, ReachSkip: skip, What: "a resolver error is not looked at"})
				o.Path(PathRule{Root: cl, From: failed, Via: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) == "false" && c.Str(r[1]) == elem }), What: "a resolver error is not returned"})
				if waits {
					o.Never(cl, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "true" && c.W.nilness(c.S.env, r[1]) != 2 }), "does not wait")
				} else {
					idleRet := exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "true" })
					o.Guard(GuardRule{Root: cl, Effect: idleRet, Needs: []Pred{lit("<bool>")}, What: "does not wait although the directive is not idle"})
					o.Guard(GuardRule{Root: cl, Effect: allOf(isExit, notP(idleRet)), Needs: []Pred{lit("!<bool>")}, What: "waits although the directive is idle"})
				}
			}
		}
		r := p.Func(busPkg, "ReturnIfIdle")
		o.Path(PathRule{Root: r, From: lit("<bool>"), Via: calls("bus.ReturnWhenIdle"), What: "does not return when idle"})
		o.Path(PathRule{Root: r, From: lit("!<bool>"), Via: callArgs("bus.WaitWhenIdle", "false"), What: "does not wait when idle, or ignores errors"})
		o.Path(PathRule{Root: oneOff, From: lit("<ExecIdleCallback>==nil"), Via: callArgs("bus.WaitWhenIdle", "false"), What: "no idle policy is used"})
	})
}

// checkB03: one-shot execution never leaks or prematurely drops its directive reference.
func checkB03(ck *Check) {
	p := ck.P
	var fns, helpers []*ssa.Function
	for _, fn := range p.FuncsIn(busPkg) {
		fns = append(fns, fn)
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		ts := fn.Signature.Results()
		for i := 0; i < ts.Len(); i++ {
			if isRefType(ts.At(i).Type()) && i == ts.Len()-2 && isErrorType(ts.At(i+1).Type()) && fn.Signature.Recv() == nil {
				helpers = append(helpers, fn)
			}
		}
	}
	ck.Do("references", "the directive reference is released on every path that does not return it, never twice returned after its release, and never returned together with an error of the helper", func(o *Obl) {
		o.Resources(ResRule{Fns: fns, Acquire: acquireRef, Contract: true, UseChecked: true, What: "references", Min: 6})
	})
	ck.Do("idle-callback", "the idle callback that a helper registers is unregistered on every path", func(o *Obl) {
		var all []*ssa.Function
		for _, fn := range helpers {
			all = append(all, p.parts(fn)...)
		}
		o.Resources(ResRule{Fns: all, Acquire: acquireRel, UseChecked: true, What: "release functions", Min: 2})
	})
	ck.Do("result", "a value comes with the reference that keeps it, an error without one", func(o *Obl) {
		if len(helpers) < 7 {
			o.Fail("helpers", token.NoPos, nil, "found %d helpers that execute a directive and return its reference", len(helpers))
		}
		for _, fn := range helpers {
			o.SiteName(fnName(fn))
			o.Never(fn, exitWith(func(c *Ctx, r []Val) bool {
				n := len(r)
				err, ref := r[n-1], r[n-2]
				if c.W.nilness(c.S.env, err) != 2 || c.W.nilness(c.S.env, ref) == 1 {
					return false
				}
				// the result of another helper is passed on as it is
				e, f := c.Str(err), c.Str(ref)
				return !(strings.HasPrefix(e, "bus.Exec") && strings.LastIndex(e, "#") > 0 && strings.LastIndex(f, "#") > 0 && e[:strings.LastIndex(e, "#")] == f[:strings.LastIndex(f, "#")])
			}), "an error is returned together with a reference")
			o.Never(fn, exitWith(func(c *Ctx, r []Val) bool {
				n := len(r)
				return c.W.nilness(c.S.env, r[n-1]) == 1 && c.W.nilness(c.S.env, r[0]) == 2 && c.Str(r[0]) != "zero" && c.W.nilness(c.S.env, r[n-2]) == 1
			}), "a value is returned without the reference that keeps it")
		}
	})
}

func init() {
	register("B03", "Typestate analysis of the directive reference and the idle callback from their acquisition to every return", checkB03)
	register("B04", "Path, guard and lock analysis of the callbacks and wait loops of one-shot execution", checkB04)
}

// freeVarBinding: the value a captured variable is bound to where its closure is made (nil: not known).
func freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && idx >= 0 && idx < len(mc.Bindings) {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

package main

import (
	"golang.org/x/tools/go/ssa"
)

const bridgePkg = "bus/bridge"

// mapDel: a key is deleted from a map, or the map is cleared.
func mapDel(m, k string) Pred {
	return func(c *Ctx, ev *Event) bool {
		cc := execCall(ev)
		if cc == nil {
			return false
		}
		b, ok := cc.Value.(*ssa.Builtin)
		return ok && (b.Name() == "delete" && glob(m, c.StrV(cc.Args[0])) && glob(k, c.StrV(cc.Args[1])) || b.Name() == "clear" && glob(m, c.StrV(cc.Args[0])))
	}
}

// looksUp: a map is read at a key.
func looksUp(m, k string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		l, ok := ev.Instr.(*ssa.Lookup)
		return ok && glob(m, c.StrV(l.X)) && glob(k, c.StrV(l.Index))
	}
}

// pkgLitArg: the function literals passed as argument n to the named functions anywhere in a package.
func (o *Obl) pkgLitArg(rel string, n int, names ...string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range o.ck.P.FuncsIn(rel) {
		if f.Parent() != nil {
			continue
		}
		if l := o.litArgOpt(f, n, names...); l != nil && !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return out
}

// pkgLitsArg: like pkgLitArg, all literals.
func (o *Obl) pkgLitsArg(rel string, n int, names ...string) []*ssa.Function {
	var out []*ssa.Function
	p := o.ck.P
	for _, f := range p.FuncsIn(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !p.calleeIs(ci.Common(), names) {
					continue
				}
				args := ci.Common().Args
				if ci.Common().IsInvoke() {
					args = append([]ssa.Value{ci.Common().Value}, args...)
				}
				if l := p.funcValue(args[n], 0); l != nil {
					out = append(out, l)
				} else {
					o.Fail("callback", in.Pos(), nil, "%s passes no known function to %s", fnName(f), p.callName(ci.Common()))
				}
			}
		}
	}
	return out
}

func checkB06(ck *Check) {
	p := ck.P
	const (
		av   = "<AttachedValue>"
		id   = "AttachedValue.GetValueID(<AttachedValue>)"
		got  = "AttachedValue.GetValue(<AttachedValue>)"
		add  = "ResolverHandler.AddValue"
		drop = "ResolverHandler.RemoveValue"
	)
	mutes := calls(add, drop, "ResolverHandler.ClearValues", "ResolverHandler.MarkIdle")
	accepted := lit(add + "(*)#1")
	for _, typ := range []string{"PassThruHandler", "TransformHandler"} {
		m, hnd, cb, fn := typ+".idMapping", typ+".handler", typ+".disposeCb", typ+".xfrm"
		noHandler := lit(hnd + "==nil")
		vals := []string{got}
		plain := true
		if typ == "TransformHandler" {
			vals, plain = append(vals, "dyn:"+fn+"("+av+")#0"), false
		}
		ck.Do(typ+".added", "every source value is forwarded once, as transformed, and the forwarded value is recorded under the source value", func(o *Obl) {
			r := p.Method(busPkg, typ, "HandleValueAdded")
			var any []Pred
			for _, v := range vals {
				any = append(any, callArgs(add, hnd, v))
			}
			skip := noHandler
			if !plain {
				skip = anyOf(noHandler, lit("!dyn:"+fn+"(*)#1"))
				x, self := dynCallArgs(fn, av), allOf(dynCall(fn), notP(dynCallArgs(fn, av)))
				o.Never(r, self, "something else than the value is transformed")
				o.Guard(GuardRule{Root: r, Effect: callArgs(add, hnd, vals[1]), Needs: []Pred{lit("dyn:" + fn + "(*)#1")}, What: "a value is forwarded that the transform rejected"})
				o.Guard(GuardRule{Root: r, Effect: callArgs(add, hnd, got), Needs: []Pred{lit(fn + "==nil")}, What: "a value is forwarded that was not transformed"})
				o.Path(PathRule{Root: r, Via: x, Skip: anyOf(lit(fn+"==nil"), noHandler), What: "a value is not transformed"})
			}
			o.Path(PathRule{Root: r, Via: anyOf(any...), Skip: skip, What: "a value is not forwarded"})
			o.Path(PathRule{Root: r, From: calls(add), Via: isExit, Forbid: calls(add), What: "a value is forwarded twice"})
			o.Never(r, allOf(mutes, notP(anyOf(any...))), "something else than the value is forwarded, or values are removed")
			put := mapPut(m, id, add+"(*)#0")
			o.Path(PathRule{Root: r, From: accepted, Via: put, What: "the forwarded value is not recorded"})
			o.Guard(GuardRule{Root: r, Effect: mapPut(m, "*", "*"), Needs: []Pred{accepted}, What: "a value is recorded that was not accepted"})
			o.Never(r, allOf(mapPut(m, "*", "*"), notP(put)), "another pair is recorded")
			o.Never(r, mapDel(m, "*"), "a record is deleted when a value is added")
		})
		ck.Do(typ+".removed", "when a source value is removed exactly the value forwarded for it is removed", func(o *Obl) {
			r := p.Method(busPkg, typ, "HandleValueRemoved")
			rel := callArgs(drop, hnd, m+"["+id+"]")
			o.Path(PathRule{Root: r, Via: rel, Skip: anyOf(noHandler, lit("!has("+m+","+id+")")), What: "the forwarded value stays"})
			o.Guard(GuardRule{Root: r, Effect: calls(drop), Needs: []Pred{lit("has(" + m + "," + id + ")")}, What: "a value is removed although none was forwarded"})
			o.Never(r, allOf(mutes, notP(rel)), "another value is removed")
			o.Never(r, anyOf(allOf(mapDel(m, "*"), notP(mapDel(m, id))), mapPut(m, "*", "*")), "the record of another value is changed")
		})
		ck.Do(typ+".disposed", "when the source directive is disposed all forwarded values are withdrawn and the owner is told", func(o *Obl) {
			r := p.Method(busPkg, typ, "HandleInstanceDisposed")
			clear := callArgs("ResolverHandler.ClearValues", hnd)
			o.Or(func(o *Obl) {
				o.ForEach(ForEachRule{Root: r, Coll: []string{m}, Must: callArgs(drop, hnd, m+"[]"), Reach: true, ReachSkip: noHandler, What: "a forwarded value is not withdrawn"})
			}, func(o *Obl) {
				o.Path(PathRule{Root: r, Via: clear, Skip: noHandler, What: "the forwarded values are not withdrawn"})
			})
			o.Path(PathRule{Root: r, Via: dynCall(cb), Skip: lit(cb + "==nil"), What: "the owner is not told"})
			o.Path(PathRule{Root: r, From: dynCall(cb), Via: isExit, Forbid: dynCall(cb), What: "the owner is told twice"})
			o.Never(r, calls(add), "a value is added when the directive is disposed")
		})
		ck.Do(typ+".created", "the handler forwards to what it was created with", func(o *Obl) {
			r := p.Func(busPkg, "New"+typ)
			o.Path(PathRule{Root: r, Via: storeTo(hnd, "<ResolverHandler>"), What: "the receiving handler is not stored"})
			o.Path(PathRule{Root: r, Via: storeTo(cb, "<func()>"), What: "the disposal callback is not stored"})
			o.Path(PathRule{Root: r, Via: storeTo(m, "makemap*"), What: "the handler has no map"})
			if !plain {
				o.Path(PathRule{Root: r, Via: storeTo(fn, "<func(*"), What: "the transform is not stored"})
			}
		})
	}

	const newHnd, rh, cancel = "bus.NewCallbackHandler|directive.NewCallbackHandler", "<ResolverHandler>", "context.WithCancel*(<Context>)#1"
	res := p.Method(bridgePkg, "BusBridgeResolver", "Resolve")
	const target, dir = "BusBridgeResolver.target", "BusBridgeResolver.dir"
	const forward = "Bus.AddDirective(" + target + "," + dir + ",*)"
	ck.Do("bridge.values", "the bridge pairs every value of the target bus with one value of the source directive", func(o *Obl) {
		names := []string{"bus.NewCallbackHandler", "directive.NewCallbackHandler"}
		pass := callArgs("bus.NewPassThruHandler", rh, cancel)
		added, removed, disposed := o.pkgLitArg(bridgePkg, 0, names...), o.pkgLitArg(bridgePkg, 1, names...), o.pkgLitArg(bridgePkg, 2, names...)
		if len(added)+len(removed)+len(disposed) == 0 {
			// the values pass through the handler checked above
			o.Path(PathRule{Root: res, From: calls("Bus.AddDirective"), Via: isExit, What: "the directive is not forwarded"})
			o.Guard(GuardRule{Root: res, Effect: calls("Bus.AddDirective"), Needs: []Pred{pass}, What: "the values are not forwarded to the resolver handler"})
			return
		}
		const vm = "makemap*"
		put := mapPut(vm, id, add+"(*)#0")
		for _, r := range added {
			o.Path(PathRule{Root: r, Via: callArgs(add, rh, got), What: "a value is not forwarded"})
			o.Path(PathRule{Root: r, From: calls(add), Via: isExit, Forbid: calls(add), What: "a value is forwarded twice"})
			o.Never(r, allOf(mutes, notP(callArgs(add, rh, got))), "something else than the value is forwarded, or values are removed")
			o.Path(PathRule{Root: r, From: accepted, Via: put, What: "the forwarded value is not recorded"})
			o.Guard(GuardRule{Root: r, Effect: mapPut(vm, "*", "*"), Needs: []Pred{accepted}, What: "a value is recorded that was not accepted"})
			o.Never(r, allOf(mapPut(vm, "*", "*"), notP(put)), "another pair is recorded")
			o.Never(r, mapDel(vm, "*"), "a record is deleted when a value is added")
			o.Never(r, dynCall(cancel), "forwarding ends when a value is added")
		}
		for _, r := range removed {
			rel := callArgs(drop, rh, vm+"["+id+"]")
			has := "has(" + vm + "," + id + ")"
			o.Path(PathRule{Root: r, Via: rel, Skip: lit("!" + has), What: "the forwarded value stays"})
			o.Guard(GuardRule{Root: r, Effect: calls(drop), Needs: []Pred{lit(has)}, What: "a value is removed although none was forwarded"})
			o.Never(r, allOf(mutes, notP(rel)), "another value is removed")
			o.Never(r, anyOf(allOf(mapDel(vm, "*"), notP(mapDel(vm, id))), mapPut(vm, "*", "*")), "the record of another value is changed")
			o.Never(r, dynCall(cancel), "forwarding ends when a value is removed")
		}
		for _, r := range disposed {
			o.Or(func(o *Obl) {
				o.Path(PathRule{Root: r, Via: callArgs("ResolverHandler.ClearValues", rh), What: "the forwarded values are not withdrawn"})
			}, func(o *Obl) {
				o.ForEach(ForEachRule{Root: r, Coll: []string{vm}, Must: callArgs(drop, rh, vm+"[]"), Reach: true, What: "a forwarded value is not withdrawn"})
			})
			o.Path(PathRule{Root: r, Via: dynCall(cancel, "<*func()*>", "<CancelFunc>"), What: "the resolver is not told that the directive was disposed"})
			o.Never(r, calls(add), "a value is added when the directive is disposed")
		}
		o.Lockset(LockRule{Pkg: bridgePkg, Lock: locks("new Mutex"), Unlock: unlocks("new Mutex"), Held: anyOf(mapPut("makemap*", "*", "*"), mapDel("makemap*", "*")), Free: callsOut, Funcs: append(append(added, removed...), disposed...), What: "the map of forwarded values is changed without its lock", WhatF: "calls out while holding the lock of the map of forwarded values"})
	})
	ck.Do("bridge.forward", "the bridge forwards the directive to the target bus until it is released, canceled or disposed there", func(o *Obl) {
		o.Path(PathRule{Root: res, Via: callArgs("Bus.AddDirective", target, dir, "*"), Skip: lit(target+"==nil", dir+"==nil"), What: "the directive is not forwarded"})
		o.Never(res, allOf(calls("Bus.AddDirective"), notP(callArgs("Bus.AddDirective", target, dir, "*"))), "another directive is forwarded")
		okLit, failed := lit(forward+"#2==nil"), lit("!"+forward+"#2==nil")
		o.Path(PathRule{Root: res, From: failed, Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return !glob("*"+forward+"#2*", c.Str(r[0])) }), What: "an error of the target bus is not returned"})
		o.Path(PathRule{Root: res, From: okLit, Via: calls("Reference.Release"), What: "the forwarded directive is not released"})
		ended := recvFrom("Context.Done(<Context>)", "Context.Done(context.WithCancel*(<Context>)#0)")
		o.Guard(GuardRule{Root: res, Effect: callArgs("Reference.Release", forward+"#1"), Needs: []Pred{ended}, What: "the forwarded directive is released although neither side ended"})
		o.Path(PathRule{Root: res, From: okLit, Via: recvFrom("Context.Done(context.WithCancel*(<Context>)#0)"), Skip: recvFrom("Context.Done(<Context>)"), What: "the resolver does not wait until the directive is disposed"})
	})
	ck.Do("bridge.loop", "a directive that is already forwarded is not forwarded again", func(o *Obl) {
		r := p.Method(bridgePkg, "BusBridge", "HandleDirective")
		const seen, d = "BusBridge.seenDi", "Instance.GetDirective(<Instance>)"
		mk := calls("bus_bridge.NewBusBridgeResolver")
		mine := callArgs("bus_bridge.NewBusBridgeResolver", "BusBridge.target", d)
		was, fresh := lit("has("+seen+","+d+")", seen+"["+d+"]"), lit("!has("+seen+","+d+")", "!"+seen+"["+d+"]")
		_ = was
		o.Guard(GuardRule{Root: r, Effect: mk, Needs: []Pred{fresh, mapPut(seen, d, "*")}, What: "a directive is forwarded that may already be forwarded"})
		o.Never(r, allOf(mk, notP(mine)), "another directive is forwarded, or to another bus")
		refused := lit("!dyn:BusBridge.filterFn(<Instance>)#0", "!dyn:BusBridge.filterFn(<Instance>)#1==nil")
		o.Path(PathRule{Root: r, Via: mk, Skip: anyOf(was, refused, lit("BusBridge.target==nil")), What: "a directive is not forwarded"})
		o.Path(PathRule{Root: r, Via: dynCallArgs("BusBridge.filterFn", "<Instance>"), Skip: lit("BusBridge.filterFn==nil", "BusBridge.target==nil"), What: "the filter is not asked"})
		o.Path(PathRule{Root: r, From: refused, Via: isExit, Forbid: anyOf(mk, mapPut(seen, "*", "*")), What: "a directive is forwarded or marked that the filter refused"})
		o.Path(PathRule{Root: r, From: lit("!dyn:BusBridge.filterFn(<Instance>)#1==nil"), Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return !glob("*dyn:BusBridge.filterFn(<Instance>)#1*", c.Str(r[1])) }), What: "the error of the filter is not returned"})
		// the check and the mark are one critical section
		o.Guard(GuardRule{Root: r, Effect: mapPut(seen, d, "*"), Needs: []Pred{looksUp(seen, d)}, Reset: unlocks("BusBridge.mtx"), What: "the directive is not marked in the critical section that found it unmarked"})
		o.Lockset(LockRule{Pkg: bridgePkg, Lock: locks("BusBridge.mtx"), Unlock: unlocks("BusBridge.mtx"), Free: callsOut, Fields: fieldSet(seen), WhatF: "calls out while holding the lock of the marks"})
		o.NotShared(bridgePkg, fieldSet(seen))
		// the mark is removed when the directive is disposed
		unmark := mapDel(seen, d)
		o.Never(r, mapDel(seen, "*"), "the mark is removed while the directive is forwarded")
		reg := func(c *Ctx, ev *Event) bool {
			return calls("Instance.AddDisposeCallback")(c, ev) || goCall("Instance.AddDisposeCallback")(c, ev) || ev.Kind == KInstr && goCall()(c, ev)
		}
		o.Path(PathRule{Root: r, From: mapPut(seen, d, "*"), Via: reg, What: "the mark is never removed"})
		n := 0
		for _, l := range o.pkgLitArg(bridgePkg, 1, "Instance.AddDisposeCallback") {
			n++
			o.Path(PathRule{Root: l, Via: unmark, What: "the mark of a disposed directive stays"})
		}
		if n == 0 {
			o.Fail("unmark", r.Pos(), nil, "no callback removes the mark of a disposed directive")
		}
	})
}

func init() {
	register("B06", "Path, guard and loop analysis of the handlers and callbacks that forward values between directives and buses", checkB06)
}

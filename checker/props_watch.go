package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nested: the function literals of fn at any depth.
func nested(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range fn.AnonFuncs {
		out = append(append(out, f), nested(f)...)
	}
	return out
}

// ownLits: the function literals of fn at any depth whose own body contains the event.
func (ck *Check) ownLits(fn *ssa.Function, ev Pred) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range nested(fn) {
		if ck.ownEvent(f, ev) {
			out = append(out, f)
		}
	}
	return out
}

// loopIndex: the index counts the iterations of a loop.
func loopIndex(v ssa.Value) bool {
	next := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		_, ok = b.X.(*ssa.Phi)
		return ok
	}
	if phi, ok := v.(*ssa.Phi); ok {
		for _, e := range phi.Edges {
			if next(e) {
				return true
			}
		}
	}
	return next(v)
}

// elemAt matches reading one element of a list (not every one in a loop) at an index that renders as one of the patterns.
func elemAt(list string, idx ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		u, ok := ev.Instr.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		return ok && !loopIndex(ia.Index) && glob(list, c.StrV(ia.X)) && (len(idx) == 0 || globAny(idx, c.StrV(ia.Index)))
	}
}

// sent matches the case of a select in which the value was sent.
func sent(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind == KInstr {
			s, ok := ev.Instr.(*ssa.Send)
			return ok && globAny(pats, c.StrV(s.Chan))
		}
		ch, dir, ok := c.selectCase(ev)
		return ok && dir == types.SendOnly && globAny(pats, ch)
	}
}

// both renders the two ways an equality may be written, positive and negated.
func both(a, b string) (eq, ne Pred) {
	return lit(a+"=="+b, b+"=="+a), lit("!"+a+"=="+b, "!"+b+"=="+a)
}

// Monitor runs a monitor over every path of a function.
func (o *Obl) Monitor(root *ssa.Function, init any, step func(c *Ctx, ev *Event, st any) any) {
	w := &Walker{P: o.ck.P, Root: root, Init: init, Interesting: o.ck.interesting(root), Mon: step}
	o.record(trial{viols: o.ck.walk(w), roots: []*ssa.Function{root}})
}

// Ascending: the comparison function orders by key, ascending. key has %T for the compared value.
func (o *Obl) Ascending(cl *ssa.Function, typ, key string) {
	a, b := strings.ReplaceAll(key, "%T", "<"+typ+">"), strings.ReplaceAll(key, "%T", "<"+typ+"#2>")
	isConst := func(r Val) (int64, bool) {
		k, ok := r.V.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		return k.Int64(), true
	}
	less, more := lit(a+"<"+b), lit(b+"<"+a)
	notMore, notLess := lit("!"+b+"<"+a, a+"<"+b, a+"=="+b, b+"=="+a), lit("!"+a+"<"+b, b+"<"+a, a+"=="+b, b+"=="+a)
	o.SiteName(fnName(cl))
	o.Never(cl, exitWith(func(c *Ctx, r []Val) bool {
		if _, ok := isConst(c.Resolve(r[0])); ok {
			return false
		}
		return !globAny([]string{"cmp.Compare(" + a + "," + b + ")", "strings.Compare(" + a + "," + b + ")"}, c.Str(r[0]))
	}), "the order is not ascending")
	sign := func(f func(n int64) bool) Pred {
		return exitWith(func(c *Ctx, r []Val) bool { n, ok := isConst(c.Resolve(r[0])); return ok && f(n) })
	}
	o.Guard(GuardRule{Root: cl, Effect: sign(func(n int64) bool { return n < 0 }), Needs: []Pred{less}, Optional: true, What: "the order is not ascending"})
	o.Guard(GuardRule{Root: cl, Effect: sign(func(n int64) bool { return n > 0 }), Needs: []Pred{more}, Optional: true, What: "the order is not ascending"})
	o.Guard(GuardRule{Root: cl, Effect: sign(func(n int64) bool { return n == 0 }), Needs: []Pred{notMore, notLess}, Optional: true, What: "different values are treated as equal"})
}

// typedValue: the typed value that is passed on is the attached value's.
func (o *Obl) typedValue(cl *ssa.Function, id, val string) {
	o.Never(cl, anyOf(allOf(storeTo("typedAttachedValue.vid"), notP(storeTo("typedAttachedValue.vid", id))), allOf(storeTo("typedAttachedValue.val"), notP(storeTo("typedAttachedValue.val", val)))), "another value is passed on")
}

func checkB05(ck *Check) {
	p := ck.P
	ck.Assume("value ids are not zero (E06); the callbacks of one directive reference are not called concurrently (E03)")
	hnd := []string{"bus.NewCallbackHandler", "directive.NewCallbackHandler"}
	const av, is, got, id = "AttachedValue.GetValue(<AttachedValue>)", "is(AttachedValue.GetValue(<AttachedValue>),T)", "AttachedValue.GetValue(<AttachedValue>).(T)", "AttachedValue.GetValueID(<AttachedValue>)"
	const tav, tid, newTav = "<TypedAttachedValue>", "TypedAttachedValue.GetValueID(<TypedAttachedValue>)", "new typedAttachedValue"
	const cur, vals = "var:uint32*", "makemap*"
	other := lit("!" + is)
	unset, set := lit(cur+"==0"), lit("!"+cur+"==0")
	del := func(m, k string) Pred { return callArgs("delete", m, k) }
	ck.Do("watch-cb", "watching with a callback offers the values one by one until one is accepted, and offers another one or tells that none is left when the accepted one goes", func(o *Obl) {
		fn := p.Func(busPkg, "ExecOneOffWatchCb")
		const cb = "<func(TypedAttachedValue[T]) bool>"
		noCb := lit(cb + "==nil")
		asked := func(arg string) Pred { return dynCallArgs(cb, arg) }
		if cl := o.litArg(fn, 0, hnd...); cl != nil {
			o.typedValue(cl, id, got)
			rejected := lit("!dyn:" + cb + "(*)")
			o.Path(PathRule{Root: cl, Via: mapPut(vals, id, newTav), Skip: other, What: "a value is not remembered"})
			o.Path(PathRule{Root: cl, Via: anyOf(asked(newTav), set, noCb), Skip: other, What: "a value is not offered"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{lit(is)}, What: "a value of another type is offered"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{unset}, What: "a value is offered although another one is selected"})
			o.Never(cl, allOf(dynCall(cb), notP(asked(newTav))), "another value is offered")
			o.Path(PathRule{Root: cl, From: rejected, Via: del(vals, id), What: "a rejected value may be offered again"})
			o.Guard(GuardRule{Root: cl, Effect: callArgs("delete", vals), Needs: []Pred{rejected}, Optional: true, What: "a value that was not rejected is forgotten"})
			o.selects(cl, cb, cur, map[string]string{newTav: id}, 0)
		}
		if cl := o.litArg(fn, 1, hnd...); cl != nil {
			same, differ := both(id, cur)
			rejected := lit("!dyn:" + cb + "(" + vals + "[])")
			o.Path(PathRule{Root: cl, Via: del(vals, id), Skip: other, What: "a removed value is not forgotten"})
			o.Guard(GuardRule{Root: cl, Effect: anyOf(storeTo(cur), dynCall(cb)), Needs: []Pred{same}, What: "another value is selected although the selected one was not removed"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{del(vals, id)}, What: "the removed value may be offered again"})
			o.Guard(GuardRule{Root: cl, Effect: callArgs("delete", vals, "key("+vals+")"), Needs: []Pred{rejected}, Reset: iter(vals), Optional: true, What: "a value that was not rejected is forgotten"})
			o.ForEach(ForEachRule{Root: cl, Coll: []string{vals}, After: same, Reach: true, ReachSkip: anyOf(other, differ), Must: anyOf(asked(vals+"[]"), noCb), Leave: anyOf(lit("dyn:"+cb+"("+vals+"[])"), noCb), What: "a value is not offered although the selected one was removed"})
			o.Path(PathRule{Root: cl, From: rejected, Via: del(vals, "key("+vals+")"), Until: anyOf(iter(vals), isExit), What: "a rejected value may be offered again"})
			o.selects(cl, cb, cur, map[string]string{vals + "[]": "key(" + vals + ")"}, 1)
		}
		if cl := o.litArg(fn, 2, hnd...); cl != nil {
			o.selects(cl, cb, cur, nil, 2)
		}
	})
	ck.Do("watch-ctr", "the container, or the state of the routine, holds the selected value, and the zero value when there is none", func(o *Obl) {
		for name, setter := range map[string]string{"ExecOneOffWatchCtr": "CContainer.SetValue", "ExecOneOffWatchRoutine": "StateRoutineContainer.SetState"} {
			fn := p.Func(busPkg, name)
			cl := o.litArg(fn, 0, "bus.ExecOneOffWatchCb")
			if cl == nil {
				continue
			}
			o.Path(PathRule{Root: cl, Via: callArgs(setter, "*", "TypedAttachedValue.GetValue("+tav+")"), Skip: lit(tav + "==nil"), What: "the selected value is not stored"})
			o.Path(PathRule{Root: cl, Via: callArgs(setter, "*", "zero"), Skip: lit("!" + tav + "==nil"), What: "the value is kept although there is none"})
			o.Guard(GuardRule{Root: cl, Effect: callArgs(setter, "*", "zero"), Needs: []Pred{lit(tav + "==nil")}, What: "a value is cleared"})
			o.Guard(GuardRule{Root: cl, Effect: callArgs("TypedAttachedValue.GetValue", tav), Needs: []Pred{lit("!" + tav + "==nil")}, What: "a value is read although there is none"})
			o.Never(cl, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "true" }), "a value is rejected")
		}
	})
	ck.Do("select", "watching with a select function reports the selected value, by default the one with the lowest id, whenever the selection changes, and that there is none", func(o *Obl) {
		fn := p.Func(busPkg, "ExecOneOffWatchSelectCb")
		const list, choose, cb = "var:[]TypedAttachedValue[T]", "<func([]TypedAttachedValue[T]) int>", "<func(TypedAttachedValue[T])>"
		hnd := "directive.NewTypedCallbackHandler"
		s := selection{list: list, choose: choose, cur: cur, elem: "TypedAttachedValue"}
		if cl := o.litArg(fn, 0, hnd); cl != nil {
			o.typedValue(cl, tid, "TypedAttachedValue.GetValue("+tav+")")
			added := listAdd(list, newTav, tav)
			o.Path(PathRule{Root: cl, Via: added, What: "a value is not a candidate"})
			sorted := callArgs("slices.SortFunc|slices.SortStableFunc", list)
			o.Path(PathRule{Root: cl, From: added, Via: sorted, Until: anyOf(isExit, elemAt(list), dynCall(choose)), What: "the candidates are not sorted"})
			s.check(o, cl, true)
			s.report(o, cl, cb)
		}
		if cl := o.litArg(fn, 1, "slices.SortFunc", "slices.SortStableFunc"); cl != nil {
			o.Ascending(cl, "TypedAttachedValue", "TypedAttachedValue.GetValueID(%T)")
		}
		if cl := o.litArg(fn, 1, hnd); cl != nil {
			o.Path(PathRule{Root: cl, Via: anyOf(listStore(list, "delete"), done(list), empty(list)), What: "a removed value stays a candidate"})
			s.check(o, cl, true)
			s.report(o, cl, cb)
			o.deletesMatching(cl, list, "TypedAttachedValue.GetValueID("+list+"[*])", tid, "another value is removed, or a removed value stays a candidate")
		}
		if cl := o.litArg(fn, 2, hnd); cl != nil {
			o.selects(cl, cb, cur, nil, 2)
		}
	})
	ck.Do("watch-ch", "the channel holds the latest selected value", func(o *Obl) {
		fn := p.Func(busPkg, "ExecOneOffWatchCh")
		if cl := o.litArg(fn, 0, "bus.ExecOneOffWatchCb"); cl != nil {
			o.Path(PathRule{Root: cl, Via: sent("*"), What: "a value is dropped although it is the latest one"})
			o.Never(cl, waitSel, "blocks while delivering a value")
			o.Never(cl, func(c *Ctx, ev *Event) bool {
				if ev.Kind != KInstr {
					return false
				}
				switch x := ev.Instr.(type) {
				case *ssa.Send:
					return true
				case *ssa.UnOp:
					return x.Op == token.ARROW
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly && c.StrV(st.Send) != tav {
							return true
						}
					}
				}
				return false
			}, "blocks while delivering a value, or delivers another one")
			o.Never(cl, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "true" }), "a value is rejected")
		}
		o.Never(fn, func(c *Ctx, ev *Event) bool {
			m, ok := ev.Instr.(*ssa.MakeChan)
			return ok && ev.Kind == KInstr && c.StrV(m.Size) != "1"
		}, "the channel does not hold exactly one value")
		latest := p.Func(busPkg, "ExecOneOffWatchLatestCb")
		const valCb = "<func(TypedAttachedValue[T]) error>"
		received := recvFrom("makechan|bus.ExecOneOffWatchCh(*)#0", "makechan", "bus.ExecOneOffWatchCh(*)#0")
		o.Path(PathRule{Root: latest, From: received, Via: dynCallArgs(valCb, "<-*"), Skip: lit(valCb + "==nil"), Until: anyOf(isExit, waitSel), What: "a value is not reported"})
		o.Path(PathRule{Root: latest, From: lit("!dyn:" + valCb + "(*)==nil"), Via: exitErr("dyn:" + valCb + "(*)"), Forbid: waitSel, What: "the error of the callback is lost"})
		o.Path(PathRule{Root: latest, From: recvFrom("Context.Done(<Context>)"), Via: exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) == 2 }), Forbid: waitSel, What: "the end of the context does not end the watch"})
		o.Path(PathRule{Root: latest, From: waitSel, Via: anyOf(received, recvFrom("Context.Done(<Context>)")), Until: isExit, What: "the watch ends for another reason"})
		const initCb = "<func(Instance, Reference) error>"
		o.Path(PathRule{Root: latest, Via: dynCall(initCb), Skip: lit(initCb+"==nil", "!*AddDirective(*)#2==nil", "!bus.ExecOneOffWatchCh(*)#3==nil"), What: "the reference is not announced"})
	})
	ck.Do("effect", "the effect of every value is undone once, when the value is removed or the directive disposed", func(o *Obl) {
		fn := p.Func(busPkg, "ExecWatchEffect")
		const cb = "<func(TypedAttachedValue[T]) func()>"
		const rel, stored = "dyn:" + cb + "(*)", vals + "[" + id + "]"
		if cl := o.litArg(fn, 0, hnd...); cl != nil {
			o.typedValue(cl, id, got)
			o.Path(PathRule{Root: cl, Via: dynCallArgs(cb, newTav), Skip: other, What: "a value has no effect"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{lit(is)}, What: "a value of another type has an effect"})
			o.Path(PathRule{Root: cl, From: dynCall(cb), Via: mapPut(vals, id, rel), Skip: lit(rel + "==nil"), What: "the effect of a value cannot be undone"})
		}
		if cl := o.litArg(fn, 1, hnd...); cl != nil {
			none := anyOf(other, lit(stored+"==nil", "!has("+vals+","+id+")"))
			o.Path(PathRule{Root: cl, Via: dynCall(stored), Skip: none, What: "the effect of a removed value is not undone"})
			o.Path(PathRule{Root: cl, Via: del(vals, id), Skip: none, What: "the effect of a removed value may be undone again"})
			o.Path(PathRule{Root: cl, From: dynCall(stored), Via: isExit, Forbid: dynCall(stored), What: "the effect of a value is undone twice"})
			o.Never(cl, dynCall(vals+"[]"), "the effect of another value is undone")
		}
		if cl := o.litArg(fn, 2, hnd...); cl != nil {
			o.ForEach(ForEachRule{Root: cl, Coll: []string{vals}, Must: dynCall(vals + "[]"), Skip: lit(vals + "[]==nil"), Reach: true, What: "an effect is not undone"})
			o.Path(PathRule{Root: cl, From: dynCall(vals + "[]"), Via: anyOf(iter(vals), done(vals)), Forbid: dynCall(vals + "[]"), What: "the effect of a value is undone twice"})
		}
		one := p.Func(busPkg, "ExecOneOffWatchEffect")
		if cl := o.litArg(one, 0, "bus.ExecOneOffWatchCb"); cl != nil {
			const cell = "var:func()*"
			undone := lit(cell + "==nil")
			some, none := lit("!"+tav+"==nil"), lit(tav+"==nil")
			o.Path(PathRule{Root: cl, Via: dynCall(cell), Skip: undone, What: "the effect of the previous value is not undone"})
			o.Path(PathRule{Root: cl, From: dynCall(cell), Via: storeTo(cell), Forbid: dynCall(cell), What: "the effect of the previous value may be undone again"})
			o.Path(PathRule{Root: cl, Via: dynCallArgs(cb, tav), Skip: none, What: "a value has no effect"})
			o.Path(PathRule{Root: cl, From: dynCall(cb), Via: storeTo(cell, rel), What: "the effect of a value cannot be undone"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{some}, What: "the effect is applied although there is no value"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(cb), Needs: []Pred{anyOf(undone, dynCall(cell))}, What: "the effect of a value is applied before the previous one is undone"})
			o.Path(PathRule{Root: cl, From: storeTo(cell, rel), Via: isExit, Forbid: allOf(storeTo(cell), notP(storeTo(cell, rel))), What: "the effect of a value cannot be undone"})
			o.Never(cl, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "true" }), "a value is rejected")
		}
	})
	ck.Do("transform-effect", "the effect of a transformed value is undone once, also when the value is removed while its effect is being prepared", func(o *Obl) {
		fn := p.Func(busPkg, "ExecWatchTransformEffect")
		const xfrm, eff = "<func(Context, TypedAttachedValue[T]) (E, bool, error)>", "<func(TransformedAttachedValue[T, E]) func()>"
		const out, rel = "dyn:" + xfrm + "(*)", "dyn:" + eff + "(*)"
		const held, rels, mtx = "makemap:TypedAttachedValue", "makemap:func()", "new Mutex"
		lock, unlock := locks(mtx), unlocks(mtx)
		locked := func(cl *ssa.Function, what Pred) {
			o.Guard(GuardRule{Root: cl, Effect: what, Needs: []Pred{lock}, Reset: unlock, What: "the values are accessed without their lock"})
			o.Path(PathRule{Root: cl, From: lock, Via: unlock, What: "the lock is not released"})
		}
		routines := ck.ownLits(fn, dynCall(xfrm))
		if len(routines) == 0 {
			o.Fail("routine", fn.Pos(), nil, "the transform function is not called")
		}
		for _, cl := range routines {
			failed := lit("!" + out + "#2==nil")
			o.Path(PathRule{Root: cl, Via: dynCallArgs(xfrm, "<Context>", tav), What: "a value is not transformed"})
			o.Path(PathRule{Root: cl, From: failed, Via: exitErr(out + "#2"), What: "the error of the transform function is lost"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(eff), Needs: []Pred{lit(out + "#1")}, What: "a value that was rejected has an effect"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(eff), Needs: []Pred{lit(out + "#2==nil")}, What: "a value has an effect although its transformation failed"})
			o.Path(PathRule{Root: cl, From: dynCall(xfrm), Via: dynCallArgs(eff, "new transformedAttachedValue"), Skip: anyOf(failed, lit("!"+out+"#1"), lit("!Context.Err(<Context>)==nil")), What: "a transformed value has no effect"})
			o.Never(cl, anyOf(allOf(storeTo("transformedAttachedValue.xfrm"), notP(storeTo("transformedAttachedValue.xfrm", out+"#0"))), allOf(storeTo("transformedAttachedValue.TypedAttachedValue"), notP(storeTo("transformedAttachedValue.TypedAttachedValue", tav)))), "another value has the effect")
			kept := mapPut(rels, tid, rel)
			o.Path(PathRule{Root: cl, From: dynCall(eff), Via: anyOf(kept, dynCall(rel)), Skip: lit(rel + "==nil"), What: "the effect of a value cannot be undone"})
			o.Path(PathRule{Root: cl, From: kept, Via: isExit, Forbid: dynCall(rel), What: "the effect of a value is undone although it is present"})
			o.Path(PathRule{Root: cl, From: dynCall(rel), Via: isExit, Forbid: anyOf(kept, dynCall(rel)), Optional: true, What: "the effect of a value is undone twice"})
			eq, _ := both(tav, held+"["+tid+"]")
			o.Guard(GuardRule{Root: cl, Effect: kept, Needs: []Pred{eq}, Reset: unlock, What: "an effect is kept without checking, in the same critical section, that its value is still present"})
			locked(cl, kept)
		}
		if cl := o.litArg(fn, 0, "bus.ExecWatchEffect"); cl != nil {
			put := mapPut(held, tid, tav)
			start := callArgs("Keyed.SetKey", "*", tid)
			o.Path(PathRule{Root: cl, Via: put, What: "a value is not remembered"})
			o.Path(PathRule{Root: cl, Via: callArgs("Keyed.SetKey", "*", tid, "true"), What: "the transformation of a value is not started"})
			o.Guard(GuardRule{Root: cl, Effect: start, Needs: []Pred{put}, What: "the transformation of a value is started before the value is remembered"})
			locked(cl, anyOf(put, start))
			for _, r := range p.returnedClosures(cl) {
				gone, stop := del(held, tid), callArgs("Keyed.RemoveKey", "*", tid)
				cell := rels + "[" + tid + "]"
				none := lit(cell+"==nil", "!has("+rels+","+tid+")")
				look := lit(cell+"==nil", "!"+cell+"==nil", "has("+rels+","+tid+")", "!has("+rels+","+tid+")")
				o.Path(PathRule{Root: r, Via: gone, What: "a removed value is still remembered"})
				o.Path(PathRule{Root: r, Via: stop, What: "the transformation of a removed value is not stopped"})
				o.Path(PathRule{Root: r, Via: dynCall(cell), Skip: none, What: "the effect of a removed value is not undone"})
				o.Path(PathRule{Root: r, Via: del(rels, tid), Skip: none, What: "the effect of a removed value may be undone again"})
				o.Path(PathRule{Root: r, From: dynCall(cell), Via: isExit, Forbid: dynCall(cell), What: "the effect of a value is undone twice"})
				locked(r, anyOf(gone, callArgs("delete", rels)))
				o.Or(func(o *Obl) {
					o.Guard(GuardRule{Root: r, Effect: look, Needs: []Pred{gone}, What: "an effect that is kept between looking for it and removing the value is not undone"})
				}, func(o *Obl) {
					o.Path(PathRule{Root: r, From: look, Via: gone, Until: anyOf(unlock, isExit), What: "an effect that is kept between looking for it and removing the value is not undone"})
				})
			}
			if len(p.returnedClosures(cl)) == 0 {
				o.Fail("release", cl.Pos(), nil, "%s returns no release function", fnName(cl))
			}
		}
		if cl := o.litArg(fn, 0, "keyed.NewKeyed", "keyed.NewKeyedWithLogger"); cl != nil {
			has, hasNot := lit("has("+held+",<uint32>)"), lit("!has("+held+",<uint32>)")
			some := exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "nil" })
			o.Guard(GuardRule{Root: cl, Effect: some, Needs: []Pred{has}, What: "a value that is not present is transformed"})
			o.Guard(GuardRule{Root: cl, Effect: allOf(isExit, notP(some)), Needs: []Pred{hasNot}, Optional: true, What: "a value is not transformed"})
			o.Never(cl, allOf(some, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[1]) != held+"[<uint32>]" })), "another value is transformed")
		}
		o.Path(PathRule{Root: fn, Via: callArgs("Keyed.SetContext", "*", "<Context>"), What: "the transformations never start"})
		o.Path(PathRule{Root: fn, Via: callArgs("bus.ExecWatchEffect", "*", "<Bus>", "<Directive>"), What: "the directive is not watched"})
	})
	ck.Do("one-transform-effect", "the effect of the selected transformed value is undone before another one is applied", func(o *Obl) {
		fn := p.Func(busPkg, "ExecOneOffWatchTransformEffect")
		const list, choose, eff = "var:[]TransformedAttachedValue[T, E]", "<func([]TransformedAttachedValue[T, E]) int>", "<func(TransformedAttachedValue[T, E]) func()>"
		const val, cell, mtx, rel = "<TransformedAttachedValue>", "var:func()*", "new Mutex", "dyn:" + eff + "(*)"
		lock, unlock := locks(mtx), unlocks(mtx)
		s := selection{list: list, choose: choose, cur: cur, elem: "TransformedAttachedValue"}
		common := func(cl *ssa.Function) {
			_, ne := both("TransformedAttachedValue.GetValueID("+list+"[*])", cur)
			undone := lit(cell + "==nil")
			o.Guard(GuardRule{Root: cl, Effect: dynCall(eff), Needs: []Pred{ne}, What: "the effect is applied again although the selection did not change"})
			o.Guard(GuardRule{Root: cl, Effect: dynCall(eff), Needs: []Pred{anyOf(undone, dynCall(cell))}, What: "the effect of a value is applied before the previous one is undone"})
			o.Path(PathRule{Root: cl, From: ne, Via: dynCallArgs(eff, list+"[*]"), Skip: lit(list + "[*]==nil"), What: "the effect is not applied to the selected value"})
			o.Path(PathRule{Root: cl, From: anyOf(ne, set), Via: dynCall(cell), Skip: undone, What: "the effect of the previous value is not undone"})
			o.Path(PathRule{Root: cl, From: dynCall(cell), Via: storeTo(cell), Until: anyOf(isExit, unlock), Forbid: dynCall(cell), What: "the effect of the previous value may be undone again"})
			o.Path(PathRule{Root: cl, From: dynCall(eff), Via: storeTo(cell, rel), Until: anyOf(isExit, unlock), What: "the effect of a value cannot be undone"})
			o.Path(PathRule{Root: cl, From: storeTo(cell, rel), Via: isExit, Forbid: allOf(storeTo(cell), notP(storeTo(cell, rel))), What: "the effect of a value cannot be undone"})
			o.Guard(GuardRule{Root: cl, Effect: anyOf(listStore(list, "append", "delete", "other", "clear"), storeTo(cur), storeTo(cell), dynCall(cell), dynCall(eff), dynCall(choose)), Needs: []Pred{lock}, Reset: unlock, What: "the selection is changed without its lock"})
			o.Path(PathRule{Root: cl, From: lock, Via: unlock, What: "the lock is not released"})
		}
		if cl := o.litArg(fn, 2, "bus.ExecWatchTransformEffect"); cl != nil {
			added := listAdd(list, val)
			o.Path(PathRule{Root: cl, Via: added, What: "a value is not a candidate"})
			sorted := callArgs("slices.SortFunc|slices.SortStableFunc", list)
			o.Path(PathRule{Root: cl, From: added, Via: sorted, Until: anyOf(isExit, elemAt(list), dynCall(choose)), What: "the candidates are not sorted"})
			s.check(o, cl, true)
			common(cl)
			rs := p.returnedClosures(cl)
			if len(rs) == 0 {
				o.Fail("release", cl.Pos(), nil, "%s returns no release function", fnName(cl))
			}
			for _, r := range rs {
				absent := lit("!contains("+list+","+val+")", "!"+val+"=="+list+"[*]", "!"+list+"[*]=="+val)
				o.Path(PathRule{Root: r, Via: listStore(list, "delete"), Skip: absent, What: "a removed value stays a candidate"})
				o.Path(PathRule{Root: r, From: listStore(list, "delete"), Via: anyOf(elemAt(list), s.none()), What: "no other value is selected after one was removed"})
				s.check(o, r, false)
				common(r)
			}
		}
		o.DeletesOne(busPkg, list)
		if cl := o.litArg(fn, 1, "slices.SortFunc", "slices.SortStableFunc"); cl != nil {
			o.Ascending(cl, "TransformedAttachedValue", "TransformedAttachedValue.GetValueID(%T)")
		}
		o.Path(PathRule{Root: fn, Via: callArgs("bus.ExecWatchTransformEffect", "<Context>", "<func(Context, TypedAttachedValue[T]) (E, bool, error)>", "*", "<Bus>", "<Directive>"), What: "the directive is not watched"})
	})
	ck.Do("typed-handler", "the typed callback handler passes on the values of its type, and the others to the handler for other values", func(o *Obl) {
		for m, f := range map[string]string{"HandleValueAdded": "valCb", "HandleValueRemoved": "removedCb"} {
			fn := p.Method("directive", "TypedCallbackHandler", m)
			cb, unknown := "TypedCallbackHandler."+f, "TypedCallbackHandler.unknownTypeHandler"
			o.typedValue(fn, id, got)
			o.Path(PathRule{Root: fn, Via: dynCallArgs(cb, newTav), Skip: anyOf(other, lit(cb+"==nil")), What: "a value is not passed on"})
			o.Guard(GuardRule{Root: fn, Effect: dynCall(cb), Needs: []Pred{lit(is)}, What: "a value of another type is passed on"})
			o.Path(PathRule{Root: fn, Via: callArgs("ReferenceHandler."+m, unknown, "<Instance>", "<AttachedValue>"), Skip: anyOf(lit(is), lit(unknown+"==nil")), What: "a value of another type is not passed on"})
			o.Guard(GuardRule{Root: fn, Effect: calls("ReferenceHandler." + m), Needs: []Pred{other}, What: "a value is passed on as one of another type"})
		}
		fn := p.Method("directive", "TypedCallbackHandler", "HandleInstanceDisposed")
		const cb, unknown = "TypedCallbackHandler.disposeCb", "TypedCallbackHandler.unknownTypeHandler"
		o.Path(PathRule{Root: fn, Via: dynCall(cb), Skip: lit(cb + "==nil"), What: "the disposal is not passed on"})
		o.Path(PathRule{Root: fn, Via: callArgs("ReferenceHandler.HandleInstanceDisposed", unknown, "<Instance>"), Skip: lit(unknown + "==nil"), What: "the disposal is not passed on"})
		for m, f := range map[string]string{"HandleValueAdded": "valCb", "HandleValueRemoved": "removedCb", "HandleInstanceDisposed": "disposeCb"} {
			fn := p.Method("directive", "CallbackHandler", m)
			cb := "CallbackHandler." + f
			args := []string{"<AttachedValue>"}
			if f == "disposeCb" {
				args = nil
			}
			o.Path(PathRule{Root: fn, Via: dynCallArgs(cb, args...), Skip: lit(cb + "==nil"), What: "a callback is not called"})
		}
	})
}

// selects: at the return, the remembered id is the one of the value that was accepted last, and the callback was
// told that there is none exactly when a selection ended without another one. kind: 0 value added, 1 value
// removed, 2 disposed.
func (o *Obl) selects(cl *ssa.Function, cb, cur string, ids map[string]string, kind int) {
	type state struct {
		dead, was, none, noCb, told bool
		acc, last                   string // id of the accepted value, id last stored
	}
	store := storeTo(cur)
	o.Monitor(cl, state{}, func(c *Ctx, ev *Event, st any) any {
		s := st.(state)
		if s.dead {
			return s
		}
		if ev.Kind == KEdge {
			if matchLit(c, ev.Lit, []string{cb + "==nil"}) {
				s.noCb = true
			}
			if matchLit(c, ev.Lit, []string{cur + "==0"}) {
				// what was stored is known
				s.dead = s.last != "" && s.last != "0"
				s.none = true
			}
			if matchLit(c, ev.Lit, []string{"!" + cur + "==0"}) {
				s.dead = s.last == "0"
				s.was = true
			}
			for arg, id := range ids {
				if matchLit(c, ev.Lit, []string{"dyn:" + cb + "(" + arg + ")"}) {
					s.acc = id
				}
				if matchLit(c, ev.Lit, []string{"!dyn:" + cb + "(" + arg + ")"}) {
					s.acc = "rejected"
				}
				if kind == 1 && matchLit(c, ev.Lit, []string{"AttachedValue.GetValueID(<AttachedValue>)==" + cur, cur + "==AttachedValue.GetValueID(<AttachedValue>)"}) {
					s.was = true
				}
			}
		}
		if store(c, ev) {
			s.last = c.StrV(ev.Instr.(*ssa.Store).Val)
			for arg, id := range ids {
				if glob(id, s.last) {
					s.last = id
					_ = arg
				}
			}
		}
		if dynCallArgs(cb, "nil")(c, ev) {
			if s.told {
				c.Violate("twice", "%s: the callback is told twice that there is no value", fnName(cl))
			}
			s.told = true
		}
		if ev.Kind == KExit {
			bad := func(what string) { c.Violate("select|"+what, "%s: %s", fnName(cl), what) }
			accepted := s.acc
			if accepted == "rejected" {
				accepted = ""
			}
			if s.noCb && s.acc == "" && s.last != "" && s.last != "0" {
				accepted = s.last // without a callback every value is accepted
			}
			switch {
			case accepted != "" && s.last != accepted:
				bad("the accepted value is not the selected one")
			case accepted == "" && s.last != "" && s.last != "0":
				bad("a value is selected that was not accepted")
			case accepted != "" && s.told:
				bad("the callback is told that there is no value although one was accepted")
			case kind == 0 && s.acc == "rejected" && s.last != "0":
				bad("the rejected value stays the selected one")
			case kind == 0 && s.told:
				bad("the callback is told that there is no value when one is added")
			case kind > 0 && s.was && accepted == "" && s.last != "0":
				bad("the value that is gone stays the selected one")
			case kind > 0 && s.was && accepted == "" && !s.told && !s.noCb:
				bad("the callback is not told that there is no value any more")
			case kind > 0 && !s.was && s.told:
				bad("the callback is told that there is no value although none was selected")
			case kind == 2 && !s.was && !s.none:
				bad("the disposal is not handled")
			}
		}
		return s
	})
}

// selection: choosing one of a sorted list of values and remembering its id.
type selection struct{ list, choose, cur, elem string }

func (s selection) idx() string { return "dyn:" + s.choose + "(" + s.list + ")" }

// none: nothing can be selected.
func (s selection) none() Pred {
	return lit("len("+s.list+")==0", s.idx()+"<0", "!"+s.idx()+"<len("+s.list+")", s.list+"[*]==nil")
}

func (s selection) noIndex() Pred {
	return lit("len("+s.list+")==0", s.idx()+"<0", "!"+s.idx()+"<len("+s.list+")")
}

func (s selection) wasNone() Pred { return lit(s.cur + "==0") }

// check: the selected value is the one the select function chose, or the first one.
func (s selection) check(o *Obl, cl *ssa.Function, always bool) {
	noFn := lit(s.choose + "==nil")
	right := elemAt(s.list, "0", s.idx())
	o.Monitor(cl, "", func(c *Ctx, ev *Event, st any) any {
		wrong := st.(string)
		if elemAt(s.list)(c, ev) {
			k := fmt.Sprintf(" %d.%s ", c.S.F.id, ev.Instr.(*ssa.UnOp).Name())
			wrong = strings.ReplaceAll(wrong, k, "")
			if !right(c, ev) {
				wrong += k
			}
		}
		if wrong != "" && storeTo(s.cur)(c, ev) {
			v := c.Resolve(c.Val(ev.Instr.(*ssa.Store).Val))
			if call, ok := v.V.(*ssa.Call); ok && call.Call.IsInvoke() {
				x := c.Resolve(Val{v.F, call.Call.Value})
				if x.F != nil && strings.Contains(wrong, fmt.Sprintf(" %d.%s ", x.F.id, x.V.Name())) {
					c.Violate("chosen", "%s: another value than the chosen one is selected", fnName(cl))
				}
			}
		}
		return wrong
	})
	o.Guard(GuardRule{Root: cl, Effect: elemAt(s.list, "0"), Needs: []Pred{anyOf(noFn, lit("len("+s.list+")==0"))}, Optional: true, What: "the first value is selected without asking the select function"})
	for _, n := range []string{"!" + s.idx() + "<0", s.idx() + "<len(" + s.list + ")"} {
		o.Guard(GuardRule{Root: cl, Effect: elemAt(s.list, s.idx()), Needs: []Pred{lit(n)}, What: "the result of the select function is not checked"})
	}
	if always {
		o.Path(PathRule{Root: cl, Via: anyOf(elemAt(s.list), s.none()), What: "no value is selected after the values changed"})
	}
	id := s.elem + ".GetValueID(" + s.list + "[*])"
	eq, ne := both(id, s.cur)
	o.Path(PathRule{Root: cl, From: elemAt(s.list), Via: anyOf(eq, ne), Skip: s.none(), What: "the selected value is not compared with the current one"})
	o.Path(PathRule{Root: cl, From: ne, Via: storeTo(s.cur, id), What: "the selected value is not remembered"})
	o.Guard(GuardRule{Root: cl, Effect: storeTo(s.cur, "0"), Needs: []Pred{s.none()}, What: "the selected value is forgotten"})
	o.Path(PathRule{Root: cl, From: s.noIndex(), Via: storeTo(s.cur, "0"), Skip: anyOf(s.wasNone(), elemAt(s.list)), What: "a value stays selected although none can be"})
	o.Never(cl, allOf(storeTo(s.cur), notP(storeTo(s.cur, "0", id))), "another value is remembered")
}

// report: the callback is told the selected value when it changed.
func (s selection) report(o *Obl, cl *ssa.Function, cb string) {
	id := s.elem + ".GetValueID(" + s.list + "[*])"
	_, ne := both(id, s.cur)
	noCb := lit(cb + "==nil")
	had := lit("!" + s.cur + "==0")
	some := dynCallArgs(cb, s.list+"[*]")
	o.Guard(GuardRule{Root: cl, Effect: some, Needs: []Pred{ne}, What: "a value is reported although the selection did not change"})
	o.Path(PathRule{Root: cl, From: ne, Via: some, Skip: noCb, What: "the selected value is not reported"})
	o.Guard(GuardRule{Root: cl, Effect: dynCallArgs(cb, "nil"), Needs: []Pred{had}, What: "the lack of a value is reported although there was none"})
	o.Guard(GuardRule{Root: cl, Effect: dynCallArgs(cb, "nil"), Needs: []Pred{s.none()}, What: "the lack of a value is reported although there is one"})
	o.Path(PathRule{Root: cl, From: s.noIndex(), Via: dynCallArgs(cb, "nil"), Skip: anyOf(noCb, s.wasNone(), elemAt(s.list)), What: "the lack of a value is not reported"})
	o.Never(cl, allOf(dynCall(cb), notP(dynCallArgs(cb, "nil|"+s.list+"[*]"))), "another value is reported")
}

// deletesMatching: exactly the elements of the list for which a equals b are deleted.
func (o *Obl) deletesMatching(root *ssa.Function, list, a, b, what string) {
	eq, ne := both(a, b)
	byFunc := func(c *Ctx, ev *Event) bool {
		st, ok := ev.Instr.(*ssa.Store)
		if !ok {
			return false
		}
		call, ok := c.Resolve(c.Val(st.Val)).V.(*ssa.Call)
		return ok && c.W.P.callName(&call.Call) == "slices.DeleteFunc"
	}
	pick, leave := lit("pick("+list+")"), lit("!pick("+list+")")
	o.Guard(GuardRule{Root: root, Effect: anyOf(pick, allOf(listStore(list, "delete", "other"), notP(byFunc))), Needs: []Pred{eq}, Reset: iter(list), What: what})
	o.Path(PathRule{Root: root, From: eq, Via: anyOf(pick, listStore(list, "delete", "other")), What: what})
	o.Guard(GuardRule{Root: root, Effect: leave, Needs: []Pred{ne}, Reset: iter(list), Optional: true, What: what})
}

func init() {
	register("B05", "Path, guard and critical-section analysis of the callbacks of the watch helpers", checkB05)
}

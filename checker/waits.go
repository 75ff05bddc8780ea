package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// holdFrame is the frame of the function that Broadcast.HoldLock is running (nil: its lock is not held).
func (c *Ctx) holdFrame() *Frame {
	for f := c.S.F; f != nil && f.site != nil; f = f.up {
		if call, ok := f.site.(*ssa.Call); ok && c.W.P.callName(&call.Call) == "Broadcast.HoldLock" {
			return f
		}
	}
	return nil
}

// inHold: the lock of a Broadcast is held.
func inHold(c *Ctx, ev *Event) bool { return c.holdFrame() != nil }

// cellLoad and cellStore: the shared local variable an event reads or writes.
func (c *Ctx) cellLoad(ev *Event) *ssa.Alloc {
	if ev.Kind != KInstr {
		return nil
	}
	if u, ok := ev.Instr.(*ssa.UnOp); ok && u.Op == token.MUL {
		return c.cell(u.X)
	}
	return nil
}

func (c *Ctx) cellStore(ev *Event) *ssa.Alloc {
	if ev.Kind != KInstr {
		return nil
	}
	if st, ok := ev.Instr.(*ssa.Store); ok {
		return c.cell(st.Addr)
	}
	return nil
}

func (c *Ctx) cell(addr ssa.Value) *ssa.Alloc {
	switch addr.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter:
		a, _ := c.Resolve(c.Val(addr)).V.(*ssa.Alloc)
		return a
	}
	return nil
}

// addrName renders what an address denotes: a field, or a local variable that function literals share.
func (c *Ctx) addrName(addr ssa.Value) string {
	if a := c.cell(addr); a != nil && isCaptured(a) && c.W.P.singleStore(a) == nil {
		return c.W.P.cellName(a)
	}
	return c.StrV(addr)
}

// roleVars finds shared variables of fn by what its function literals store in them.
func (ck *Check) roleVar(fn *ssa.Function, pat string, stored ...string) string {
	found := ""
	for _, f := range ck.P.asyncClosures(fn) {
		w := &Walker{P: ck.P, Root: f, Init: 0, Interesting: ck.interesting(f)}
		w.Mon = func(c *Ctx, ev *Event, st any) any {
			if a := c.cellStore(ev); a != nil && isCaptured(a) && globAny([]string{pat}, c.addrName(ev.Instr.(*ssa.Store).Addr)) && globAny(stored, c.StrV(ev.Instr.(*ssa.Store).Val)) {
				found = c.W.P.cellName(a)
			}
			return st
		}
		ck.walk(w)
	}
	return found
}

// testedVar: the only shared variable of that kind that a function literal branches on, except one.
func (ck *Check) testedVar(cl *ssa.Function, pat, except string) string {
	found := map[string]bool{}
	w := &Walker{P: ck.P, Root: cl, Init: 0, Interesting: ck.interesting(cl)}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		if ev.Kind == KEdge {
			a, _ := c.W.normLit(c.S.env, ev.Lit)
			if glob(pat, a) && a != except {
				found[a] = true
			}
		}
		return st
	}
	ck.walk(w)
	if len(found) != 1 {
		return ""
	}
	for a := range found {
		return a
	}
	return ""
}

// sharedCells: the local variables of fn that functions literal in it write at another time.
func (p *Prog) sharedCells(fn *ssa.Function) map[*ssa.Alloc]bool {
	out := map[*ssa.Alloc]bool{}
	for _, f := range p.parts(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && p.asyncWritten(a) {
					out[a] = true
				}
			}
		}
	}
	return out
}

// parts: the function and the unexported functions of its package that only it calls, directly or indirectly.
func (p *Prog) parts(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	in := map[*ssa.Function]bool{fn: true}
	for i := 0; i < len(out); i++ {
		for _, b := range out[i].Blocks {
			for _, x := range b.Instrs {
				call, ok := x.(*ssa.Call)
				if !ok {
					continue
				}
				f := p.unwrap(call.Call.StaticCallee())
				if f == nil || in[f] || f.Blocks == nil || f.Parent() != nil || token.IsExported(f.Name()) || fnPkg(f) != fnPkg(fn) {
					continue
				}
				own := true
				for _, ci := range p.callersOf[f] {
					g := ci.Parent()
					for g.Parent() != nil {
						g = g.Parent()
					}
					own = own && in[g]
				}
				if own {
					in[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// WaitLoop: fn waits for a change of what it shares with callbacks: it obtains the channel it waits on in the
// critical section that last read the shared variables, it reads and writes them only with the lock held, and
// whoever changes one that fn reads wakes it up before the lock is released. It returns the variables fn reads.
func (o *Obl) WaitLoop(rel string, fn *ssa.Function) []string {
	p := o.ck.P
	shared := p.sharedCells(fn)
	if len(shared) == 0 {
		o.Fail("none", fn.Pos(), nil, "%s shares nothing with its callbacks", fnName(fn))
		return nil
	}
	read := map[*ssa.Alloc]bool{}
	w := &Walker{P: p, Root: fn, Init: 0, Interesting: o.ck.interesting(fn)}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		if a := c.cellLoad(ev); a != nil && shared[a] && inHold(c, ev) {
			read[a] = true
		}
		return st
	}
	o.ck.walk(w)
	if len(read) == 0 {
		o.Fail("none", fn.Pos(), nil, "%s reads nothing of what it shares with its callbacks", fnName(fn))
		return nil
	}
	type state struct {
		got   bool
		reads int // of how many of the variables
		seen  [8]*ssa.Alloc
	}
	waits := 0
	w = &Walker{P: p, Root: fn, Init: state{}, Interesting: o.ck.interesting(fn)}
	w.Mon = func(c *Ctx, ev *Event, s any) any {
		st := s.(state)
		if ev.Kind == KEnter {
			if f := c.holdFrame(); f != nil && f == c.S.F {
				return state{}
			}
		}
		if a := c.cellLoad(ev); a != nil && read[a] && inHold(c, ev) {
			for _, b := range st.seen[:st.reads] {
				if a == b {
					return st
				}
			}
			if st.reads < len(st.seen) {
				st.seen[st.reads] = a
				st.reads++
				sort.Slice(st.seen[:st.reads], func(i, j int) bool { return st.seen[i].Pos() < st.seen[j].Pos() })
			}
			return st
		}
		if dynCall("getWaitCh")(c, ev) && inHold(c, ev) {
			st.got = true
			return st
		}
		if sel, ok := ev.Instr.(*ssa.Select); ok && ev.Kind == KInstr && sel.Blocking {
			o.Site(sel)
			waits++
			on := false
			for _, cs := range sel.States {
				if cs.Dir == types.RecvOnly && c.StrV(cs.Chan) == "dyn:getWaitCh()" {
					on = true
				}
			}
			switch {
			case !on:
				c.Violate("wait", "%s: waits without waiting for a change", fnName(fn))
			case !st.got:
				c.Violate("wait", "%s: waits on a channel obtained in another critical section than the one that read the state", fnName(fn))
			case st.reads < min(len(read), len(st.seen)):
				c.Violate("wait", "%s: the state is not read in the critical section that obtains the channel to wait on", fnName(fn))
			}
		}
		return st
	}
	o.runWalker(w)
	if waits == 0 {
		o.Fail("wait", fn.Pos(), nil, "%s does not wait", fnName(fn))
	}
	var names []string
	for a := range shared {
		ofA := func(c *Ctx, ev *Event) bool { return c.cellStore(ev) == a }
		touches := func(c *Ctx, ev *Event) bool { return (c.cellStore(ev) == a || c.cellLoad(ev) == a) && !inHold(c, ev) }
		name := p.cellName(a)
		same := lit() // not a change: storing the nil error a callback returned, where there was none
		if isErrorType(a.Type().(*types.Pointer).Elem()) {
			same = lit(name + "==nil")
		}
		for _, f := range p.asyncClosures(fn) {
			o.Never(f, touches, name+" is accessed without the lock")
			if read[a] {
				o.Path(PathRule{Root: f, From: ofA, Via: dynCall("broadcast"), Skip: same, Optional: true, What: "the waiter is not woken after a change of " + name})
			}
		}
		if read[a] {
			names = append(names, name)
		}
		o.Path(PathRule{Root: fn, From: func(c *Ctx, ev *Event) bool {
			mc, ok := ev.Instr.(*ssa.MakeClosure)
			return ok && ev.Kind == KInstr && !p.syncClosure(mc)
		}, Via: isExit, Forbid: touches, What: name + " is accessed without the lock"})
	}
	sort.Strings(names)
	return names
}

// asyncClosures: the function literals of fn that run at another time.
func (p *Prog) asyncClosures(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g := mc.Fn.(*ssa.Function); !p.syncClosure(mc) {
						out = append(out, g)
					} else {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range p.parts(fn) {
		visit(f)
	}
	return out
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LockRule: the entry points of a package are walked tracking whether the lock is held.
type LockRule struct {
	Pkg     string
	Lock    Pred
	Unlock  Pred
	Held    Pred               // events that must only happen while the lock is held
	Free    Pred               // events that must only happen while it is not held
	Entries func(e Entry) bool // nil: all
	Fields  map[string]bool    // fields that must only be accessed while the lock is held
	Stale   []string           // pairs "looked at>written" that need not be in one critical section (see Atomic)
	Taken   bool               // contents of list fields that were cleared before the lock was released belong to the taker
	NoExit  bool               // do not check the state at exits
	What    string             // for Held
	WhatF   string             // for Free
	Funcs   []*ssa.Function    // further roots
}

type lockSt struct {
	held  int8
	taken string
}

// Lockset applies a LockRule.
func (o *Obl) Lockset(r LockRule) {
	var roots []Entry
	for _, e := range o.ck.P.entries(r.Pkg) {
		if r.Entries == nil || r.Entries(e) {
			roots = append(roots, e)
		}
	}
	ls := &lockset{o: o, r: r, memo: map[lockKey]*lockSum{}}
	for _, e := range roots {
		t := ls.walk(e.Fn, e.Go, lockSt{}, true, nil)
		if len(t.viols) > 0 {
			// without summaries
			if u := ls.walk(e.Fn, e.Go, lockSt{}, false, nil); len(u.viols) == 0 {
				t = u
			}
		}
		o.record(t)
	}
	if r.Fields != nil && r.Pkg != dcPkg {
		o.Atomic(r, r.Stale...)
	}
}

type lockKey struct {
	fn *ssa.Function
	st lockSt
}

type lockSum struct {
	next []any
	ok   bool
}

type lockset struct {
	o    *Obl
	r    LockRule
	memo map[lockKey]*lockSum
}

// summary: the states in which a function returns, if it breaks no rule when called in this state.
func (ls *lockset) summary(fn *ssa.Function, st lockSt) ([]any, bool) {
	k := lockKey{fn, st}
	if m := ls.memo[k]; m != nil {
		return m.next, m.ok
	}
	ls.memo[k] = &lockSum{} // recursion: entered
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return nil, false
		}
	}
	exits := map[any]bool{}
	t := ls.walk(fn, nil, st, true, exits)
	m := &lockSum{ok: len(t.viols) == 0 && len(exits) > 0}
	for e := range exits {
		m.next = append(m.next, e)
	}
	ls.memo[k] = m
	if debugClimb {
		fmt.Fprintf(os.Stderr, "summary %s %v: %v %v (%d states)\n", fnName(fn), st, m.ok, m.next, o_states(ls))
	}
	return m.next, m.ok
}

func (ls *lockset) walk(root *ssa.Function, g *ssa.Go, init lockSt, sums bool, exits map[any]bool) trial {
	o, r := ls.o, ls.r
	t := trial{from: map[ssa.Instruction]bool{}, roots: []*ssa.Function{root}}
	w := &Walker{P: o.ck.P, Root: root, RootGo: g, Init: init, Interesting: o.ck.interesting(root)}
	name := fnName(root)
	if sums {
		w.Summary = func(c *Ctx, fn *ssa.Function, mon any) ([]any, bool) { return ls.summary(fn, mon.(lockSt)) }
	}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(lockSt)
		if ev.Kind == KExit || ev.Kind == KPanicExit {
			if exits != nil {
				exits[s] = true
			} else if s.held != 0 && !r.NoExit {
				c.Violate("exit", "%s: returns while holding the lock", name)
			}
			return s
		}
		if s.held == 0 && r.Held != nil && r.Held(c, ev) {
			t.from[ev.Instr] = true
			c.Violate("unlocked", "%s: %s", fnName(c.S.F.fn), r.What)
		}
		if r.Free != nil && r.Free(c, ev) {
			t.from[ev.Instr] = true
			if s.held != 0 {
				c.Violate("locked", "%s: %s", fnName(c.S.F.fn), r.WhatF)
			}
		}
		if r.Fields != nil && ev.Kind == KInstr {
			if f, ok := c.fieldAccess(ev, r.Fields); ok {
				t.from[ev.Instr] = true
				if s.held == 0 && !(r.Taken && strings.Contains(";"+s.taken, ";"+f+";")) {
					c.Violate("access "+f, "%s: %s is accessed without holding the lock", fnName(c.S.F.fn), f)
				}
			}
			if st, ok := ev.Instr.(*ssa.Store); ok && r.Taken && s.held != 0 {
				if f := c.StrV(st.Addr); r.Fields[f] {
					s.taken = strings.TrimPrefix(strings.ReplaceAll(";"+s.taken, ";"+f+";", ";"), ";")
					if c.freshList(Val{c.S.F, st.Val}) {
						l := append(strings.Split(strings.TrimSuffix(s.taken, ";"), ";"), f)
						sort.Strings(l)
						s.taken = strings.TrimPrefix(strings.Join(l, ";"), ";") + ";"
					}
				}
			}
		}
		switch {
		case r.Lock(c, ev):
			t.from[ev.Instr] = true
			if s.held != 0 {
				c.Violate("double", "%s: the lock is acquired although it is held", fnName(c.S.F.fn))
			}
			s.held = 1
		case r.Unlock(c, ev):
			t.from[ev.Instr] = true
			if s.held == 0 {
				c.Violate("unlock", "%s: the lock is released although it is not held", fnName(c.S.F.fn))
			}
			s.held = 0
		}
		return s
	}
	t.viols = o.ck.walk(w)
	return t
}

// freshList: a newly made list or map.
func (c *Ctx) freshList(v Val) bool {
	switch x := c.Resolve(v).V.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Const:
		_, isMap := x.Type().Underlying().(*types.Map)
		return x.IsNil() && (isMap || isSlice(x.Type()))
	}
	return false
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// fieldAccess: the event reads or writes one of the fields, or the contents of a list or map it holds.
func (c *Ctx) fieldAccess(ev *Event, fields map[string]bool) (string, bool) {
	var addr ssa.Value
	content := false
	switch x := ev.Instr.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "", false
		}
		addr = x.X
	case *ssa.Store:
		addr = x.Addr
	case *ssa.MapUpdate:
		addr, content = x.Map, true
	case *ssa.Lookup:
		addr, content = x.X, true
	case *ssa.Range:
		addr, content = x.X, true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
			addr, content = x.Call.Args[len(x.Call.Args)-1], true
			if b.Name() == "delete" {
				addr = x.Call.Args[0]
			}
		} else if !ok {
			// a list or map handed to another package, and the iterators over it
			var l []ssa.Value
			if t, inRepo := c.W.target(c.S.env, c.S.F, &x.Call); !inRepo || t.fn == nil {
				l = append(l, x.Call.Args...)
				if !x.Call.IsInvoke() && x.Call.StaticCallee() == nil {
					l = append(l, x.Call.Value)
				}
			}
			for _, a := range l {
				v := c.Resolve(Val{c.S.F, a})
				if it, ok := v.V.(*ssa.Call); ok && globAny([]string{"maps.Keys", "maps.Values", "maps.All", "slices.Values", "slices.All", "slices.Backward"}, c.W.P.callName(&it.Call)) {
					v = c.Resolve(Val{v.F, it.Call.Args[0]})
				}
				switch v.V.Type().Underlying().(type) {
				case *types.Slice, *types.Map:
				default:
					continue
				}
				if f, ok := c.contentOf(v, fields); ok {
					return f, true
				}
			}
		}
	}
	if addr == nil {
		return "", false
	}
	a := c.Resolve(Val{c.S.F, addr})
	if ia, ok := a.V.(*ssa.IndexAddr); ok && !content {
		a, content = c.Resolve(Val{a.F, ia.X}), true
	}
	if content {
		return c.contentOf(a, fields)
	}
	return c.sharedField(a, fields)
}

// contentOf: the list or map was read from one of the fields, it is not a copy.
func (c *Ctx) contentOf(a Val, fields map[string]bool) (string, bool) {
	u, ok := a.V.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", false
	}
	return c.sharedField(c.Resolve(Val{a.F, u.X}), fields)
}

func (c *Ctx) sharedField(a Val, fields map[string]bool) (string, bool) {
	t, f, b, ok := fieldOf(a.V)
	if ok && !fields[t+"."+f] {
		// a field of a structure held in a field
		if o := c.Resolve(Val{a.F, b}); o.V != nil {
			if _, isField := o.V.(*ssa.FieldAddr); isField {
				return c.sharedField(o, fields)
			}
		}
	}
	if !ok || !fields[t+"."+f] {
		return "", false
	}
	if c.unshared(Val{a.F, b}) {
		return "", false
	}
	return t + "." + f, true
}

// unshared: the object was allocated on this path and nobody else can reach it yet.
func (c *Ctx) unshared(v Val) bool {
	r := c.Resolve(v)
	a, ok := r.V.(*ssa.Alloc)
	if !ok {
		return false
	}
	_, fresh := c.W.get(c.S.env, envKey{F: r.F, V: a, Idx: -1, kind: 4})
	_, esc := c.W.get(c.S.env, envKey{F: r.F, V: a, Idx: -2, kind: 4})
	return fresh && !esc || !a.Heap
}

// mutableFields lists the fields of the package's structs that are written after construction.
func (ck *Check) mutableFields(rel string) map[string]bool {
	out := map[string]bool{}
	for _, fn := range ck.P.FuncsIn(rel) {
		if fn.Blocks == nil {
			continue
		}
		w := &Walker{P: ck.P, Root: fn, Init: 0, Interesting: func(ssa.Instruction) bool { return false }, NoInline: func(f *ssa.Function) bool { return true }}
		w.Mon = func(c *Ctx, ev *Event, st any) any {
			if ev.Kind != KInstr {
				return st
			}
			var addr Val
			switch x := ev.Instr.(type) {
			case *ssa.Store:
				addr = c.Resolve(Val{c.S.F, x.Addr})
				if ia, ok := addr.V.(*ssa.IndexAddr); ok {
					l := c.Resolve(Val{addr.F, ia.X})
					u, ok := l.V.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						return st
					}
					addr = c.Resolve(Val{l.F, u.X})
				}
			case *ssa.MapUpdate:
				l := c.Resolve(Val{c.S.F, x.Map})
				u, ok := l.V.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return st
				}
				addr = c.Resolve(Val{l.F, u.X})
			default:
				return st
			}
			t, f, b, ok := fieldOf(addr.V)
			if !ok || c.unshared(Val{addr.F, b}) {
				return st
			}
			if n, ok := derefNamed(b.Type()); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != fn.Package().Pkg {
				return st
			}
			out[t+"."+f] = true
			return st
		}
		w.Run()
	}
	return out
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return n, ok
}

func fieldList(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func o_states(ls *lockset) int { return ls.o.ck.States }

// NotShared: no exported function returns a list or map held in one of the fields instead of a copy.
func (o *Obl) NotShared(rel string, fields map[string]bool) {
	for _, fn := range o.ck.P.FuncsIn(rel) {
		if fn.Blocks == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() == 0 {
			continue
		}
		o.Never(fn, exitWith(func(c *Ctx, res []Val) bool {
			for _, r := range res {
				v := c.Resolve(r)
				if sl, ok := v.V.(*ssa.Slice); ok {
					v = c.Resolve(Val{v.F, sl.X})
				}
				switch v.V.Type().Underlying().(type) {
				case *types.Slice, *types.Map:
					if _, ok := c.contentOf(v, fields); ok {
						return true
					}
				}
			}
			return false
		}), "returns the protected list or map itself")
	}
	o.SiteName("package " + rel)
}

package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Atomic: what is decided from a field while a lock is held still holds when another critical section of the
// lock acts on it: a field of the lock is written only after every field of the lock that decided whether to
// get there was read again in the critical section of the write. Pairs are "what was looked at>what is written"
// for which looking again is not needed.
func (o *Obl) Atomic(r LockRule, pairs ...string) {
	at := &atomicRule{o: o, r: r, pairs: pairs, memo: map[atKey]*lockSum{}, ids: map[Val]int{}}
	for _, e := range o.ck.P.entries(r.Pkg) {
		t := at.walk(e.Fn, e.Go, atSt{}, true, nil)
		o.record(t)
	}
}

type atSt struct {
	held                bool
	fresh, now, decided string // "a;b;"
}

type atKey struct {
	fn *ssa.Function
	st atSt
}

type atomicRule struct {
	o      *Obl
	r      LockRule
	pairs  []string
	memo   map[atKey]*lockSum
	ids    map[Val]int
	dumped map[string]bool
}

func setAdd(s, x string) string {
	if strings.Contains(";"+s, ";"+x+";") {
		return s
	}
	l := append(strings.Split(strings.TrimSuffix(s, ";"), ";"), x)
	if s == "" {
		l = []string{x}
	}
	sort.Strings(l)
	return strings.Join(l, ";") + ";"
}

func setHas(s, x string) bool { return strings.Contains(";"+s, ";"+x+";") }

func setList(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, ";"), ";")
}

func (at *atomicRule) summary(fn *ssa.Function, st atSt) ([]any, bool) {
	k := atKey{fn, st}
	if m := at.memo[k]; m != nil {
		return m.next, m.ok
	}
	at.memo[k] = &lockSum{}
	// what a function returns may be what was read
	if fn.Signature.Results().Len() > 0 || len(fn.FreeVars) > 0 {
		return nil, false
	}
	exits := map[any]bool{}
	t := at.walk(fn, nil, st, true, exits)
	m := &lockSum{ok: len(t.viols) == 0 && len(exits) > 0}
	for e := range exits {
		m.next = append(m.next, e)
	}
	at.memo[k] = m
	return m.next, m.ok
}

// feeds lists the reads of guarded fields a value is computed from.
func (at *atomicRule) feeds(c *Ctx, v Val, d int, out map[Val]string) {
	if d > 8 || v.V == nil {
		return
	}
	v = c.Resolve(v)
	rec := func(x ssa.Value) { at.feeds(c, Val{v.F, x}, d+1, out) }
	switch x := v.V.(type) {
	case *ssa.BinOp:
		rec(x.X)
		rec(x.Y)
	case *ssa.Extract:
		rec(x.Tuple)
	case *ssa.Next:
		rec(x.Iter)
	case *ssa.Range:
		if f, ok := c.contentOf(c.Resolve(Val{v.F, x.X}), at.r.Fields); ok {
			out[v] = f
		}
	case *ssa.Lookup:
		if f, ok := c.contentOf(c.Resolve(Val{v.F, x.X}), at.r.Fields); ok {
			out[v] = f
		}
	case *ssa.TypeAssert:
		rec(x.X)
	case *ssa.Convert:
		rec(x.X)
	case *ssa.MakeInterface:
		rec(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			rec(x.X)
			return
		}
		a := c.Resolve(Val{v.F, x.X})
		if ia, ok := a.V.(*ssa.IndexAddr); ok {
			if f, ok := c.contentOf(c.Resolve(Val{a.F, ia.X}), at.r.Fields); ok {
				out[v] = f
			}
			return
		}
		if f, ok := c.sharedField(a, at.r.Fields); ok {
			out[v] = f
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			rec(x.Call.Args[0])
		}
	}
}

func (at *atomicRule) id(v Val) string {
	n, ok := at.ids[v]
	if !ok {
		n = len(at.ids) + 1
		at.ids[v] = n
	}
	return fmt.Sprint(n)
}

func (at *atomicRule) walk(root *ssa.Function, g *ssa.Go, init atSt, sums bool, exits map[any]bool) trial {
	o, r := at.o, at.r
	t := trial{from: map[ssa.Instruction]bool{}, roots: []*ssa.Function{root}}
	w := &Walker{P: o.ck.P, Root: root, RootGo: g, Init: init, Interesting: o.ck.interesting(root)}
	next := iter("*")
	if sums {
		w.Summary = func(c *Ctx, fn *ssa.Function, mon any) ([]any, bool) { return at.summary(fn, mon.(atSt)) }
	}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(atSt)
		switch ev.Kind {
		case KExit, KPanicExit:
			if exits != nil {
				s.fresh = ""
				exits[s] = true
			}
			return s
		case KEdge:
			if next(c, ev) { // what was decided for another element
				s.decided = ""
				return s
			}
			m := map[Val]string{}
			at.feeds(c, ev.Lit.X, 0, m)
			at.feeds(c, ev.Lit.Y, 0, m)
			for v, f := range m {
				if s.held && setHas(s.fresh, at.id(v)) {
					s.now = setAdd(s.now, f)
				} else {
					s.decided = setAdd(s.decided, f)
				}
			}
			return s
		}
		if ev.Kind != KInstr {
			return s
		}
		if v, ok := ev.Instr.(ssa.Value); ok && s.held {
			m := map[Val]string{}
			switch x := v.(type) {
			case *ssa.Range, *ssa.Lookup:
				at.feeds(c, Val{c.S.F, v}, 0, m)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					at.feeds(c, Val{c.S.F, v}, 0, m)
				}
			}
			for v := range m {
				s.fresh = setAdd(s.fresh, at.id(v))
			}
		}
		if s.held {
			if f, ok := at.writes(c, ev); ok {
				t.from[ev.Instr] = true
				for _, d := range setList(s.decided) {
					if !setHas(s.now, d) && !globAny(at.pairs, d+">"+f) {
						if os.Getenv("ATOMIC") != "" {
							if at.dumped == nil {
								at.dumped = map[string]bool{}
							}
							k := fmt.Sprintf("ATOMIC %s %s>%s in %s", r.Pkg, d, f, fnName(root))
							if !at.dumped[k] {
								at.dumped[k] = true
								fmt.Fprintln(os.Stderr, k)
							}
							continue
						}
						c.Violate("atomic "+d+">"+f, "%s: %s is written although what was decided from %s may no longer hold: the lock was released in between", fnName(c.S.F.fn), f, d)
					}
				}
			}
		}
		switch {
		case r.Lock(c, ev):
			s.held, s.fresh, s.now = true, "", ""
		case r.Unlock(c, ev):
			for _, f := range setList(s.now) {
				s.decided = setAdd(s.decided, f)
			}
			s.held, s.fresh, s.now = false, "", ""
		}
		return s
	}
	t.viols = o.ck.walk(w)
	return t
}

// writes: the event changes one of the fields, or the contents of a list or map it holds.
func (at *atomicRule) writes(c *Ctx, ev *Event) (string, bool) {
	switch x := ev.Instr.(type) {
	case *ssa.Store, *ssa.MapUpdate:
		return c.fieldAccess(ev, at.r.Fields)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
			return c.fieldAccess(ev, at.r.Fields)
		}
	}
	return "", false
}

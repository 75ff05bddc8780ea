package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ErrRule: every error a call returns is looked at, and one that is found to be an error is used for something on
// every path: returned, passed to a call, stored or sent.
type ErrRule struct {
	Fns      []*ssa.Function
	MayPanic func(c *Ctx, in ssa.Instruction) bool
	// Ignore says which calls need not have their error looked at.
	Ignore func(p *Prog, cc *ssa.CallCommon) bool
	Min    int
}

type errStatus uint8

const (
	errNone errStatus = iota
	errUnseen
	errPending
	errLogged // only written to the log, in a function that itself returns an error
	errDone
)

const maxErr = 8

type errState [maxErr]errStatus

type errSite struct {
	call *ssa.Call
	v    ssa.Value
	what string
}

// Errors applies an ErrRule and returns the number of calls whose error was followed.
func (o *Obl) Errors(r ErrRule) int {
	p := o.ck.P
	n := 0
	for _, fn := range r.Fns {
		var sites []errSite
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				i := errIndex(resultTypes(&call.Call))
				if i < 0 || r.Ignore != nil && r.Ignore(p, &call.Call) {
					continue
				}
				if v := resultVal(call, i); v != nil && len(*v.Referrers()) != 0 {
					sites = append(sites, errSite{call: call, v: v, what: p.callName(&call.Call)})
				}
			}
		}
		n += len(sites)
		for i := 0; i < len(sites); i += maxErr {
			o.record(o.ck.tryErrors(r, fn, sites[i:min(i+maxErr, len(sites))]))
		}
	}
	if n < r.Min {
		o.Fail("none", token.NoPos, nil, "found %d calls that return an error, expected at least %d", n, r.Min)
	}
	return n
}

func (ck *Check) tryErrors(r ErrRule, fn *ssa.Function, sites []errSite) trial {
	t := trial{from: map[ssa.Instruction]bool{}, via: map[ssa.Instruction]bool{}, roots: []*ssa.Function{fn}}
	w := &Walker{P: ck.P, Root: fn, Init: errState{}, Interesting: ck.interesting(fn), MayPanic: r.MayPanic}
	w.NoInline = func(f *ssa.Function) bool { return f.Parent() == nil }
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(errState)
		root := c.S.F
		for root.up != nil {
			root = root.up
		}
		val := func(i int) Val { return c.Resolve(Val{root, sites[i].v}) }
		same := func(i int, v ssa.Value) bool {
			if v == nil || !isErrorType(v.Type()) && !types.IsInterface(v.Type()) {
				return false
			}
			want := val(i)
			for _, l := range c.phiLeaves(c.Val(v)) {
				if l == want {
					return true
				}
				if ci, ok := l.V.(*ssa.ChangeInterface); ok && c.Resolve(Val{l.F, ci.X}) == want {
					return true
				}
			}
			return false
		}
		viol := func(i int, key, format string, a ...any) {
			c.Violate(fmt.Sprintf("%s|%s|%d", key, sites[i].what, i), "%s: the error of %s %s", fnName(fn), sites[i].what, fmt.Sprintf(format, a...))
		}
		fresh := -1
		if call, ok := ev.Instr.(*ssa.Call); ok && ev.Kind == KInstr && c.S.F == root {
			for i := range sites {
				if sites[i].call == call {
					t.from[call] = true
					fresh = i
					if s[i] == errPending {
						viol(i, "again", "is replaced by the error of the next call without having been used")
					}
				}
			}
		}
		done := func(i int) {
			if s[i] == errUnseen || s[i] == errPending {
				s[i] = errDone
				t.via[ev.Instr] = true
			}
		}
		for i := range sites {
			if s[i] == errNone || s[i] == errDone || i == fresh {
				continue
			}
			if ev.Kind == KEdge && ev.Lit.Op == "eq" {
				x, y := c.Resolve(ev.Lit.X), c.Resolve(ev.Lit.Y)
				if isNilConst(x.V) {
					x, y = y, x
				}
				if x == val(i) || y == val(i) {
					if isNilConst(y.V) {
						if ev.Lit.Truth {
							done(i)
						} else if s[i] == errUnseen {
							s[i] = errPending
						}
					} else if ev.Lit.Truth {
						done(i) // a particular error
					}
				}
			}
			if ev.Kind != KInstr {
				continue
			}
			switch x := ev.Instr.(type) {
			case *ssa.Store:
				if same(i, x.Val) {
					if al, _, ok := c.W.cellOf(c.S.env, c.Val(x.Addr)); ok && !ck.P.escapingCell(al) && within(al.Parent(), fn) {
						continue
					}
					done(i)
				}
			case *ssa.MapUpdate:
				if same(i, x.Value) {
					done(i)
				}
			case *ssa.Send:
				if same(i, x.X) {
					done(i)
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Send != nil && same(i, st.Send) {
						done(i)
					}
				}
			case *ssa.MakeClosure:
				for _, b := range x.Bindings {
					if same(i, b) && !ck.P.syncClosure(x) {
						done(i)
					}
				}
			}
			cc := execCall(ev)
			if g, ok := ev.Instr.(*ssa.Go); ok {
				cc = &g.Call
			}
			if cc == nil || ev.Inlined {
				continue
			}
			if cc.IsInvoke() && same(i, cc.Value) {
				done(i)
			}
			for _, a := range cc.Args {
				if same(i, a) {
					if s[i] == errPending && isLogCall(cc) {
						s[i] = errLogged
						t.via[ev.Instr] = true
						continue
					}
					done(i)
				}
			}
		}
		if fresh >= 0 {
			s[fresh] = errUnseen
			if c.W.nilness(c.S.env, val(fresh)) == 1 {
				s[fresh] = errDone
			}
		}
		if ev.Kind == KExit {
			for i := range sites {
				if s[i] == errNone || s[i] == errDone {
					continue
				}
				if s[i] == errLogged {
					if n := len(ev.Results); n == 0 || !isErrorType(ev.Results[n-1].V.Type()) || c.W.nilness(c.S.env, ev.Results[n-1]) != 1 {
						continue
					}
				}
				for _, rv := range ev.Results {
					for _, l := range c.phiLeaves(rv) {
						if l == val(i) {
							s[i] = errDone
						}
					}
				}
				if n := len(ev.Results); n > 0 && isErrorType(ev.Results[n-1].V.Type()) && c.W.nilness(c.S.env, ev.Results[n-1]) == 2 {
					continue // another error is returned instead
				}
				switch {
				case s[i] == errLogged && !inLoop(sites[i].call.Block()):
					viol(i, "success", "is only logged and success is returned")
				case s[i] == errPending:
					viol(i, "dropped", "is found not to be nil and then neither returned, passed on nor reported")
				case s[i] == errUnseen && c.W.nilness(c.S.env, Val{root, sites[i].v}) == 0:
					viol(i, "unseen", "is not looked at")
				}
			}
		}
		return s
	}
	t.viols = ck.walk(w)
	return t
}

// errorsIgnored finds the calls that return an error which the source neither uses nor assigns to the blank
// identifier: a call used as a statement, or assigned to a variable that is not read afterwards.
func (o *Obl) ErrorsIgnored(fns []*ssa.Function, ignore func(p *Prog, cc *ssa.CallCommon) bool) {
	p := o.ck.P
	for _, fn := range fns {
		blank := map[token.Pos]bool{}
		if syn := fn.Syntax(); syn != nil {
			ast.Inspect(syn, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok {
					return true
				}
				last, ok := as.Lhs[len(as.Lhs)-1].(*ast.Ident)
				if ok && last.Name == "_" {
					for _, rhs := range as.Rhs {
						if call, ok := ast.Unparen(rhs).(*ast.CallExpr); ok {
							blank[call.Lparen] = true
						}
					}
				}
				return true
			})
		}
		o.ck.Funcs[fnName(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Pos() == token.NoPos {
					continue
				}
				i := errIndex(resultTypes(&call.Call))
				if i < 0 || ignore(p, &call.Call) {
					continue
				}
				o.Site(call)
				if v := resultVal(call, i); v != nil && len(*v.Referrers()) != 0 {
					continue
				}
				if !blank[call.Pos()] {
					o.Fail("ignored|"+fnName(fn)+"|"+p.callName(&call.Call), call.Pos(), nil, "%s ignores the error of %s", fnName(fn), p.callName(&call.Call))
				}
			}
		}
	}
}

// isLogCall: a method of a logrus entry or logger.
func isLogCall(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if cc.IsInvoke() || f == nil || f.Signature.Recv() == nil {
		return false
	}
	n := namedOf(f.Signature.Recv().Type())
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "sirupsen/logrus")
}

// inLoop: can the block be reached from itself?
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if reach(s) {
					return true
				}
			}
		}
		return false
	}
	return reach(b)
}

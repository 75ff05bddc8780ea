package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ResRule: whatever a call acquires (a reference, a release function, the cancel function of a context) is
// released, returned, stored or handed on along every path of the function that acquired it.
type ResRule struct {
	Fns []*ssa.Function // the functions whose own body is searched for acquisitions
	// Acquire says which result of a call must be released and which result is its error (-1: none).
	Acquire func(p *Prog, cc *ssa.CallCommon) (idx, errIdx int, what string, ok bool)
	// Stored: storing the resource in a field counts as handing it on.
	MayPanic func(c *Ctx, in ssa.Instruction) bool
	// Contract: a result is only returned unreleased, and with an error only when it is the callee's own result.
	Contract bool
	// UseChecked: methods of the results may only be called once the error was looked at.
	UseChecked bool
	// Lend: a callback that is given to a call which returns a reference owns what it captured only until that
	// reference is released.
	Lend bool
	What string
	Min  int
}

// results of a call as (index, type)
func resultTypes(cc *ssa.CallCommon) []types.Type {
	sig := cc.Signature()
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func errIndex(ts []types.Type) int {
	for i := len(ts) - 1; i >= 0; i-- {
		if isErrorType(ts[i]) {
			return i
		}
	}
	return -1
}

// resultVal is the SSA value of a result of a call (nil: not used).
func resultVal(call *ssa.Call, idx int) ssa.Value {
	if call.Call.Signature().Results().Len() == 1 {
		return call
	}
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == idx {
			return ex
		}
	}
	return nil
}

type resStatus uint8

const (
	resNone resStatus = iota
	resHeld
	resReleased
	resHanded
	resLent
)

const maxRes = 6

type resState struct {
	st      [maxRes]resStatus
	checked [maxRes]bool
}

type resSite struct {
	call        *ssa.Call
	idx, errIdx int
	what        string
	v, err      ssa.Value
	// the call whose reference keeps the callback alive that captured the resource, its reference and its error
	lender        *ssa.Call
	lref, lendErr ssa.Value
}

// Resources applies a ResRule and returns the number of acquisitions.
func (o *Obl) Resources(r ResRule) int {
	n := 0
	for _, fn := range r.Fns {
		var sites []resSite
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				idx, errIdx, what, ok := r.Acquire(o.ck.P, &call.Call)
				if !ok {
					continue
				}
				s := resSite{call: call, idx: idx, errIdx: errIdx, what: what, v: resultVal(call, idx)}
				if errIdx >= 0 {
					s.err = resultVal(call, errIdx)
				}
				if r.Lend {
					o.ck.P.findLender(fn, &s)
				}
				sites = append(sites, s)
			}
		}
		if len(sites) == 0 {
			continue
		}
		n += len(sites)
		for i := 0; i < len(sites); i += maxRes {
			o.record(o.ck.tryResources(r, fn, sites[i:min(i+maxRes, len(sites))]))
		}
	}
	if n < r.Min {
		o.Fail("none", token.NoPos, nil, "found %d acquisitions, expected at least %d: %s", n, r.Min, r.What)
	}
	return n
}

func (ck *Check) tryResources(r ResRule, fn *ssa.Function, sites []resSite) trial {
	p := ck.P
	t := trial{from: map[ssa.Instruction]bool{}, via: map[ssa.Instruction]bool{}, roots: []*ssa.Function{fn}}
	w := &Walker{P: p, Root: fn, Init: resState{}, Interesting: ck.interesting(fn), MayPanic: r.MayPanic}
	// only function literals are followed: what is passed to a named function is handed on
	w.NoInline = func(f *ssa.Function) bool { return f.Parent() == nil }
	viol := func(c *Ctx, i int, key, format string, a ...any) {
		c.Violate(fmt.Sprintf("%s|%s|%d", key, sites[i].what, i), "%s: %s: %s", fnName(fn), fmt.Sprintf(format, a...), sites[i].what)
	}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(resState)
		root := c.S.F
		for root.up != nil {
			root = root.up
		}
		val := func(i int) Val { return c.Resolve(Val{root, sites[i].v}) }
		same := func(i int, v ssa.Value) bool { return sites[i].v != nil && c.Resolve(c.Val(v)) == val(i) }
		// the acquisition itself
		fresh := -1
		if call, ok := ev.Instr.(*ssa.Call); ok && ev.Kind == KInstr && c.S.F == root {
			for i := range sites {
				if sites[i].call != call {
					continue
				}
				t.from[call] = true
				if s.st[i] == resHeld {
					viol(c, i, "again", "acquired again while the previous one is not released")
				}
				if sites[i].v == nil {
					viol(c, i, "dropped", "what must be released is discarded")
					continue
				}
				fresh = i
			}
		}
		set := func(i int, n resStatus) {
			if s.st[i] == resHeld || s.st[i] == resLent {
				s.st[i] = n
				t.via[ev.Instr] = true
			} else if s.st[i] == resHanded && n == resReleased {
				s.st[i] = n
			}
		}
		for i := range sites {
			if s.st[i] == resNone || sites[i].v == nil || i == fresh {
				continue
			}
			v := val(i)
			back := func() {
				if s.st[i] == resLent {
					s.st[i] = resHeld
				}
			}
			if ev.Kind == KEdge && (ev.Lit.Op == "eq") {
				x, y := c.Resolve(ev.Lit.X), c.Resolve(ev.Lit.Y)
				if isNilConst(x.V) {
					x, y = y, x
				}
				if isNilConst(y.V) {
					if sites[i].lendErr != nil && x == c.Resolve(Val{root, sites[i].lendErr}) && !ev.Lit.Truth {
						back()
					}
					if x == v && ev.Lit.Truth {
						set(i, resHanded) // nothing was acquired
					}
					if x == v && !ev.Lit.Truth {
						s.checked[i] = true
					}
					if sites[i].err != nil && x == c.Resolve(Val{root, sites[i].err}) {
						s.checked[i] = true
						if !ev.Lit.Truth {
							set(i, resHanded)
						}
					}
				}
			}
			if s.st[i] == resHeld && c.W.nilness(c.S.env, v) == 1 {
				set(i, resHanded)
			}
			if ev.Kind != KInstr {
				continue
			}
			switch x := ev.Instr.(type) {
			case *ssa.Store:
				if !same(i, x.Val) {
					continue
				}
				if sites[i].lender != nil {
					if _, _, ok := c.W.cellOf(c.S.env, c.Val(x.Addr)); ok {
						continue
					}
				}
				if al, af, ok := c.W.cellOf(c.S.env, c.Val(x.Addr)); ok {
					_ = af
					// a variable of the enclosing function, or one that a later call reads
					if al.Parent() != fn && !within(al.Parent(), fn) || p.escapingCell(al) {
						set(i, resHanded)
					}
					continue
				}
				set(i, resHanded)
			case *ssa.MapUpdate:
				if same(i, x.Value) {
					set(i, resHanded)
				}
			case *ssa.Send:
				if same(i, x.X) {
					set(i, resHanded)
				}
			case *ssa.MakeClosure:
				if sites[i].lender != nil {
					continue
				}
				for _, b := range x.Bindings {
					hit := same(i, b)
					if !hit {
						if al, _, ok := c.W.cellOf(c.S.env, c.Val(b)); ok {
							if sv := p.singleStore(al); sv != nil && c.Resolve(Val{c.Resolve(c.Val(b)).F, sv}) == v {
								hit = true
							}
						}
					}
					if hit && !p.syncClosure(x) && p.closureEscapes(x) {
						set(i, resHanded)
					}
				}
			}
			cc := execCall(ev)
			if g, ok := ev.Instr.(*ssa.Go); ok && ev.Kind == KInstr {
				cc = &g.Call
			}
			if cc == nil {
				continue
			}
			if l := sites[i].lender; l != nil {
				if ev.Instr == ssa.Instruction(l) && c.S.F == root {
					set(i, resLent)
				}
				rel := cc.Value
				if !cc.IsInvoke() && cc.StaticCallee() != nil && cc.Signature().Recv() != nil && len(cc.Args) > 0 {
					rel = cc.Args[0]
				}
				if c.Resolve(c.Val(rel)) == c.Resolve(Val{root, sites[i].lref}) && (!cc.IsInvoke() || cc.Method.Name() == "Release" || cc.Method.Name() == "Close") {
					back()
				}
			}
			if cc.IsInvoke() {
				if same(i, cc.Value) {
					if r.UseChecked && !s.checked[i] && sites[i].err != nil && c.W.nilness(c.S.env, c.Resolve(Val{root, sites[i].err})) != 1 && c.W.nilness(c.S.env, v) != 2 {
						viol(c, i, "unchecked", "used before its error was looked at")
					}
					if cc.Method.Name() == "Release" || cc.Method.Name() == "Close" {
						set(i, resReleased)
					}
				}
			} else {
				if same(i, cc.Value) {
					set(i, resReleased)
				}
				if f := cc.StaticCallee(); f != nil && len(cc.Args) > 0 && f.Signature.Recv() != nil && same(i, cc.Args[0]) && (f.Name() == "Release" || f.Name() == "Close") {
					set(i, resReleased)
				}
			}
			if !ev.Inlined && sites[i].lender == nil {
				for _, a := range cc.Args {
					if same(i, a) {
						if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && a == cc.Args[0] {
							continue // a method of its own
						}
						set(i, resHanded)
					}
				}
			}
		}
		if fresh >= 0 {
			s.st[fresh], s.checked[fresh] = resHeld, false
		}
		if ev.Kind == KExit {
			for i := range sites {
				if s.st[i] == resNone || sites[i].v == nil {
					continue
				}
				v := val(i)
				ret := false
				for _, rv := range ev.Results {
					for _, l := range c.phiLeaves(rv) {
						if l == v {
							ret = true
						}
					}
				}
				if ret && s.st[i] == resReleased {
					viol(c, i, "released", "returned although it was released")
				}
				if s.st[i] == resHeld && !ret {
					if sites[i].err != nil && c.W.nilness(c.S.env, Val{root, sites[i].err}) == 2 {
						continue
					}
					viol(c, i, "leak", "not released, returned or handed on")
				}
				if ret && r.Contract && len(ev.Results) > 0 {
					e := ev.Results[len(ev.Results)-1]
					if isErrorType(e.V.Type()) && c.W.nilness(c.S.env, e) != 1 && (sites[i].err == nil || c.Resolve(e) != c.Resolve(Val{root, sites[i].err})) {
						viol(c, i, "witherr", "returned together with an error")
					}
				}
			}
		}
		return s
	}
	t.viols = ck.walk(w)
	return t
}

// escapingCell: is the cell captured by a function literal that may run later?
func (p *Prog) escapingCell(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok && !p.syncClosure(mc) && p.closureEscapes(mc) {
			return true
		}
	}
	return false
}

func (p *Prog) closureEscapes(mc *ssa.MakeClosure) bool { return p.escapingClosure(mc) }

// isRefType: a directive reference, or another handle with a Release method of the reference packages.
func isRefType(t types.Type) bool {
	switch typeName(t) {
	case "Reference", "KeyedRef", "Ref", "Locker":
		n := namedOf(t)
		if n == nil {
			return false
		}
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Release" {
				return true
			}
		}
	}
	return false
}

func isRelFunc(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 0
}

// acquireAny: any call that returns a reference or a release function.
func acquireAny(p *Prog, cc *ssa.CallCommon) (int, int, string, bool) {
	ts := resultTypes(cc)
	for i, t := range ts {
		if isRefType(t) {
			return i, errIndex(ts), "reference of " + p.callName(cc), true
		}
	}
	for i, t := range ts {
		if isRelFunc(t) {
			return i, errIndex(ts), "release function of " + p.callName(cc), true
		}
	}
	return 0, 0, "", false
}

// repoFuncs lists the functions of the repository, in a stable order; generated code is left out.
func (p *Prog) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if rel := p.relFile(f); rel != "" && !strings.HasSuffix(rel, ".pb.go") {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// within: is f the function outer or a literal inside it?
func within(f, outer *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if f == outer {
			return true
		}
	}
	return false
}

// StoredReleased: every struct field that holds references, release functions or cancel functions (or a collection
// of them) is read again somewhere to call or release what it holds.
func (o *Obl) StoredReleased(fns []*ssa.Function) {
	p := o.ck.P
	type fieldID struct {
		st  *types.Named
		idx int
	}
	stored := map[fieldID]ssa.Instruction{}
	used := map[fieldID]bool{}
	isRes := func(t types.Type) bool {
		for d := 0; d < 3; d++ {
			if isRefType(t) || isRelFunc(t) {
				return true
			}
			switch u := t.Underlying().(type) {
			case *types.Map:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return false
			}
		}
		return false
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil {
					continue
				}
				st, ok := n.Underlying().(*types.Struct)
				if !ok || !isRes(st.Field(fa.Field).Type()) {
					continue
				}
				id := fieldID{n.Origin(), fa.Field}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa && !isNilConst(r.Val) {
							stored[id] = r
						}
					case *ssa.UnOp:
						for _, u := range *r.Referrers() {
							switch u := u.(type) {
							case *ssa.MapUpdate:
								if u.Map == r {
									stored[id] = u
								}
							case *ssa.BinOp, *ssa.DebugRef, *ssa.If:
							default:
								used[id] = true
							}
						}
					default:
						used[id] = true
					}
				}
			}
		}
	}
	for id, in := range stored {
		o.Site(in)
		o.ck.Funcs[fnName(in.Parent())] = true
		st := id.st.Underlying().(*types.Struct)
		if !used[id] {
			name := id.st.Obj().Name() + "." + st.Field(id.idx).Name()
			o.Fail("stored|"+name, instrPos(in), nil, "%s stores what must be released in %s, which is never read to release it", fnName(in.Parent()), name)
		}
	}
	_ = p
}

// Assume records an assumption in the evidence.
func (ck *Check) Assume(s string) { ck.Assumed = append(ck.Assumed, s) }

// findLender finds the only call of fn that is given a callback which captured the resource and returns a reference:
// releasing that reference ends the callback.
func (p *Prog) findLender(fn *ssa.Function, s *resSite) {
	if s.v == nil || s.v.Referrers() == nil {
		return
	}
	var caps []*ssa.MakeClosure
	add := func(r ssa.Instruction) {
		if mc, ok := r.(*ssa.MakeClosure); ok && !p.syncClosure(mc) && p.closureEscapes(mc) {
			caps = append(caps, mc)
		}
	}
	for _, r := range *s.v.Referrers() {
		add(r)
		if st, ok := r.(*ssa.Store); ok && st.Val == s.v {
			if al, ok := st.Addr.(*ssa.Alloc); ok {
				if p.singleStore(al) == nil {
					return
				}
				for _, r := range *al.Referrers() {
					add(r)
				}
			}
		}
	}
	vals := []ssa.Value{}
	for _, mc := range caps {
		vals = append(vals, mc)
	}
	// handed to a call itself
	for _, r := range *s.v.Referrers() {
		cl, ok := r.(*ssa.Call)
		_, conv := r.(*ssa.ChangeType)
		if conv || ok && cl.Call.Value != s.v {
			vals = append(vals, s.v)
			break
		}
	}
	var lender *ssa.Call
	for _, v := range vals {
		l := p.lenderOf(fn, v)
		if l == nil || lender != nil && lender != l {
			return
		}
		lender = l
	}
	if lender == nil {
		return
	}
	idx, errIdx, _, ok := acquireAny(p, &lender.Call)
	if !ok {
		return
	}
	if s.lref = resultVal(lender, idx); s.lref == nil {
		return
	}
	if errIdx >= 0 {
		s.lendErr = resultVal(lender, errIdx)
	}
	s.lender = lender
}

// lenderOf follows a callback through the values that hold it to the one call that returns a reference for it.
func (p *Prog) lenderOf(fn *ssa.Function, from ssa.Value) *ssa.Call {
	var found *ssa.Call
	seen := map[ssa.Value]bool{}
	work := []ssa.Value{from}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if seen[v] {
			continue
		}
		seen[v] = true
		if v.Parent() != fn || v.Referrers() == nil {
			return nil
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
				work = append(work, x.(ssa.Value))
			case *ssa.Defer:
				if v != from || x.Call.Value != v {
					return nil
				}
			case *ssa.MakeClosure:
				if v != from || !p.syncClosure(x) && p.closureEscapes(x) && p.lenderOf(fn, x) == nil {
					return nil
				}
			case *ssa.Call:
				if v == from && x.Call.Value == v {
					continue
				}
				if _, _, _, ok := acquireAny(p, &x.Call); ok {
					if found != nil && found != x {
						return nil
					}
					found = x
				} else if x.Call.Signature().Results().Len() == 1 {
					work = append(work, x)
				} else {
					return nil
				}
			default:
				return nil
			}
		}
	}
	return found
}

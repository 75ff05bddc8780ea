package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An orderScan looks for results which depend on the iteration order of a map: lists built in the order of a map and
// used without being sorted, and writes made in that order.
type orderScan struct {
	p       *Prog
	callers map[*ssa.Function][]*ssa.Call
	// ordered: calls whose effect depends on their order
	ordered []string
	fail    func(in ssa.Instruction, why string)
	site    func(in ssa.Instruction)
	seen    map[ssa.Value]bool
	loops   map[*ssa.BasicBlock]bool
}

// MapOrder: nothing the functions of the package return, store or write depends on the order in which a map is iterated.
func (o *Obl) MapOrder(fns []*ssa.Function, ordered ...string) {
	p := o.ck.P
	s := &orderScan{p: p, ordered: ordered, seen: map[ssa.Value]bool{}, loops: map[*ssa.BasicBlock]bool{}, callers: map[*ssa.Function][]*ssa.Call{}}
	s.fail = func(in ssa.Instruction, why string) {
		o.Fail("maporder|"+fnName(in.Parent())+"|"+why, instrPos(in), nil, "%s: %s", fnName(in.Parent()), why)
	}
	s.site = o.Site
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
		eachInstr(f, func(i ssa.Instruction) {
			if c, ok := i.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					s.callers[g] = append(s.callers[g], c)
				}
			}
		})
	}
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Next:
				if !x.IsString {
					s.site(x)
					s.loop(x.Block(), "the order in which a map is iterated")
				}
			case *ssa.Call:
				if p.calleeIs(&x.Call, []string{"slices.Collect*", "slices.AppendSeq*"}) {
					for _, a := range x.Call.Args {
						if c, ok := a.(*ssa.Call); ok && p.calleeIs(&c.Call, []string{"maps.Keys*", "maps.Values*", "maps.All*"}) {
							s.site(x)
							s.list(x, nil)
						}
					}
				}
			}
		})
	}
}

func eachInstr(f *ssa.Function, do func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// loop examines a loop which visits its elements in an unspecified order.
func (s *orderScan) loop(at *ssa.BasicBlock, why string) {
	if s.loops[at] {
		return
	}
	s.loops[at] = true
	body := innermost(at)
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && s.carried(x.Call.Args[0], body, map[ssa.Value]bool{}) {
						s.list(x, body)
					}
					continue
				}
				s.effect(&x.Call, x, body, 0)
			case *ssa.BinOp:
				if t, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && t.Info()&types.IsString != 0 && (s.carried(x.X, body, map[ssa.Value]bool{}) || s.carried(x.Y, body, map[ssa.Value]bool{})) {
					s.fail(x, "a text is put together in "+why)
				}
			}
		}
	}
}

// carried: the value comes from the previous iteration, or from a variable.
func (s *orderScan) carried(v ssa.Value, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if body[x.Block()] && !body[x.Block().Preds[i]] {
				return true
			}
			if s.carried(e, body, seen) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return s.carried(x.Call.Args[0], body, seen)
		}
	case *ssa.Slice:
		return s.carried(x.X, body, seen)
	case *ssa.BinOp:
		return s.carried(x.X, body, seen) || s.carried(x.Y, body, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return !s.fresh(x.X, body)
		}
	}
	return false
}

// fresh: the address belongs to an object made, or an element looked up, in the iteration.
func (s *orderScan) fresh(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			in, ok := v.(ssa.Instruction)
			return ok && body[in.Block()]
		}
	}
}

// effect examines a call in such a loop.
func (s *orderScan) effect(cc *ssa.CallCommon, at ssa.Instruction, body map[*ssa.BasicBlock]bool, depth int) {
	if s.p.calleeIs(cc, s.ordered) && !s.p.calleeIs(cc, []string{"os.*"}) {
		var recv ssa.Value
		if cc.IsInvoke() {
			recv = cc.Value
		} else if len(cc.Args) > 0 {
			recv = cc.Args[0]
		}
		if recv != nil && (body == nil || !s.fresh(recv, body)) {
			s.fail(at, "something is written in the order in which a map is iterated")
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			g, _ = mc.Fn.(*ssa.Function)
		}
	}
	if g == nil || depth > 3 || s.p.relFile(g) == "" {
		return
	}
	own := map[*ssa.BasicBlock]bool{}
	for _, b := range g.Blocks {
		own[b] = true
	}
	eachInstr(g, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		if !s.p.calleeIs(&c.Call, s.ordered) {
			s.effect(&c.Call, at, body, depth+1)
			return
		}
		recv := c.Call.Value
		if !c.Call.IsInvoke() {
			if len(c.Call.Args) == 0 {
				return
			}
			recv = c.Call.Args[0]
		}
		if s.fresh(recv, own) {
			return
		}
		for i, par := range g.Params {
			if recv == par && i < len(cc.Args) && body != nil && s.fresh(cc.Args[i], body) {
				return
			}
		}
		if !s.p.calleeIs(&c.Call, []string{"os.*"}) {
			s.fail(at, "something is written in the order in which a map is iterated")
		}
	})
}

// list examines the uses of a list whose elements are in an unspecified order. body: the loop it is built in.
func (s *orderScan) list(from ssa.Value, body map[*ssa.BasicBlock]bool) {
	if s.seen[from] {
		return
	}
	s.seen[from] = true
	web := map[ssa.Value]bool{}
	var uses []ssa.Instruction
	work := []ssa.Value{from}
	fn := from.(ssa.Instruction).Parent()
	add := func(v ssa.Value) { work = append(work, v) }
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if web[v] {
			continue
		}
		web[v] = true
		s.seen[v] = true
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				add(x)
			case *ssa.Slice:
				add(x)
			case *ssa.ChangeType:
				add(x)
			case *ssa.MakeInterface:
				add(x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch {
					case b.Name() == "append" && x.Call.Args[0] == v:
						add(x)
						continue
					case b.Name() == "len" || b.Name() == "cap":
						continue
					}
				}
				uses = append(uses, x)
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				loads := sameCell(fn, x.Addr)
				for _, l := range loads {
					add(l)
				}
				if _, local := x.Addr.(*ssa.Alloc); !local && !body[x.Block()] {
					uses = append(uses, x)
				} else if !local && len(loads) == 0 {
					uses = append(uses, x)
				}
			default:
				uses = append(uses, u)
			}
		}
	}
	var sorts []ssa.Instruction
	for _, u := range uses {
		if c, ok := u.(*ssa.Call); ok && s.sorting(&c.Call, web, 0) {
			sorts = append(sorts, c)
		}
	}
	for _, u := range uses {
		if body[u.Block()] {
			continue
		}
		sorted := false
		for _, x := range sorts {
			sorted = sorted || x == u || before(x, u)
		}
		if sorted {
			continue
		}
		switch x := u.(type) {
		case *ssa.IndexAddr, *ssa.Index:
			if inCycle(u.Block()) {
				s.loop(u.Block(), "an unspecified order")
				continue
			}
		case *ssa.Return:
			if fn.Object() == nil || !fn.Object().Exported() {
				for _, c := range s.callers[fn] {
					for i, r := range x.Results {
						if !web[r] {
							continue
						}
						if len(x.Results) == 1 {
							s.list(c, nil)
						} else if c.Referrers() != nil {
							for _, e := range *c.Referrers() {
								if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
									s.list(ex, nil)
								}
							}
						}
					}
				}
				continue
			}
		}
		s.fail(u, "a list in the order in which a map was iterated is used without being sorted")
	}
}

// sorting: the call sorts the list.
func (s *orderScan) sorting(cc *ssa.CallCommon, web map[ssa.Value]bool, depth int) bool {
	hit := -1
	for i, a := range cc.Args {
		if web[a] {
			hit = i
		}
	}
	if hit < 0 {
		return false
	}
	if s.p.calleeIs(cc, []string{"sort.*", "slices.Sort*"}) {
		return true
	}
	g := cc.StaticCallee()
	if g == nil || depth > 2 || s.p.relFile(g) == "" || hit >= len(g.Params) {
		return false
	}
	found := false
	inner := map[ssa.Value]bool{g.Params[hit]: true}
	eachInstr(g, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			found = found || s.sorting(&c.Call, inner, depth+1)
		}
		if m, ok := in.(*ssa.MakeInterface); ok && inner[m.X] {
			inner[m] = true
		}
	})
	return found
}

// sameCell: the loads of the variable or field in the function.
func sameCell(fn *ssa.Function, addr ssa.Value) []ssa.Value {
	var out []ssa.Value
	eachInstr(fn, func(in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return
		}
		if u.X == addr {
			out = append(out, u)
			return
		}
		a, okA := u.X.(*ssa.FieldAddr)
		b, okB := addr.(*ssa.FieldAddr)
		if okA && okB && a.Field == b.Field && a.X == b.X {
			out = append(out, u)
		}
	})
	return out
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

var orderedCalls = strings.Split("File.Add*,File.Drop*,*.Write,*.WriteString,*.WriteByte,*.WriteRune,fmt.Fprint*,io.WriteString,io.Copy,Encoder.*", ",")

package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// liveInfo is SSA liveness at block entry, where a use of a derived ("transparent") value also counts as
// a use of what it is derived from, so that a condition can be re-rendered where it is tested.
type liveInfo struct {
	in     map[*ssa.BasicBlock]map[ssa.Value]bool
	defers []*ssa.Defer
}

func transparent(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.BinOp, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Extract, *ssa.Convert,
		*ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.TypeAssert, *ssa.UnOp, *ssa.Lookup, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "append" || b.Name() == "cap") {
			return true
		}
		// a condition is rendered with the arguments of the call
		if t, ok := v.Type().Underlying().(*types.Basic); ok && t.Kind() == types.Bool {
			return true
		}
	}
	return false
}

func deepUses(v ssa.Value, out map[ssa.Value]bool, depth int) {
	if v == nil || out[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return
	}
	out[v] = true
	if a, ok := v.(*ssa.Alloc); ok && depth <= 12 {
		// a variable assigned once stands for what was assigned
		if sv := cellValue(a); sv != nil {
			deepUses(sv, out, depth+1)
		}
		return
	}
	if phi, ok := v.(*ssa.Phi); ok && depth <= 12 {
		// a condition computed in parts
		if t, ok := phi.Type().Underlying().(*types.Basic); ok && t.Kind() == types.Bool {
			for _, e := range phi.Edges {
				deepUses(e, out, depth+1)
			}
		}
		return
	}
	if depth > 12 || !transparent(v) {
		return
	}
	if in, ok := v.(ssa.Instruction); ok {
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if o != nil && *o != nil {
				deepUses(*o, out, depth+1)
			}
		}
	}
}

// theProg: the program that is analysed.
var theProg *Prog

var cellValMemo = map[*ssa.Alloc]ssa.Value{}

func cellValue(a *ssa.Alloc) ssa.Value {
	v, ok := cellValMemo[a]
	if !ok {
		v = theProg.singleStore(a)
		if v != nil {
			switch t := v.Type().Underlying().(type) {
			case *types.Slice: // conditions and lists need what they were made of
			case *types.Basic:
				if t.Kind() != types.Bool {
					v = nil
				}
			default:
				v = nil
			}
		}
		cellValMemo[a] = v
	}
	return v
}

func (p *Prog) live(fn *ssa.Function) *liveInfo {
	if li := p.liveCache[fn]; li != nil {
		return li
	}
	li := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	blocks := fn.Blocks
	if fn.Recover != nil {
		found := false
		for _, b := range blocks {
			if b == fn.Recover {
				found = true
			}
		}
		if !found {
			blocks = append(append([]*ssa.BasicBlock{}, blocks...), fn.Recover)
		}
	}
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	// values used by deferred calls are live wherever RunDefers may execute: treat them as used at every
	// RunDefers of the function.
	deferUses := map[ssa.Value]bool{}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				li.defers = append(li.defers, d)
				var ops []*ssa.Value
				for _, o := range d.Operands(ops) {
					if o != nil && *o != nil {
						deepUses(*o, deferUses, 0)
					}
				}
			}
		}
	}
	for _, b := range blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				d[phi] = true
				continue
			}
			cur := map[ssa.Value]bool{}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if o != nil && *o != nil {
					deepUses(*o, cur, 0)
				}
			}
			if _, ok := in.(*ssa.RunDefers); ok {
				for v := range deferUses {
					cur[v] = true
				}
			}
			for v := range cur {
				if !d[v] {
					u[v] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		li.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(blocks) - 1; i >= 0; i-- {
			b := blocks[i]
			in := li.in[b]
			addv := func(v ssa.Value) {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				addv(v)
			}
			for _, s := range b.Succs {
				for v := range li.in[s] {
					if !def[b][v] {
						addv(v)
					}
				}
				for _, instr := range s.Instrs {
					phi, ok := instr.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b {
							cur := map[ssa.Value]bool{}
							deepUses(phi.Edges[k], cur, 0)
							for v := range cur {
								if !def[b][v] {
									addv(v)
								}
							}
						}
					}
				}
			}
		}
	}
	p.liveCache[fn] = li
	return li
}

// liveAfter: the values used from a call on (the call included).
func (p *Prog) liveAfter(call ssa.Instruction) map[ssa.Value]bool {
	if s := p.liveCall[call]; s != nil {
		return s
	}
	out := map[ssa.Value]bool{}
	b := call.Block()
	li := p.live(b.Parent())
	after := false
	for _, in := range b.Instrs {
		if in == call {
			after = true
		}
		if !after {
			continue
		}
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if o != nil && *o != nil {
				deepUses(*o, out, 0)
			}
		}
		if _, ok := in.(*ssa.RunDefers); ok {
			for _, d := range li.defers {
				for _, o := range d.Operands(nil) {
					if o != nil && *o != nil {
						deepUses(*o, out, 0)
					}
				}
			}
		}
	}
	for _, s := range b.Succs {
		for v := range li.in[s] {
			out[v] = true
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range s.Preds {
				if pr == b {
					deepUses(phi.Edges[k], out, 0)
				}
			}
		}
	}
	// what closures used from here on capture
	for v := range out {
		if mc, ok := v.(*ssa.MakeClosure); ok {
			for _, bd := range mc.Bindings {
				deepUses(bd, out, 0)
			}
		}
	}
	for _, d := range li.defers {
		for _, o := range d.Operands(nil) {
			if o != nil && *o != nil {
				deepUses(*o, out, 0)
			}
		}
	}
	p.liveCall[call] = out
	return out
}

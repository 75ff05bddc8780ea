package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// DeletesOne: whenever an element is deleted from a list field, it is the element the code looked at: the list
// is cut out at one index, or the last element takes the place of the deleted one, and the index is one with
// which the list was searched. Lists emptied altogether and functions given the predicate (slices.DeleteFunc)
// are not concerned.
func (o *Obl) DeletesOne(rel string, fields ...string) {
	for _, field := range fields {
		o.Watch(rel, listStore(field, "delete"), "", func(c *Ctx, ev *Event, st any, hit bool) any {
			s := st.(string)
			if ev.Kind != KInstr {
				return st
			}
			switch x := ev.Instr.(type) {
			case *ssa.Store:
				if i, ok := c.indexOf(Val{c.S.F, x.Addr}, field); ok {
					// L[i] = L[len(L)-1]
					v := c.Resolve(Val{c.S.F, x.Val})
					if u, ok := v.V.(*ssa.UnOp); ok && u.Op == token.MUL {
						if j, ok := c.indexOf(Val{v.F, u.X}, field); ok && c.isLast(j, field) && c.searchIndex(i, field) {
							return "replaced"
						}
					}
					return st
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
					d, okD := c.Resolve(Val{c.S.F, x.Call.Args[0]}).V.(*ssa.Slice)
					e, okE := c.Resolve(Val{c.S.F, x.Call.Args[1]}).V.(*ssa.Slice)
					if okD && okE && c.StrV(d) == field && c.StrV(e) == field && d.Low != nil && e.Low != nil {
						if i := (Val{c.S.F, d.Low}); c.isNext(Val{c.S.F, e.Low}, i) && c.searchIndex(i, field) {
							return "replaced"
						}
					}
				}
			}
			if !hit {
				return s
			}
			if why := c.deleteShape(ev.Instr.(*ssa.Store), field, s == "replaced"); why != "" {
				c.Violate("delete "+field, "%s: %s: %s", fnName(c.S.F.fn), field, why)
			}
			return ""
		})
	}
}

// deleteShape: why this store does not delete exactly the element that was searched for.
func (c *Ctx) deleteShape(st *ssa.Store, field string, replaced bool) string {
	v := c.Resolve(Val{c.S.F, st.Val})
	switch x := v.V.(type) {
	case *ssa.Call:
		switch c.W.P.callName(&x.Call) {
		case "slices.DeleteFunc":
			return ""
		case "slices.Delete":
			i, j := Val{v.F, x.Call.Args[1]}, Val{v.F, x.Call.Args[2]}
			if !c.isNext(j, i) || !c.searchIndex(i, field) {
				return "other elements than the one found are deleted"
			}
			return ""
		case "append":
			a, okA := c.Resolve(Val{v.F, x.Call.Args[0]}), true
			b := c.Resolve(Val{v.F, x.Call.Args[1]})
			sa, ok1 := a.V.(*ssa.Slice)
			sb, ok2 := b.V.(*ssa.Slice)
			if !okA || !ok1 || !ok2 || sa.High == nil || sb.Low == nil || sa.Low != nil || sb.High != nil {
				return "other elements than the one found are deleted"
			}
			if i := (Val{a.F, sa.High}); !c.isNext(Val{b.F, sb.Low}, i) || !c.searchIndex(i, field) {
				return "other elements than the one found are deleted"
			}
			return ""
		}
	case *ssa.Slice:
		if x.High != nil {
			if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
				return "" // emptied
			}
		}
		if x.Low == nil && x.High != nil && c.isLast(Val{v.F, x.High}, field) {
			if replaced {
				return ""
			}
			return "the last element is deleted in place of the one found"
		}
		return "other elements than the one found are deleted"
	}
	return ""
}

// indexOf: the value is the address of an element of the list; i is its index.
func (c *Ctx) indexOf(v Val, field string) (i Val, ok bool) {
	r := c.Resolve(v)
	ia, isIA := r.V.(*ssa.IndexAddr)
	if !isIA || c.Str(Val{r.F, ia.X}) != field {
		return Val{}, false
	}
	return Val{r.F, ia.Index}, true
}

// isLast: len(list)-1.
func (c *Ctx) isLast(i Val, field string) bool {
	r := c.Resolve(i)
	b, ok := r.V.(*ssa.BinOp)
	if !ok || b.Op != token.SUB || !isOne(b.Y) {
		return false
	}
	return c.Str(Val{r.F, b.X}) == "len("+field+")"
}

// isNext: j is i+1.
func (c *Ctx) isNext(j, i Val) bool {
	r := c.Resolve(j)
	b, ok := r.V.(*ssa.BinOp)
	return ok && b.Op == token.ADD && isOne(b.Y) && c.Resolve(Val{r.F, b.X}) == c.Resolve(i)
}

func isOne(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "1"
}

// searchIndex: the list is read at this index, or the index was found by searching the list.
func (c *Ctx) searchIndex(i Val, field string) bool {
	for n := 0; n < 100; n++ {
		switch x := i.V.(type) {
		case *ssa.Call:
			if strings.HasPrefix(c.W.P.callName(&x.Call), "slices.Index") && c.Str(Val{i.F, x.Call.Args[0]}) == field {
				return true
			}
		case *ssa.Parameter:
			if i.F.up == nil {
				return true
			}
		}
		if i.V.Referrers() != nil {
			for _, u := range *i.V.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok || ia.Index != i.V {
					continue
				}
				for _, l := range *ia.Referrers() {
					if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL {
						return true
					}
				}
			}
		}
		next, ok := c.W.step1(c.S.env, i, true)
		if !ok || next == i {
			return false
		}
		i = next
	}
	return false
}

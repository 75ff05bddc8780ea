package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about what a function's result says about its inputs.

// Need is a fact that a result has to be based on: a branch taken on the path, or the result itself.
type Need func(atom string, truth bool) bool

// fact matches a literal by patterns ("!p": negated).
func fact(pats ...string) Need {
	return func(atom string, truth bool) bool {
		for _, p := range pats {
			want := true
			if strings.HasPrefix(p, "!") {
				want, p = false, p[1:]
			}
			if want == truth && glob(p, atom) {
				return true
			}
		}
		return false
	}
}

// relates matches a positive literal that mentions all the parts.
func relates(prefixes string, parts ...string) Need {
	return func(atom string, truth bool) bool {
		if !truth || !globAny(strings.Split(prefixes, "|"), atom) {
			return false
		}
		for _, p := range parts {
			if !strings.Contains(atom, p) {
				return false
			}
		}
		return true
	}
}

func eqOf(a, b string) Need { return fact(a+"=="+b, b+"=="+a) }

func orNeed(ns ...Need) Need {
	return func(atom string, truth bool) bool {
		for _, n := range ns {
			if n(atom, truth) {
				return true
			}
		}
		return false
	}
}

// pred is the branch on which the fact is established.
func (n Need) pred() Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge {
			return false
		}
		return n(c.W.normLit(c.S.env, ev.Lit))
	}
}

// ResultOnlyIf: the root returns a result for which claim holds (or may hold) only on paths on which all needs were
// established. claim says whether it may hold and what the result itself then establishes.
func (o *Obl) ResultOnlyIf(root *ssa.Function, what string, claim func(c *Ctx, res []Val) (may bool, atom string, truth bool), needs ...Need) {
	n := 0
	full := 1<<len(needs) - 1
	w := &Walker{P: o.ck.P, Root: root, Init: 0, Interesting: func(in ssa.Instruction) bool { return true }}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(int)
		switch ev.Kind {
		case KEdge:
			atom, truth := c.W.normLit(c.S.env, ev.Lit)
			if truth && root.Signature.Recv() != nil && atom == "<"+baseTypeName(ptrElem(root.Signature.Recv().Type()))+">==nil" {
				c.Stop()
				return s
			}
			for i, nd := range needs {
				if nd(atom, truth) {
					s |= 1 << i
				}
			}
		case KExit:
			may, atom, truth := claim(c, ev.Results)
			if !may {
				return s
			}
			n++
			for i, nd := range needs {
				if atom != "" && nd(atom, truth) {
					s |= 1 << i
				}
			}
			if s != full {
				c.Violate("only", "%s: %s", fnName(root), what)
			}
		}
		return s
	}
	o.runWalker(w)
	o.SiteName(fnName(root))
	if n == 0 {
		o.Fail("noresult|"+fnName(root), root.Pos(), nil, "%s never returns this result: %s", fnName(root), what)
	}
}

// TrueOnlyIf: a boolean function returns true only if the needs hold.
func (o *Obl) TrueOnlyIf(root *ssa.Function, what string, needs ...Need) {
	o.ResultOnlyIf(root, what, claimTrue, needs...)
}

func claimTrue(c *Ctx, res []Val) (bool, string, bool) {
	if v, ok := c.known(res[0]); ok {
		return v, "", true
	}
	s := c.Str(res[0])
	truth := true
	for strings.HasPrefix(s, "!") {
		truth, s = !truth, s[1:]
	}
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		s = s[1 : len(s)-1]
	}
	return true, s, truth
}

// NilErrOnlyIf: a function returns a nil error (its last result) only if the needs hold.
func (o *Obl) NilErrOnlyIf(root *ssa.Function, what string, needs ...Need) {
	o.ResultOnlyIf(root, what, claimNilErr, needs...)
}

func claimNilErr(c *Ctx, res []Val) (bool, string, bool) {
	r := res[len(res)-1]
	switch c.W.nilness(c.S.env, r) {
	case 2:
		return false, "", true
	case 1:
		return true, "", true
	}
	return true, c.Str(r) + "==nil", true
}

// recvFields lists the fields of a method's receiver that hold parameters (not functions, value options or the
// bookkeeping of generated messages).
func recvFields(fn *ssa.Function) (out []*types.Var) {
	r := fn.Signature.Recv()
	if r == nil {
		return
	}
	st := structOf(ptrElem(r.Type()))
	if st == nil {
		return
	}
	pb := false
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "unknownFields" {
			pb = true
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, isF := f.Type().Underlying().(*types.Signature); isF || baseTypeName(f.Type()) == "ValueOptions" || pb && !f.Exported() {
			continue
		}
		out = append(out, f)
	}
	return
}

package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Entry is a place where code of a package starts running from outside: an exported function or method, a
// function value that escapes, or a goroutine.
type Entry struct {
	Fn   *ssa.Function
	Go   *ssa.Go
	Kind string // "api", "closure", "go"
}

// goSites lists the goroutine starts in a package.
func (p *Prog) goSites(rel string) []*ssa.Go {
	var out []*ssa.Go
	for _, f := range p.FuncsIn(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// goTarget: the function a goroutine start runs, when statically known.
func (p *Prog) goTarget(g *ssa.Go) *ssa.Function {
	if g.Call.IsInvoke() {
		return nil
	}
	switch v := g.Call.Value.(type) {
	case *ssa.Function:
		return p.unwrap(v)
	case *ssa.MakeClosure:
		return p.unwrap(v.Fn.(*ssa.Function))
	}
	return p.unwrap(g.Call.StaticCallee())
}

// escapingClosure reports whether a function literal may be called by someone other than the code that can
// be seen calling it: it is returned, stored, sent or passed on.
func (p *Prog) escapingClosure(mc ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var esc func(v ssa.Value, d int) bool
	esc = func(v ssa.Value, d int) bool {
		if seen[v] || d > 10 {
			return false
		}
		seen[v] = true
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Call:
				if r.Call.Value == v {
					continue
				}
				if c := p.unwrap(r.Call.StaticCallee()); c != nil && p.inRepo[c] {
					// followed into the parameter
					for i, a := range r.Call.Args {
						if a == v && i < len(c.Params) && esc(c.Params[i], d+1) {
							return true
						}
					}
					continue
				}
				if k, _ := p.syncInvoker(&r.Call); k != 0 {
					continue
				}
				return true
			case *ssa.Defer:
				if r.Call.Value == v {
					continue
				}
				return true
			case *ssa.Go:
				return true
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				if al, ok := r.Addr.(*ssa.Alloc); ok {
					if esc(al, d+1) {
						return true
					}
					continue
				}
				return true
			case *ssa.UnOp:
				if r.Op == token.MUL {
					if _, isFn := r.Type().Underlying().(*types.Signature); isFn && esc(r, d+1) {
						return true
					}
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) && esc(fn.FreeVars[i], d+1) {
						return true
					}
				}
			case *ssa.Phi, *ssa.ChangeType:
				if esc(r.(ssa.Value), d+1) {
					return true
				}
			case *ssa.BinOp, *ssa.DebugRef:
			case *ssa.Return, *ssa.MakeInterface, *ssa.Send, *ssa.MapUpdate:
				return true
			default:
				return true
			}
		}
		return false
	}
	return esc(mc, 0)
}

// entries lists the entry points of a package.
func (p *Prog) entries(rel string) []Entry {
	var out []Entry
	gos := map[*ssa.Function]bool{}
	for _, g := range p.goSites(rel) {
		if t := p.goTarget(g); t != nil && p.inRepo[t] {
			out = append(out, Entry{Fn: t, Go: g, Kind: "go"})
			gos[t] = true
		}
	}
	for _, f := range p.FuncsIn(rel) {
		if f.Blocks == nil || gos[f] || f.Synthetic != "" {
			continue
		}
		if f.Parent() == nil {
			if token.IsExported(f.Name()) {
				out = append(out, Entry{Fn: f, Kind: "api"})
			}
			continue
		}
		esc := false
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && p.escapingClosure(mc) {
					esc = true
				}
			}
		}
		if esc {
			out = append(out, Entry{Fn: f, Kind: "closure"})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Fn.Pos() < out[j].Fn.Pos() })
	return out
}

// closuresPassedTo lists the functions passed as argument n to calls of the named callee in a package.
func (p *Prog) closuresPassedTo(rel string, n int, names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.FuncsIn(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !p.calleeIs(&c.Call, names) {
					continue
				}
				args := c.Call.Args
				if c.Call.IsInvoke() {
					args = append([]ssa.Value{c.Call.Value}, args...)
				}
				if n >= len(args) {
					continue
				}
				switch v := args[n].(type) {
				case *ssa.MakeClosure:
					out = append(out, p.unwrap(v.Fn.(*ssa.Function)))
				case *ssa.Function:
					out = append(out, p.unwrap(v))
				}
			}
		}
	}
	return out
}

// returnedClosures lists the function literals a function (or what it inlines) may return.
func (p *Prog) returnedClosures(root *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	w := &Walker{P: p, Root: root, Init: 0}
	ck := &Check{P: p, Funcs: map[string]bool{}}
	w.Interesting = ck.interesting(root)
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		if ev.Kind == KExit {
			for _, r := range ev.Results {
				for _, v := range c.phiLeaves(r) {
					if fn, ok := v.V.(*ssa.Function); ok && fn.Parent() != nil && !seen[fn] {
						seen[fn] = true
						out = append(out, fn)
					}
					if mc, ok := v.V.(*ssa.MakeClosure); ok {
						fn := p.unwrap(mc.Fn.(*ssa.Function))
						if !seen[fn] {
							seen[fn] = true
							out = append(out, fn)
						}
					}
				}
			}
		}
		return st
	}
	w.Run()
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// phiLeaves expands phis.
func (c *Ctx) phiLeaves(v Val) []Val {
	var out []Val
	seen := map[Val]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		v = c.Resolve(v)
		if seen[v] {
			return
		}
		seen[v] = true
		if ph, ok := v.V.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				visit(Val{v.F, e})
			}
			return
		}
		out = append(out, v)
	}
	visit(v)
	return out
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aperturerobotics/controllerbus"

// Prog is the loaded, type-checked program with SSA for every package of the repository.
type Prog struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	pkgs  map[string]*ssa.Package
	ppk   map[string]*packages.Package
	Funcs []*ssa.Function // every function with a body in the repository, closures included

	inRepo    map[*ssa.Function]bool
	callersOf map[*ssa.Function][]ssa.CallInstruction
	asValue   map[*ssa.Function]bool // used other than by calling it
	fieldIdx  map[*types.Var]string
	liveCache map[*ssa.Function]*liveInfo
	liveCall  map[ssa.Instruction]map[ssa.Value]bool
	asyncMemo map[*ssa.Alloc]bool
}

// anchorErr is raised when something the rules are anchored on does not exist any more.
type anchorErr struct{ msg string }

func (a anchorErr) Error() string { return a.msg }

func anchorFail(format string, args ...any) { panic(anchorErr{fmt.Sprintf(format, args...)}) }

func loadProg(root string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps | packages.NeedExportFile,
		Dir:   root,
		Tests: false,
		Env:   os.Environ(),
	}
	// Only the packages of the repository are needed from source; dependencies come from export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	if back := renamedBack(root, pkgs); len(back) > 0 {
		cfg.Overlay = back
		again, err := packages.Load(cfg, "./...")
		ok := err == nil && len(again) == len(pkgs)
		for _, p := range again {
			ok = ok && len(p.Errors) == 0
		}
		if ok {
			pkgs = again
		}
	}
	if len(pkgs) < 20 {
		return nil, fmt.Errorf("only %d packages loaded from %s", len(pkgs), root)
	}
	prog, spkgs := ssautil.Packages(pkgs, 0)
	p := &Prog{
		Root: root, Fset: prog.Fset, Pkgs: pkgs, SSA: prog,
		pkgs: map[string]*ssa.Package{}, ppk: map[string]*packages.Package{},
		inRepo: map[*ssa.Function]bool{}, callersOf: map[*ssa.Function][]ssa.CallInstruction{}, asValue: map[*ssa.Function]bool{},
		liveCache: map[*ssa.Function]*liveInfo{}, liveCall: map[ssa.Instruction]map[ssa.Value]bool{}, asyncMemo: map[*ssa.Alloc]bool{},
	}
	theProg = p
	prog.Build()
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.pkgs[pkgs[i].PkgPath] = sp
		p.ppk[pkgs[i].PkgPath] = pkgs[i]
	}
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		if fn.Blocks == nil {
			return
		}
		p.Funcs = append(p.Funcs, fn)
		p.inRepo[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for path, sp := range p.pkgs {
		_ = path
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			pa, pb := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos())
			if pa.Filename != pb.Filename {
				return pa.Filename < pb.Filename
			}
			return pa.Offset < pb.Offset
		}
		return a.String() < b.String()
	})
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if c := p.staticCallee(ci.Common()); c != nil {
						p.callersOf[c] = append(p.callersOf[c], ci)
					}
				}
				ci, _ := in.(ssa.CallInstruction)
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if f, ok := (*op).(*ssa.Function); ok && (ci == nil || op != &ci.Common().Value) {
						p.asValue[p.unwrap(f)] = true
					}
				}
			}
		}
	}
	return p, nil
}

// origin maps an instance of a generic function to its generic body.
func origin(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// unwrap resolves synthetic wrappers (bound methods, thunks, promoted method wrappers) to the wrapped function.
func (p *Prog) unwrap(fn *ssa.Function) *ssa.Function {
	fn = origin(fn)
	for i := 0; i < 4 && fn != nil && fn.Synthetic != "" && !p.inRepo[fn]; i++ {
		if obj, ok := fn.Object().(*types.Func); ok && obj != nil {
			if t := origin(p.SSA.FuncValue(obj.Origin())); t != nil && t != fn {
				fn = t
				continue
			}
		}
		break
	}
	return fn
}

func (p *Prog) staticCallee(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	return origin(c.StaticCallee())
}

func (p *Prog) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" && rel != "." {
		path = modPath + "/" + rel
	}
	sp := p.pkgs[path]
	if sp == nil {
		anchorFail("package %s not found", path)
	}
	return sp
}

// Named looks up a named type.
func (p *Prog) Named(rel, name string) *types.Named {
	sp := p.pkg(rel)
	m := sp.Pkg.Scope().Lookup(name)
	if m == nil {
		anchorFail("type %s.%s not found", rel, name)
	}
	n, ok := m.Type().(*types.Named)
	if !ok {
		anchorFail("%s.%s is not a named type", rel, name)
	}
	return n
}

// Func looks up a package level function.
func (p *Prog) Func(rel, name string) *ssa.Function {
	fn := p.pkg(rel).Func(name)
	if fn == nil || fn.Blocks == nil {
		anchorFail("function %s.%s not found", rel, name)
	}
	return fn
}

// Method looks up a method declared on a named type.
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	if fn := p.MethodOpt(rel, typ, name); fn != nil {
		return fn
	}
	anchorFail("method %s.%s.%s not found", rel, typ, name)
	return nil
}

func (p *Prog) MethodOpt(rel, typ, name string) *ssa.Function {
	n := p.Named(rel, typ)
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			fn := p.SSA.FuncValue(n.Method(i))
			if fn != nil && fn.Blocks != nil {
				return fn
			}
		}
	}
	return nil
}

// Methods lists the declared methods of a named type.
func (p *Prog) Methods(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		fn := p.SSA.FuncValue(n.Method(i))
		if fn != nil && fn.Blocks != nil {
			out = append(out, fn)
		}
	}
	return out
}

// ImplOf returns the single named type in package rel whose pointer implements the interface.
func (p *Prog) Iface(rel, name string) *types.Interface {
	n := p.Named(rel, name)
	i, ok := n.Underlying().(*types.Interface)
	if !ok {
		anchorFail("%s.%s is not an interface", rel, name)
	}
	return i
}

func (p *Prog) FuncsIn(rel string) []*ssa.Function {
	sp := p.pkg(rel)
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if fnPkg(f) == sp {
			out = append(out, f)
		}
	}
	return out
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil {
		return o.Pkg
	}
	return nil
}

func (p *Prog) relFile(fn *ssa.Function) string {
	pos := p.Fset.Position(fn.Pos())
	r, err := filepath.Rel(p.Root, pos.Filename)
	if err != nil {
		return pos.Filename
	}
	return r
}

func (p *Prog) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

// fnName is a stable, human readable name for a function.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "controllerbus")
	return s
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// fall back to the closest instruction with a position in the block
	b := in.Block()
	if b != nil {
		found := false
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if b.Instrs[i] == in {
				found = true
			}
			if found && b.Instrs[i].Pos().IsValid() {
				return b.Instrs[i].Pos()
			}
		}
		if b.Parent() != nil {
			return b.Parent().Pos()
		}
	}
	return token.NoPos
}

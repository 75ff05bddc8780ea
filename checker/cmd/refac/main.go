// refac applies one behaviour-preserving rewriting everywhere in a copy of the repository, to find out whether the
// checks stay quiet: refac -dir COPY -t NAME [-fn SUBSTRING].
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

var (
	dir    = flag.String("dir", "", "copy of the repository")
	tname  = flag.String("t", "", "rewriting")
	only   = flag.String("fn", "", "only in functions whose name contains this")
	parity = flag.Int("mod", 1, "only every n-th site")
	phase  = flag.Int("phase", 0, "which of them")
	list   = flag.Bool("list", false, "list the rewritings")
)

type R struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	src   []byte
	fn    *ast.FuncDecl
	extra []string
	n     int
	site  int
	names map[string]bool
	skip  map[ast.Node]bool
	fns   []ast.Node // enclosing functions of what is rendered
}

type rewriting func(r *R, n ast.Node) (string, bool)

// lists rewrites a statement list.
type listRewriting func(r *R, owner ast.Node, list []ast.Stmt) ([]string, bool)

var (
	nodeRW map[string]rewriting
	listRW map[string]listRewriting
	fnRW   map[string]func(r *R, f *ast.FuncDecl) (string, bool)
)

func init() {
	nodeRW = map[string]rewriting{"invertif": invertIf, "splitinit": splitInit, "rangeidx": rangeIdx, "swapeq": swapEq, "chain2switch": chainSwitch, "loopcontinue": loopContinue, "loopnocontinue": loopNoContinue, "extractif": extractIf, "switch2chain": switchChain, "forcond": forCond, "andnest": andNest, "extractloop": extractLoop}
	listRW = map[string]listRewriting{"condvar": condVar, "retvar": retVar, "elseless": elseLess, "reorder": reorder, "namecb": nameCallback, "nop": nop, "extracttail": extractTail, "elsereturn": elseReturn, "vardecl": varDecl, "unlockdefer": unlockDefer}
	fnRW = map[string]func(r *R, f *ast.FuncDecl) (string, bool){"delegate": delegate}
}

func main() {
	flag.Parse()
	if *list {
		var out []string
		for k := range nodeRW {
			out = append(out, k)
		}
		for k := range listRW {
			out = append(out, k)
		}
		for k := range fnRW {
			out = append(out, k)
		}
		for k := range renames {
			out = append(out, k)
		}
		sort.Strings(out)
		fmt.Println(strings.Join(out, " "))
		return
	}
	cfg := &packages.Config{Dir: *dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedCompiledGoFiles}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	total := 0
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/example") || strings.Contains(p.PkgPath, "/hack") {
			continue
		}
		names := map[string]bool{}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") || !strings.HasPrefix(name, *dir) {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			r := &R{fset: p.Fset, info: p.TypesInfo, pkg: p.Types, file: f, src: src, names: names, skip: map[ast.Node]bool{}}
			var out string
			if pred := renames[*tname]; pred != nil {
				out = r.renameFile(pred)
			} else {
				out = r.render(f)
			}
			if r.n == 0 {
				continue
			}
			out += strings.Join(r.extra, "\n")
			b, err := format.Source([]byte(out))
			if err != nil {
				fmt.Println(name, err)
				b = []byte(out)
			}
			if err := os.WriteFile(name, b, 0o644); err != nil {
				panic(err)
			}
			total += r.n
		}
	}
	fmt.Println(*tname, total, "sites")
}

func (r *R) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *R) raw(a, b token.Pos) string { return string(r.src[r.off(a):r.off(b)]) }

// render gives the text of the node with everything inside rewritten.
func (r *R) render(n ast.Node) string {
	type edit struct {
		a, b int
		s    string
	}
	var edits []edit
	start, end := n.Pos(), n.End()
	if f, ok := n.(*ast.File); ok {
		start, end = f.FileStart, f.FileEnd
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil || x == n {
			return true
		}
		if f, ok := x.(*ast.FuncDecl); ok {
			if f.Body == nil || *only != "" && !strings.Contains(f.Name.Name, *only) {
				return false
			}
			r.fn = f
		}
		if s, ok := r.rewrite(x); ok {
			edits = append(edits, edit{r.off(x.Pos()), r.off(x.End()), s})
			return false
		}
		return true
	})
	base := r.off(start)
	text := string(r.src[base:r.off(end)])
	sort.Slice(edits, func(i, j int) bool { return edits[i].a > edits[j].a })
	for _, e := range edits {
		text = text[:e.a-base] + e.s + text[e.b-base:]
	}
	return text
}

func (r *R) stmts(ss []ast.Stmt) string {
	var b strings.Builder
	for _, s := range ss {
		b.WriteString(r.stmt(s) + "\n")
	}
	return b.String()
}

// stmt renders the statement, itself rewritten too.
func (r *R) stmt(n ast.Node) string {
	if s, ok := r.rewrite(n); ok {
		return s
	}
	return r.render(n)
}

func (r *R) take() bool {
	r.site++
	return *parity <= 1 || r.site%*parity == *phase
}

func (r *R) rewrite(n ast.Node) (string, bool) {
	if f, ok := n.(*ast.FuncDecl); ok {
		if rw := fnRW[*tname]; rw != nil && f.Body != nil && r.take() {
			if s, ok := rw(r, f); ok {
				r.n++
				return s, true
			}
		}
		return "", false
	}
	if r.fn == nil {
		return "", false
	}
	if rw := nodeRW[*tname]; rw != nil {
		if s, ok := rw(r, n); ok {
			r.n++
			return s, true
		}
		return "", false
	}
	rw := listRW[*tname]
	if rw == nil {
		return "", false
	}
	var l []ast.Stmt
	switch x := n.(type) {
	case *ast.BlockStmt:
		l = x.List
	case *ast.CaseClause:
		l = x.Body
	case *ast.CommClause:
		l = x.Body
	}
	if len(l) == 0 {
		return "", false
	}
	if !r.take() {
		return "", false
	}
	out, ok := rw(r, n, l)
	if !ok {
		return "", false
	}
	r.n++
	pre, post := r.raw(n.Pos(), l[0].Pos()), r.raw(l[len(l)-1].End(), n.End())
	return pre + strings.Join(out, "\n") + post, true
}

func (r *R) fresh(base string) string {
	for i := 1; ; i++ {
		s := fmt.Sprintf("%s%d", base, i)
		if !r.names[s] {
			r.names[s] = true
			return s
		}
	}
}

func (r *R) negate(e ast.Expr) string {
	switch x := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return r.render2(x.X)
		}
	case *ast.BinaryExpr:
		op := map[token.Token]string{token.EQL: "!=", token.NEQ: "=="}[x.Op]
		if op != "" {
			return r.render2(x.X) + " " + op + " " + r.render2(x.Y)
		}
	}
	return "!(" + r.render2(e) + ")"
}

func (r *R) render2(n ast.Node) string { return r.stmt(n) }

func invertIf(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.IfStmt)
	if !ok {
		return "", false
	}
	els, ok := x.Else.(*ast.BlockStmt)
	if !ok || !r.take() {
		return "", false
	}
	init := ""
	if x.Init != nil {
		init = r.render2(x.Init) + "; "
	}
	return "if " + init + r.negate(x.Cond) + " " + r.render2(els) + " else " + r.render2(x.Body), true
}

func splitInit(r *R, n ast.Node) (string, bool) {
	b, ok := n.(*ast.BlockStmt)
	if !ok {
		return "", false
	}
	hit := false
	var out []string
	for _, s := range b.List {
		x, ok := s.(*ast.IfStmt)
		if !ok || x.Init == nil || !r.take() || terminates(r, x) {
			out = append(out, r.stmt(s))
			continue
		}
		hit = true
		rest := r.raw(x.Cond.Pos(), x.Cond.End())
		els := ""
		if x.Else != nil {
			els = " else " + r.render2(x.Else)
		}
		out = append(out, "{\n"+r.render2(x.Init)+"\nif "+rest+" "+r.render2(x.Body)+els+"\n}")
	}
	if !hit {
		return "", false
	}
	return "{\n" + strings.Join(out, "\n") + "\n}", true
}

func terminates(r *R, x *ast.IfStmt) bool { return x.Else != nil && endsInReturn(x.Body.List) }

func endsInReturn(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		e, ok := x.Else.(*ast.BlockStmt)
		return ok && endsInReturn(x.Body.List) && endsInReturn(e.List)
	case *ast.ForStmt:
		return x.Cond == nil && !hasEscape(x.Body, true)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			if !endsInReturn(c.(*ast.CommClause).Body) {
				return false
			}
		}
		return true
	case *ast.SwitchStmt:
		def := false
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			def = def || cc.List == nil
			if !endsInReturn(cc.Body) {
				return false
			}
		}
		return def
	}
	return false
}

func pure(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	}
	return false
}

func (r *R) text(n ast.Node) string { return r.raw(n.Pos(), n.End()) }

// assigned: is the expression (or what it starts with) assigned in the body?
func (r *R) assigned(body ast.Node, text string) bool {
	hit := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if t := r.text(l); t == text || strings.HasPrefix(text, t+".") {
					hit = true
				}
			}
		case *ast.IncDecStmt:
			hit = hit || r.text(x.X) == text
		case *ast.UnaryExpr:
			hit = hit || x.Op == token.AND && r.text(x.X) == text
		}
		return true
	})
	return hit
}

func rangeIdx(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.RangeStmt)
	if !ok || x.Value == nil || x.Tok != token.DEFINE || !pure(x.X) {
		return "", false
	}
	if _, ok := r.info.TypeOf(x.X).Underlying().(*types.Slice); !ok {
		return "", false
	}
	if r.assigned(x.Body, r.text(x.X)) || strings.Contains(r.text(x.Body), "delete(") || r.text(x.Value) == "_" || strings.Contains(r.text(x.Body), r.text(x.Value)+" := "+r.text(x.Value)) || !r.take() {
		return "", false
	}
	// lists reached through a field could be changed by what the body calls
	if _, ok := x.X.(*ast.SelectorExpr); ok && callsAnything(x.Body) {
		return "", false
	}
	i := "idx"
	if x.Key != nil && r.text(x.Key) != "_" {
		i = r.text(x.Key)
	}
	l := r.text(x.X)
	return fmt.Sprintf("for %s := 0; %s < len(%s); %s++ {\n%s := %s[%s]\n%s}", i, i, l, i, r.text(x.Value), l, i, r.stmts(x.Body.List)), true
}

func callsAnything(n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		_, ok := x.(*ast.CallExpr)
		hit = hit || ok
		return true
	})
	return hit
}

func swapEq(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.BinaryExpr)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ || callsAnything(x.X) && callsAnything(x.Y) || !r.take() {
		return "", false
	}
	return r.render2(x.Y) + " " + x.Op.String() + " " + r.render2(x.X), true
}

func andNest(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.IfStmt)
	if !ok || x.Else != nil {
		return "", false
	}
	b, ok := ast.Unparen(x.Cond).(*ast.BinaryExpr)
	if !ok || b.Op != token.LAND || !r.take() {
		return "", false
	}
	init := ""
	if x.Init != nil {
		init = r.render2(x.Init) + "; "
	}
	return "if " + init + r.render2(b.X) + " {\nif " + r.render2(b.Y) + " " + r.render2(x.Body) + "\n}", true
}

// hasEscape: a break (or continue, goto, return if all) that leaves the node.
func hasEscape(n ast.Node, breaksOnly bool) bool {
	hit := false
	var walk func(n ast.Node, loops, brk bool)
	walk = func(n ast.Node, loops, brk bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == n && x != nil {
				if _, ok := x.(*ast.BranchStmt); !ok {
					return true
				}
			}
			switch y := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(y, true, true)
				return false
			case *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				walk(y, loops, true)
				return false
			case *ast.BranchStmt:
				switch {
				case y.Label != nil || y.Tok == token.GOTO || y.Tok == token.FALLTHROUGH:
					hit = true
				case y.Tok == token.BREAK:
					hit = hit || !brk
				case y.Tok == token.CONTINUE:
					hit = hit || !loops && !breaksOnly
				}
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				hit = hit || !breaksOnly
			}
			return true
		})
	}
	walk(n, false, false)
	return hit
}

func chainSwitch(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.IfStmt)
	if !ok || x.Init != nil || x.Else == nil || hasEscape(x, true) {
		return "", false
	}
	var b strings.Builder
	b.WriteString("switch {\n")
	for y := x; ; {
		if y.Init != nil {
			return "", false
		}
		b.WriteString("case " + r.text(y.Cond) + ":\n" + r.stmts(y.Body.List))
		if e, ok := y.Else.(*ast.IfStmt); ok {
			y = e
			continue
		}
		if e, ok := y.Else.(*ast.BlockStmt); ok {
			b.WriteString("default:\n" + r.stmts(e.List))
		}
		break
	}
	if !r.take() {
		return "", false
	}
	return b.String() + "}", true
}

func switchChain(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.SwitchStmt)
	if !ok || x.Init != nil || x.Tag == nil || !pure(x.Tag) || len(x.Body.List) == 0 {
		return "", false
	}
	for _, c := range x.Body.List {
		for _, s := range c.(*ast.CaseClause).Body {
			if hasEscape(&ast.BlockStmt{List: []ast.Stmt{s}}, true) {
				return "", false
			}
		}
	}
	if !r.take() {
		return "", false
	}
	out, def := "", ""
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = " else {\n" + r.stmts(cc.Body) + "}"
			continue
		}
		var conds []string
		for _, e := range cc.List {
			conds = append(conds, r.text(x.Tag)+" == "+r.text(e))
		}
		if out != "" {
			out += " else "
		}
		out += "if " + strings.Join(conds, " || ") + " {\n" + r.stmts(cc.Body) + "}"
	}
	if out == "" {
		return "", false
	}
	return out + def, true
}

func forCond(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.ForStmt)
	if !ok || x.Cond == nil || x.Init != nil || x.Post != nil || !r.take() {
		return "", false
	}
	return "for {\nif " + r.negate(x.Cond) + " {\nbreak\n}\n" + r.stmts(x.Body.List) + "}", true
}

func body(n ast.Node) *ast.BlockStmt {
	switch x := n.(type) {
	case *ast.ForStmt:
		if x.Post != nil && x.Cond == nil {
			return nil
		}
		return x.Body
	case *ast.RangeStmt:
		return x.Body
	}
	return nil
}

// loopContinue: for { ...; if c { B } } => for { ...; if !c { continue }; B }
func loopContinue(r *R, n ast.Node) (string, bool) {
	b := body(n)
	if b == nil || len(b.List) == 0 {
		return "", false
	}
	last, ok := b.List[len(b.List)-1].(*ast.IfStmt)
	if !ok || last.Else != nil || last.Init != nil || !r.take() {
		return "", false
	}
	return r.raw(n.Pos(), b.Lbrace) + "{\n" + r.stmts(b.List[:len(b.List)-1]) + "if " + r.negate(last.Cond) + " {\ncontinue\n}\n" + r.stmts(last.Body.List) + "}", true
}

// loopNoContinue: for { ...; if c { continue }; rest } => for { ...; if !c { rest } }
func loopNoContinue(r *R, n ast.Node) (string, bool) {
	b := body(n)
	if b == nil {
		return "", false
	}
	for i, s := range b.List {
		x, ok := s.(*ast.IfStmt)
		if !ok || x.Else != nil || x.Init != nil || len(x.Body.List) == 0 || i == len(b.List)-1 {
			continue
		}
		br, ok := x.Body.List[len(x.Body.List)-1].(*ast.BranchStmt)
		if !ok || br.Tok != token.CONTINUE || br.Label != nil {
			continue
		}
		if !r.take() {
			continue
		}
		pre := r.raw(n.Pos(), b.Lbrace) + "{\n" + r.stmts(b.List[:i])
		if len(x.Body.List) == 1 {
			return pre + "if " + r.negate(x.Cond) + " {\n" + r.stmts(b.List[i+1:]) + "}\n}", true
		}
		return pre + "if " + r.render2(x.Cond) + " {\n" + r.stmts(x.Body.List[:len(x.Body.List)-1]) + "} else {\n" + r.stmts(b.List[i+1:]) + "}\n}", true
	}
	return "", false
}

// free: the local variables of the enclosing function used in the nodes, and whether they can be passed by value.
func (r *R) free(from, to token.Pos, nodes ...ast.Node) ([]*types.Var, bool) {
	seen := map[*types.Var]bool{}
	var out []*types.Var
	ok := true
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			id, isID := x.(*ast.Ident)
			if !isID {
				return true
			}
			v, isVar := r.info.Uses[id].(*types.Var)
			if !isVar || v.IsField() || v.Parent() == nil || v.Parent() == r.pkg.Scope() || v.Pkg() != r.pkg || v.Pos() >= from && v.Pos() < to {
				return true
			}
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
			return true
		})
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, isID := ast.Unparen(l).(*ast.Ident); isID {
						if v, isVar := r.info.Uses[id].(*types.Var); isVar && seen[v] {
							ok = false
						}
					}
				}
			case *ast.IncDecStmt:
				if id, isID := y.X.(*ast.Ident); isID {
					if v, isVar := r.info.Uses[id].(*types.Var); isVar && seen[v] {
						ok = false
					}
				}
			case *ast.UnaryExpr:
				if id, isID := ast.Unparen(y.X).(*ast.Ident); isID && y.Op == token.AND {
					if v, isVar := r.info.Uses[id].(*types.Var); isVar && seen[v] {
						ok = false
					}
				}
			case *ast.SelectorExpr: // a method with a pointer receiver on a local value
				if id, isID := ast.Unparen(y.X).(*ast.Ident); isID {
					if v, isVar := r.info.Uses[id].(*types.Var); isVar && seen[v] {
						if _, isStruct := v.Type().Underlying().(*types.Struct); isStruct {
							ok = false
						}
					}
				}
			}
			return true
		})
	}
	// variables which closures share
	if r.fn != nil {
		count := map[*types.Var]int{}
		shared := map[*types.Var]bool{}
		ast.Inspect(r.fn, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, isID := ast.Unparen(l).(*ast.Ident); isID {
						for _, m := range []types.Object{r.info.Uses[id], r.info.Defs[id]} {
							if v, isVar := m.(*types.Var); isVar {
								count[v]++
							}
						}
					}
				}
			case *ast.ValueSpec:
				for _, id := range y.Names {
					if v, isVar := r.info.Defs[id].(*types.Var); isVar {
						count[v]++
					}
				}
			case *ast.FuncLit:
				ast.Inspect(y.Body, func(z ast.Node) bool {
					if id, isID := z.(*ast.Ident); isID {
						if v, isVar := r.info.Uses[id].(*types.Var); isVar && (v.Pos() < y.Pos() || v.Pos() >= y.End()) {
							shared[v] = true
						}
					}
					return true
				})
			}
			return true
		})
		for _, v := range out {
			if shared[v] && count[v] > 1 {
				ok = false
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out, ok
}

// qual renders types as they are written in the file; ok is false if a package is not imported by it.
func (r *R) typeStr(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		for _, im := range r.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	return s, ok
}

func (r *R) params(vs []*types.Var) (decl, args string, ok bool) {
	var d, a []string
	for _, v := range vs {
		t, ok := r.typeStr(v.Type())
		if !ok {
			return "", "", false
		}
		if _, isTP := v.Type().(*types.TypeParam); isTP {
			return "", "", false
		}
		d = append(d, v.Name()+" "+t)
		a = append(a, v.Name())
	}
	return strings.Join(d, ", "), strings.Join(a, ", "), true
}

func (r *R) generic() bool {
	if r.fn.Type.TypeParams != nil {
		return true
	}
	if r.fn.Recv != nil {
		t := r.fn.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		switch t.(type) {
		case *ast.IndexExpr, *ast.IndexListExpr:
			return true
		}
	}
	return false
}

func (r *R) helper(list []ast.Stmt, results string, ret bool) (string, bool) {
	if r.generic() {
		return "", false
	}
	var nodes []ast.Node
	for _, s := range list {
		nodes = append(nodes, s)
	}
	vs, ok := r.free(list[0].Pos(), list[len(list)-1].End(), nodes...)
	if !ok {
		return "", false
	}
	decl, args, ok := r.params(vs)
	if !ok {
		return "", false
	}
	name := r.fresh(strings.ToLower(r.fn.Name.Name[:1]) + r.fn.Name.Name[1:] + "Part")
	r.extra = append(r.extra, fmt.Sprintf("\nfunc %s(%s) %s {\n%s}\n", name, decl, results, r.stmts(list)))
	call := name + "(" + args + ")"
	if ret {
		call = "return " + call
	}
	return call, true
}

// extractIf: the body of an if becomes a function of its own.
func extractIf(r *R, n ast.Node) (string, bool) {
	x, ok := n.(*ast.IfStmt)
	if !ok || len(x.Body.List) < 2 || hasEscape(x.Body, false) || !r.take() {
		return "", false
	}
	call, ok := r.helper(x.Body.List, "", false)
	if !ok {
		return "", false
	}
	els := ""
	if x.Else != nil {
		els = " else " + r.render2(x.Else)
	}
	return r.raw(x.Pos(), x.Body.Lbrace) + "{\n" + call + "\n}" + els, true
}

// extractLoop: a loop becomes a function of its own.
func extractLoop(r *R, n ast.Node) (string, bool) {
	if body(n) == nil || r.skip[n] || hasEscape(n, false) || !r.take() {
		return "", false
	}
	r.skip[n] = true
	defer delete(r.skip, n)
	return r.helper([]ast.Stmt{n.(ast.Stmt)}, "", false)
}

func condVar(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	hit := false
	var out []string
	for _, s := range l {
		x, ok := s.(*ast.IfStmt)
		if !ok || x.Init != nil || pure(x.Cond) {
			out = append(out, r.stmt(s))
			continue
		}
		hit = true
		els := ""
		if x.Else != nil {
			els = " else " + r.render2(x.Else)
		}
		v := r.fresh("cond")
		out = append(out, v+" := "+r.text(x.Cond)+"\nif "+v+" "+r.render2(x.Body)+els)
	}
	return out, hit
}

func (r *R) results(ret *ast.ReturnStmt) int {
	if len(ret.Results) != 1 {
		return 0
	}
	call, ok := ret.Results[0].(*ast.CallExpr)
	if !ok {
		return 0
	}
	if tv, ok := r.info.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		return 0
	}
	switch t := r.info.TypeOf(call).(type) {
	case *types.Tuple:
		return t.Len()
	default:
		return 1
	}
}

func retVar(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	ret, ok := l[len(l)-1].(*ast.ReturnStmt)
	if !ok {
		return nil, false
	}
	n := r.results(ret)
	if n == 0 {
		return nil, false
	}
	var out, vs []string
	for _, s := range l[:len(l)-1] {
		out = append(out, r.stmt(s))
	}
	for i := 0; i < n; i++ {
		vs = append(vs, fmt.Sprintf("ret%d", i))
	}
	v := strings.Join(vs, ", ")
	return append(out, v+" := "+r.render(ret.Results[0]), "return "+v), true
}

// elseLess: if c { return }; rest => if !c { rest } else { return }
func elseLess(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	if !endsInReturn(l) && !(owner == r.fn.Body && r.fn.Type.Results == nil) {
		return nil, false
	}
	for i := len(l) - 2; i >= 0; i-- {
		x, ok := l[i].(*ast.IfStmt)
		if !ok || x.Else != nil || x.Init != nil || !endsInReturn(x.Body.List) {
			continue
		}
		for _, s := range l[i+1:] {
			if _, ok := s.(*ast.LabeledStmt); ok {
				return nil, false
			}
		}
		var out []string
		for _, s := range l[:i] {
			out = append(out, r.stmt(s))
		}
		return append(out, "if "+r.negate(x.Cond)+" {\n"+r.stmts(l[i+1:])+"} else "+r.render2(x.Body)), true
	}
	return nil, false
}

// elseReturn: if c { ...return } else { B }; => if c { ...return }; B
func elseReturn(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	hit := false
	var out []string
	for i, s := range l {
		x, ok := s.(*ast.IfStmt)
		var e *ast.BlockStmt
		if ok {
			e, _ = x.Else.(*ast.BlockStmt)
		}
		if e == nil || x.Init != nil || !endsInReturn(x.Body.List) || i != len(l)-1 {
			out = append(out, r.stmt(s))
			continue
		}
		hit = true
		out = append(out, "if "+r.render2(x.Cond)+" "+r.render2(x.Body)+"\n"+r.stmts(e.List))
	}
	return out, hit
}

func simpleAssign(s ast.Stmt) *ast.AssignStmt {
	x, ok := s.(*ast.AssignStmt)
	if !ok || len(x.Lhs) != 1 || len(x.Rhs) != 1 || callsAnything(x.Rhs[0]) || !pure(x.Lhs[0]) {
		return nil
	}
	safe := true
	ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.UnaryExpr:
			safe = safe && y.Op != token.ARROW
		case *ast.TypeAssertExpr:
			safe = false
		}
		return true
	})
	if !safe {
		return nil
	}
	return x
}

// reorder swaps adjacent assignments that have nothing to do with each other.
func reorder(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	hit := false
	var out []string
	for i := 0; i < len(l); i++ {
		if i+1 < len(l) {
			a, b := simpleAssign(l[i]), simpleAssign(l[i+1])
			if a != nil && b != nil && r.apart(a, b) {
				out = append(out, r.stmt(b), r.stmt(a))
				i++
				hit = true
				continue
			}
		}
		out = append(out, r.stmt(l[i]))
	}
	return out, hit
}

func (r *R) apart(a, b *ast.AssignStmt) bool {
	la, lb := r.text(a.Lhs[0]), r.text(b.Lhs[0])
	if la == "_" || lb == "_" {
		return false
	}
	last := func(s string) string { return s[strings.LastIndex(s, ".")+1:] }
	mentions := func(e ast.Expr, name string) bool {
		hit := false
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Name == name {
				hit = true
			}
			return true
		})
		return hit
	}
	return last(la) != last(lb) && !mentions(b.Rhs[0], last(la)) && !mentions(a.Rhs[0], last(lb)) && !mentions(b.Lhs[0], last(la)) && !mentions(a.Lhs[0], last(lb))
}

// nameCallback: f(func() {...}) => cb := func() {...}; f(cb)
func nameCallback(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	hit := false
	var out []string
	for _, s := range l {
		var call *ast.CallExpr
		switch x := s.(type) {
		case *ast.ExprStmt:
			call, _ = x.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(x.Rhs) == 1 {
				call, _ = x.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				call, _ = x.Results[0].(*ast.CallExpr)
			}
		}
		if call == nil {
			out = append(out, r.stmt(s))
			continue
		}
		done := false
		for i, a := range call.Args {
			lit, ok := a.(*ast.FuncLit)
			if !ok {
				continue
			}
			// what is evaluated before must not have effects
			clean := !callsAnything(call.Fun)
			for _, b := range call.Args[:i] {
				clean = clean && !callsAnything(b)
			}
			if !clean {
				continue
			}
			v := r.fresh("cb")
			out = append(out, v+" := "+r.render2(lit), r.raw(s.Pos(), lit.Pos())+v+r.raw(lit.End(), s.End()))
			done, hit = true, true
			break
		}
		if !done {
			out = append(out, r.stmt(s))
		}
	}
	return out, hit
}

func nop(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	switch l[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return nil, false
	}
	out := []string{"_ = 0"}
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out, true
}

// varDecl: x := e => var x = e
func varDecl(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	hit := false
	var out []string
	for _, s := range l {
		x, ok := s.(*ast.AssignStmt)
		if !ok || x.Tok != token.DEFINE || len(x.Lhs) != 1 {
			out = append(out, r.stmt(s))
			continue
		}
		t, ok := r.typeStr(r.info.TypeOf(x.Lhs[0]))
		if !ok || strings.Contains(t, "untyped") {
			out = append(out, r.stmt(s))
			continue
		}
		hit = true
		v := r.text(x.Lhs[0])
		if word := regexp.MustCompile(`\b` + v + `\b`); word.MatchString(t) || t == "*handler" || word.MatchString(r.text(x.Rhs[0])) {
			out = append(out, r.stmt(s))
			continue
		}
		out = append(out, "var "+v+" "+t+"\n"+v+" = "+r.render2(x.Rhs[0]))
	}
	return out, hit
}

// unlockDefer: mu.Lock(); ...straight-line...; mu.Unlock(); end => mu.Lock(); defer mu.Unlock(); ...
func unlockDefer(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	if owner != r.fn.Body || len(l) < 2 {
		return nil, false
	}
	first := r.text(l[0])
	if !strings.HasSuffix(first, ".Lock()") {
		return nil, false
	}
	mu := strings.TrimSuffix(first, ".Lock()")
	last := len(l) - 1
	if _, ok := l[last].(*ast.ReturnStmt); ok && last > 1 && !callsAnything(l[last]) {
		last--
	}
	if r.text(l[last]) != mu+".Unlock()" {
		return nil, false
	}
	for i, s := range l {
		if i != 0 && i != last && strings.Contains(r.text(s), mu+".") {
			return nil, false
		}
	}
	out := []string{first, "defer " + mu + ".Unlock()"}
	for i, s := range l {
		if i != 0 && i != last {
			out = append(out, r.stmt(s))
		}
	}
	return out, true
}

// extractTail: the second half of a function becomes a function of its own.
func extractTail(r *R, owner ast.Node, l []ast.Stmt) ([]string, bool) {
	if owner != r.fn.Body || len(l) < 4 {
		return nil, false
	}
	results := ""
	if res := r.fn.Type.Results; res != nil {
		var ts []string
		for _, f := range res.List {
			if len(f.Names) != 0 {
				return nil, false
			}
			ts = append(ts, r.text(f.Type))
		}
		results = "(" + strings.Join(ts, ", ") + ")"
		if !endsInReturn(l) {
			return nil, false
		}
	}
	for cut := len(l) / 2; cut < len(l)-1; cut++ {
		bad := false
		for _, s := range l[cut:] {
			switch s.(type) {
			case *ast.LabeledStmt:
				bad = true
			}
		}
		if bad || strings.Contains(r.raw(l[cut].Pos(), l[len(l)-1].End()), "defer ") {
			continue
		}
		if strings.Contains(r.raw(l[0].Pos(), l[cut].Pos()), "goto ") {
			return nil, false
		}
		if call, ok := r.helper(l[cut:], results, results != ""); ok {
			var out []string
			for _, s := range l[:cut] {
				out = append(out, r.stmt(s))
			}
			return append(out, call), true
		}
	}
	return nil, false
}

// delegate: the function only calls another one with its body.
func delegate(r *R, f *ast.FuncDecl) (string, bool) {
	if f.Name.Name == "init" || f.Name.Name == "main" || len(f.Body.List) < 3 || f.Type.TypeParams != nil {
		return "", false
	}
	name := strings.ToLower(f.Name.Name[:1]) + f.Name.Name[1:] + "Impl"
	var args []string
	for _, p := range f.Type.Params.List {
		if len(p.Names) == 0 {
			return "", false
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				return "", false
			}
			a := n.Name
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
		}
	}
	recv, pre := "", ""
	if f.Recv != nil {
		if len(f.Recv.List[0].Names) == 0 || f.Recv.List[0].Names[0].Name == "_" {
			return "", false
		}
		recv = r.text(f.Recv) + " "
		pre = f.Recv.List[0].Names[0].Name + "."
		name = r.fresh(name)
	} else if r.pkg.Scope().Lookup(name) != nil {
		return "", false
	}
	sig := r.raw(f.Type.Params.Pos(), f.Type.End())
	call := pre + name + "(" + strings.Join(args, ", ") + ")"
	if f.Type.Results != nil {
		call = "return " + call
	}
	r.extra = append(r.extra, "\nfunc "+recv+name+sig+" "+r.text(f.Body)+"\n")
	return r.raw(f.Pos(), f.Body.Pos()) + "{\n" + call + "\n}", true
}

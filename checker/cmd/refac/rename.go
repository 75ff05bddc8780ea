package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// renames decides which objects a renaming changes.
var renames = map[string]func(p *types.Package, o types.Object) bool{
	"renamelocal": func(p *types.Package, o types.Object) bool {
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && v.Parent() != nil && v.Parent() != p.Scope()
	},
	"renamefn": func(p *types.Package, o types.Object) bool {
		f, ok := o.(*types.Func)
		return ok && !f.Exported() && f.Name() != "init" && f.Name() != "main" && f.Name() != "isNil"
	},
	"renamefield": func(p *types.Package, o types.Object) bool {
		v, ok := o.(*types.Var)
		return ok && v.IsField() && !v.Exported() && !v.Embedded()
	},
	"renametype": func(p *types.Package, o types.Object) bool {
		t, ok := o.(*types.TypeName)
		if !ok || t.Exported() || t.Parent() != p.Scope() {
			return false
		}
		return true
	},
	"renamevar": func(p *types.Package, o types.Object) bool {
		switch o.(type) {
		case *types.Var, *types.Const:
			return !o.Exported() && o.Parent() == p.Scope()
		}
		return false
	},
}

// renameFile gives the edits of one file: offset => length and new text.
func (r *R) renameFile(pred func(p *types.Package, o types.Object) bool) string {
	type edit struct {
		a, b int
		s    string
	}
	var edits []edit
	implicit := map[types.Object]bool{}
	for n, o := range r.info.Implicits {
		if _, ok := n.(*ast.CaseClause); ok {
			implicit[o] = true
		}
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" {
			return true
		}
		o := r.info.Defs[id]
		if o == nil {
			o = r.info.Uses[id]
		}
		hit := false
		if o == nil {
			// the variable of a type switch
			hit = *tname == "renamelocal" && r.switchVar(id)
		} else if o.Pkg() == r.pkg {
			if v, ok := o.(*types.Var); ok {
				o = v.Origin()
			} else if f, ok := o.(*types.Func); ok {
				o = f.Origin()
			}
			hit = pred(r.pkg, o) && (*tname == "renamelocal" || !strings.HasSuffix(r.fset.Position(o.Pos()).Filename, ".pb.go")) || implicit[o] && *tname == "renamelocal"
		}
		if v, ok := o.(*types.Var); ok && v.Embedded() && *tname == "renametype" {
			if t, ok := ptrTo(v.Type()).(*types.Named); ok && t.Obj().Pkg() == r.pkg && pred(r.pkg, t.Obj()) {
				hit = true
			}
		}
		if hit {
			edits = append(edits, edit{r.off(id.Pos()), r.off(id.End()), id.Name + "Z"})
			r.n++
		}
		return true
	})
	text := string(r.src)
	for i := len(edits) - 1; i >= 0; i-- {
		text = text[:edits[i].a] + edits[i].s + text[edits[i].b:]
	}
	return text
}

func ptrTo(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (r *R) switchVar(id *ast.Ident) bool {
	hit := false
	ast.Inspect(r.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.TypeSwitchStmt); ok {
			if a, ok := s.Assign.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && a.Lhs[0] == id {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

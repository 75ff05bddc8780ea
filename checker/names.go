package main

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules name unexported types, fields and functions of the analysed tree. Renaming one of them changes no
// behaviour: when a name of the pinned tree is gone and a declaration with the same type took its place, the
// analysed source is given the old name again.

//go:embed names.json
var pinnedNames []byte

type declNames struct {
	Name, Type string
}

type typeNames struct {
	Type    string `json:",omitempty"` // of a type that is not a struct
	Fields  []declNames
	Methods []declNames
}

type pkgNames struct {
	Types map[string]typeNames
	Decls []declNames // functions, variables and constants
}

// earlier orders positions by file and offset: the files are parsed in any order.
func earlier(fset *token.FileSet, a, b token.Pos) bool {
	x, y := fset.Position(a), fset.Position(b)
	if x.Filename != y.Filename {
		return x.Filename < y.Filename
	}
	return x.Offset < y.Offset
}

func namesOf(fset *token.FileSet, p *types.Package) pkgNames {
	str := func(t types.Type) string {
		return types.TypeString(noNames(t), func(q *types.Package) string {
			if q == p {
				return ""
			}
			return q.Name()
		})
	}
	out := pkgNames{Types: map[string]typeNames{}}
	names := p.Scope().Names()
	sort.Slice(names, func(i, j int) bool {
		return earlier(fset, p.Scope().Lookup(names[i]).Pos(), p.Scope().Lookup(names[j]).Pos())
	})
	for _, n := range names {
		switch o := p.Scope().Lookup(n).(type) {
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || o.IsAlias() {
				continue
			}
			var tn typeNames
			if st, ok := nt.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					tn.Fields = append(tn.Fields, declNames{st.Field(i).Name(), str(st.Field(i).Type())})
				}
			} else {
				tn.Type = str(nt.Underlying())
			}
			var ms []*types.Func
			for i := 0; i < nt.NumMethods(); i++ {
				ms = append(ms, nt.Method(i))
			}
			sort.Slice(ms, func(i, j int) bool { return earlier(fset, ms[i].Pos(), ms[j].Pos()) })
			for _, m := range ms {
				tn.Methods = append(tn.Methods, declNames{m.Name(), str(m.Type())})
			}
			out.Types[n] = tn
		case *types.Func:
			out.Decls = append(out.Decls, declNames{n, str(o.Type())})
		case *types.Var:
			out.Decls = append(out.Decls, declNames{n, "var " + str(o.Type())})
		case *types.Const:
			out.Decls = append(out.Decls, declNames{n, "const " + str(o.Type())})
		}
	}
	return out
}

// renamedDecls pairs the unexported names that are gone with the new ones of the same type.
func renamedDecls(old, cur []declNames, norm func(string) string) map[string]string {
	has := func(l []declNames, n string) bool {
		for _, d := range l {
			if d.Name == n {
				return true
			}
		}
		return false
	}
	gone, new := map[string][]string{}, map[string][]string{}
	for _, d := range old {
		if !has(cur, d.Name) && !token.IsExported(d.Name) {
			gone[d.Type] = append(gone[d.Type], d.Name)
		}
	}
	for _, d := range cur {
		if t := norm(d.Type); !has(old, d.Name) && !token.IsExported(d.Name) {
			new[t] = append(new[t], d.Name)
		}
	}
	out := map[string]string{} // new name => old name
	for t, g := range gone {
		n := new[t]
		if len(n) == len(g) {
			for i := range g {
				out[n[i]] = g[i]
			}
		}
	}
	return out
}

// renamedTypes pairs the unexported types that are gone with the new ones that look most like them.
func renamedTypes(old, cur pkgNames) map[string]string {
	out := map[string]string{}
	for n, t := range old.Types {
		if _, ok := cur.Types[n]; ok || token.IsExported(n) {
			continue
		}
		best, bestScore, tie := "", 0, false
		for m, u := range cur.Types {
			if _, ok := old.Types[m]; ok || token.IsExported(m) || out[m] != "" {
				continue
			}
			score := 0
			self := regexp.MustCompile(`\b` + m + `\b`)
			count := func(a, b []declNames, byType bool) {
				left := map[string]int{}
				for _, d := range a {
					left[d.Name]++
					if byType {
						left[d.Type]++
					}
				}
				for _, d := range b {
					keys := []string{d.Name}
					if byType {
						keys = append(keys, self.ReplaceAllString(d.Type, n))
					}
					for _, k := range keys {
						if left[k] > 0 {
							left[k]--
							score++
						}
					}
				}
			}
			count(t.Fields, u.Fields, true)
			count(t.Methods, u.Methods, false)
			if t.Type != "" && t.Type == self.ReplaceAllString(u.Type, n) {
				score += 2
			}
			size := max(2*len(t.Fields)+len(t.Methods), 2*len(u.Fields)+len(u.Methods), 1)
			if 2*score < size {
				continue
			}
			switch {
			case score > bestScore:
				best, bestScore, tie = m, score, false
			case score == bestScore:
				tie = true
			}
		}
		if best != "" && !tie {
			out[best] = n
		}
	}
	return out
}

// oldNames gives every renamed object its old name.
func oldNames(p *packages.Package, old pkgNames) map[types.Object]string {
	cur := namesOf(p.Fset, p.Types)
	out := map[types.Object]string{}
	scope := p.Types.Scope()
	ts := renamedTypes(old, cur)
	for n, o := range ts {
		out[scope.Lookup(n)] = o
	}
	norm := func(t string) string {
		for n, o := range ts {
			t = regexp.MustCompile(`\b`+n+`\b`).ReplaceAllString(t, o)
		}
		return t
	}
	for n, o := range renamedDecls(old.Decls, cur.Decls, norm) {
		out[scope.Lookup(n)] = o
	}
	for n, t := range cur.Types {
		on := n
		if o := ts[n]; o != "" {
			on = o
		}
		ot, ok := old.Types[on]
		if !ok {
			continue
		}
		nt := scope.Lookup(n).Type().(*types.Named)
		fields := renamedDecls(ot.Fields, t.Fields, norm)
		if st, ok := nt.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if o := fields[st.Field(i).Name()]; o != "" && !st.Field(i).Embedded() {
					out[st.Field(i)] = o
				}
			}
		}
		methods := renamedDecls(ot.Methods, t.Methods, norm)
		for i := 0; i < nt.NumMethods(); i++ {
			if o := methods[nt.Method(i).Name()]; o != "" {
				out[nt.Method(i)] = o
			}
		}
	}
	return out
}

// renamedBack is the source of the files in which something was renamed, with the old names.
func renamedBack(root string, pkgs []*packages.Package) map[string][]byte {
	var pinned map[string]pkgNames
	if json.Unmarshal(pinnedNames, &pinned) != nil {
		return nil
	}
	overlay := map[string][]byte{}
	for _, p := range pkgs {
		old, ok := pinned[p.PkgPath]
		if !ok {
			continue
		}
		names := oldNames(p, old)
		if len(names) == 0 {
			continue
		}
		for i, f := range p.Syntax {
			file := p.CompiledGoFiles[i]
			if !strings.HasPrefix(file, root+string(filepath.Separator)) {
				continue
			}
			src, err := os.ReadFile(file)
			if err != nil {
				return nil
			}
			type edit struct {
				a, b int
				s    string
			}
			var edits []edit
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Defs[id]
				if v, isVar := o.(*types.Var); o == nil || isVar && v.Embedded() {
					if u := p.TypesInfo.Uses[id]; u != nil {
						o = u
					}
				}
				switch x := o.(type) {
				case *types.Var:
					o = x.Origin()
					if x.Embedded() {
						t := types.Unalias(x.Type())
						if pt, ok := t.(*types.Pointer); ok {
							t = types.Unalias(pt.Elem())
						}
						if nt, ok := t.(*types.Named); ok {
							o = nt.Obj()
						}
					}
				case *types.Func:
					o = x.Origin()
				}
				if s := names[o]; o != nil && s != "" {
					edits = append(edits, edit{p.Fset.Position(id.Pos()).Offset, p.Fset.Position(id.End()).Offset, s})
				}
				return true
			})
			sort.Slice(edits, func(i, j int) bool { return edits[i].a > edits[j].a })
			text := string(src)
			for _, e := range edits {
				text = text[:e.a] + e.s + text[e.b:]
			}
			if len(edits) > 0 {
				overlay[file] = []byte(text)
			}
		}
	}
	return overlay
}

// writeNames writes the names of the analysed tree.
func writeNames(pkgs []*packages.Package, file string) error {
	out := map[string]pkgNames{}
	for _, p := range pkgs {
		if !strings.Contains(p.PkgPath, "/example") {
			out[p.PkgPath] = namesOf(p.Fset, p.Types)
		}
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

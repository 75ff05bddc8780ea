package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rendering of values in a form that does not depend on variable names or on how code is split into
// functions: fields are named by type and field, calls by callee, parameters by type.

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	s := types.TypeString(noNames(t), func(p *types.Package) string { return "" })
	return strings.TrimLeft(s, "*")
}

// noNames leaves out the names of the parameters of function types.
func noNames(t types.Type) types.Type {
	switch x := t.(type) {
	case *types.Pointer:
		if e := noNames(x.Elem()); e != x.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := noNames(x.Elem()); e != x.Elem() {
			return types.NewSlice(e)
		}
	case *types.Map:
		if e := noNames(x.Elem()); e != x.Elem() {
			return types.NewMap(x.Key(), e)
		}
	case *types.Chan:
		if e := noNames(x.Elem()); e != x.Elem() {
			return types.NewChan(x.Dir(), e)
		}
	case *types.Signature:
		tuple := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewVar(token.NoPos, nil, "", noNames(t.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tuple(x.Params()), tuple(x.Results()), x.Variadic())
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = types.Unalias(p.Elem())
		}
	}
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	if n != nil {
		return n.Origin()
	}
	return nil
}

func baseTypeName(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return typeName(t)
}

// fieldOf: field name with its struct type for a FieldAddr/Field.
func fieldOf(v ssa.Value) (typ, field string, base ssa.Value, ok bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		pt := types.Unalias(x.X.Type()).Underlying().(*types.Pointer).Elem()
		st := structOf(pt)
		if st == nil {
			return "", "", nil, false
		}
		return baseTypeName(pt), st.Field(x.Field).Name(), x.X, true
	case *ssa.Field:
		st := structOf(x.X.Type())
		if st == nil {
			return "", "", nil, false
		}
		return baseTypeName(x.X.Type()), st.Field(x.Field).Name(), x.X, true
	}
	return "", "", nil, false
}

func structOf(t types.Type) *types.Struct {
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if st, ok := tp.Underlying().(*types.Struct); ok {
			return st
		}
	}
	return nil
}

// CallName names the callee of a call: "pkg.Func", "Type.Method" (static), "Iface.Method" (invoke), "" (dynamic).
func (w *Walker) CallName(e *envT, f *Frame, c *ssa.CallCommon) string { return w.P.callName(c) }

func (p *Prog) callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return baseTypeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	fn := p.unwrap(c.StaticCallee())
	if fn == nil {
		return ""
	}
	return p.funcShort(fn)
}

func (p *Prog) funcShort(fn *ssa.Function) string {
	if obj, ok := fn.Object().(*types.Func); ok && obj != nil {
		sig := obj.Type().(*types.Signature)
		if r := sig.Recv(); r != nil {
			return baseTypeName(r.Type()) + "." + obj.Name()
		}
		if obj.Pkg() != nil {
			return obj.Pkg().Name() + "." + obj.Name()
		}
		return obj.Name()
	}
	return fn.Name()
}

// methodName is the bare name of the callee.
func (p *Prog) methodName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	fn := p.unwrap(c.StaticCallee())
	if fn == nil {
		return ""
	}
	if obj, ok := fn.Object().(*types.Func); ok && obj != nil {
		return obj.Name()
	}
	return fn.Name()
}

// Str renders a value.
func (w *Walker) Str(e *envT, v Val) string {
	w.strStack = w.strStack[:0]
	return w.str(e, v, 0, false)
}

// StrID renders a value keeping the identity of bases (for comparing two values).
func (w *Walker) StrID(e *envT, v Val) string {
	w.strStack = w.strStack[:0]
	return w.str(e, v, 0, true)
}

func (w *Walker) str(e *envT, v Val, d int, id bool) string {
	if d > 8 {
		return "..."
	}
	v = w.Resolve(e, v)
	for _, o := range w.strStack {
		if o == v {
			return "~" // a value built up in a loop
		}
	}
	w.strStack = append(w.strStack, v)
	defer func(n int) { w.strStack = w.strStack[:n] }(len(w.strStack) - 1)
	rec := func(x ssa.Value) string { return w.str(e, Val{v.F, x}, d+1, id) }
	leaf := func(s string) string {
		if id {
			fid := int32(0)
			if v.F != nil {
				fid = v.F.id
			}
			return fmt.Sprintf("%s#%d.%s", s, fid, v.V.Name())
		}
		return s
	}
	switch x := v.V.(type) {
	case nil:
		return "?"
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
		if x.Value == nil {
			return "zero"
		}
		return x.Value.String()
	case *ssa.Parameter:
		if n := broadcastParam(x); n != "" {
			return leaf(n)
		}
		// the second and later parameters of the same type are numbered
		s, n := baseTypeName(x.Type()), 1
		for _, q := range x.Parent().Params {
			if q == x {
				break
			}
			if baseTypeName(q.Type()) == s {
				n++
			}
		}
		if n > 1 {
			s = fmt.Sprintf("%s#%d", s, n)
		}
		return leaf("<" + s + ">")
	case *ssa.FreeVar:
		return leaf("<" + baseTypeName(x.Type()) + ">")
	case *ssa.Global:
		if x == nonNilV {
			return "nonnil"
		}
		return x.Name()
	case *elemVal:
		if x.key {
			return leaf("key(" + w.str(e, x.coll, d+1, id) + ")")
		}
		return w.str(e, x.coll, d+1, id) + "[]"
	case *ssa.Function:
		return "func:" + w.P.funcShort(x)
	case *ssa.FieldAddr, *ssa.Field:
		t, f, base, ok := fieldOf(x)
		if !ok {
			return leaf("field")
		}
		if id {
			return rec(base) + "." + f
		}
		return t + "." + f
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := w.Resolve(e, Val{v.F, x.X})
			switch ax := a.V.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return w.str(e, a, d+1, id)
			case *ssa.Global:
				return ax.Name()
			case *ssa.Alloc:
				return leaf(w.P.cellName(ax))
			}
			return "*" + w.str(e, a, d+1, id)
		case token.ARROW:
			return "<-" + rec(x.X)
		case token.NOT:
			return "!" + rec(x.X)
		case token.SUB:
			return "-" + rec(x.X)
		}
		return x.Op.String() + rec(x.X)
	case *ssa.IndexAddr:
		return rec(x.X) + w.indexStr(e, v.F, x.Index)
	case *ssa.Index:
		return rec(x.X) + w.indexStr(e, v.F, x.Index)
	case *ssa.Lookup:
		return rec(x.X) + "[" + rec(x.Index) + "]"
	case *ssa.Slice:
		return rec(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			rg, _ := t.Iter.(*ssa.Range)
			s := "range"
			if rg != nil {
				s = rec(rg.X)
			}
			switch x.Index {
			case 0:
				return "more(" + s + ")"
			case 1:
				return "key(" + s + ")"
			}
			return s + "[]"
		case *ssa.TypeAssert:
			if x.Index == 1 {
				return "is(" + rec(t.X) + "," + typeName(t.AssertedType) + ")"
			}
			return rec(t.X) + ".(" + typeName(t.AssertedType) + ")"
		case *ssa.Lookup:
			if x.Index == 1 {
				return "has(" + rec(t.X) + "," + rec(t.Index) + ")"
			}
			return rec(t.X) + "[" + rec(t.Index) + "]"
		case *ssa.Select:
			if x.Index == 0 {
				return leaf("select")
			}
			if x.Index == 1 {
				return leaf("recvok")
			}
			// received value of the k-th receive state
			k := x.Index - 2
			for _, st := range t.States {
				if st.Dir == types.RecvOnly {
					if k == 0 {
						return "<-" + rec(st.Chan)
					}
					k--
				}
			}
			return "select-recv"
		case *ssa.UnOp:
			if x.Index == 1 {
				return "recvok(" + rec(t.X) + ")"
			}
			return "<-" + rec(t.X)
		}
		return rec(x.Tuple) + fmt.Sprintf("#%d", x.Index)
	case *ssa.TypeAssert:
		return rec(x.X) + ".(" + typeName(x.AssertedType) + ")"
	case *ssa.Call:
		return w.callStr(e, v, x, d, id)
	case *ssa.BinOp:
		if cx, ok := w.Resolve(e, Val{v.F, x.X}).V.(*ssa.Const); ok && cx.Value != nil {
			if cy, ok := w.Resolve(e, Val{v.F, x.Y}).V.(*ssa.Const); ok && cy.Value != nil {
				switch x.Op {
				case token.ADD, token.SUB, token.MUL:
					return constant.BinaryOp(cx.Value, x.Op, cy.Value).String()
				}
			}
		}
		a, b := x.X, x.Y
		if _, isC := a.(*ssa.Const); isC && (x.Op == token.EQL || x.Op == token.NEQ) {
			a, b = b, a
		}
		return "(" + rec(a) + x.Op.String() + rec(b) + ")"
	case *ssa.MakeClosure:
		fn := w.P.unwrap(x.Fn.(*ssa.Function))
		if fn != origin(x.Fn.(*ssa.Function)) {
			return "func:" + w.P.funcShort(fn)
		}
		return leaf("closure")
	case *ssa.Alloc:
		return leaf("new " + baseTypeName(x.Type()))
	case *ssa.MakeMap:
		return leaf(w.P.makeMapName(x))
	case *ssa.MakeChan:
		return leaf("makechan")
	case *ssa.MakeSlice:
		if src, ok := w.copySource(v); ok {
			return w.str(e, src, d+1, id)
		}
		return leaf("makeslice")
	case *ssa.Phi:
		return leaf("phi:" + baseTypeName(x.Type()))
	case *ssa.Convert:
		if lossy(x) {
			return x.Type().Underlying().String() + "(" + rec(x.X) + ")"
		}
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	}
	return leaf(fmt.Sprintf("%T", v.V))
}

// indexStr renders an index: a constant, the last element, another position computed from the length, or
// any position.
func (w *Walker) indexStr(e *envT, f *Frame, x ssa.Value) string {
	for i := 0; i < 20; i++ {
		v := Val{f, x}
		if _, isPhi := x.(*ssa.Phi); isPhi {
			break
		}
		n, ok := w.step1(nil, v, true)
		if !ok {
			break
		}
		f, x = n.F, n.V
	}
	switch x := x.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return "[" + x.Value.String() + "]"
		}
	case *ssa.BinOp:
		if x.Op == token.SUB {
			isLen := func(v ssa.Value) bool {
				c, ok := v.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := c.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "len"
			}
			if isLen(x.X) {
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "1" {
					return "[last]"
				}
				return "[rev]"
			}
			if y, ok := x.X.(*ssa.BinOp); ok && y.Op == token.SUB && isLen(y.X) {
				if _, isC := x.Y.(*ssa.Const); !isC {
					return "[rev]"
				}
			}
		}
	}
	return "[]"
}

func (w *Walker) callStr(e *envT, v Val, x *ssa.Call, d int, id bool) string {
	c := &x.Call
	name := w.P.callName(c)
	var args []string
	if c.IsInvoke() {
		args = append(args, w.str(e, Val{v.F, c.Value}, d+1, id))
	}
	for _, a := range c.Args {
		args = append(args, w.str(e, Val{v.F, a}, d+1, id))
	}
	switch name {
	case "append":
		// append([]T(nil), s...) is a copy of s
		if len(args) == 2 && (args[0] == "nil" || args[0] == "new [0]"+strings.TrimPrefix(typeName(x.Type()), "[]")) {
			return args[1]
		}
	case "Bool.Load":
		return "load(" + args[0] + ")"
	case "Bool.Swap":
		return "swap(" + args[0] + "," + args[1] + ")"
	case "Bool.CompareAndSwap":
		return "cas(" + strings.Join(args, ",") + ")"
	case "slices.Clone", "slices.Grow", "slices.Clip":
		return args[0]
	case "slices.Contains":
		return "contains(" + strings.Join(args, ",") + ")"
	case "slices.Index":
		return "index(" + strings.Join(args, ",") + ")"
	case "slices.IndexFunc", "slices.ContainsFunc":
		if len(args) == 2 {
			if t, ok := w.targetVal(e, Val{v.F, c.Args[1]}, make([]Val, 1)); ok {
				if fld, other, ok := equalsParam(t.fn); ok {
					f := &Frame{fn: t.fn, binds: t.binds, args: t.args, up: v.F}
					o := fld + w.str(e, Val{f, other}, d+1, id)
					return map[string]string{"slices.IndexFunc": "index", "slices.ContainsFunc": "contains"}[name] + "(" + args[0] + "," + o + ")"
				}
			}
		}
	}
	if name == "" {
		return "dyn:" + w.str(e, Val{v.F, c.Value}, d+1, id) + "(" + strings.Join(args, ",") + ")"
	}
	s := name + "(" + strings.Join(args, ",") + ")"
	if id {
		s += "#" + v.V.Name()
		if v.F != nil {
			s += fmt.Sprint(".", v.F.id)
		}
	}
	return s
}

// LitStr renders a branch literal in normal form, e.g. "dirRef.h==nil=false".
func (w *Walker) LitStr(e *envT, l *Lit) string {
	atom, truth := w.normLit(e, l)
	if truth {
		return atom
	}
	return "!" + atom
}

func (w *Walker) normLit(e *envT, l *Lit) (string, bool) {
	x := w.Str(e, l.X)
	var y string
	if l.Op != "true" && l.Op != "iter" && l.Op != "pick" {
		y = w.Str(e, l.Y)
	}
	truth := l.Truth
	isLen := func(s string) bool { return strings.HasPrefix(s, "len(") }
	switch l.Op {
	case "true":
		if strings.HasPrefix(x, "cas(") && strings.HasSuffix(x, ",false,true)") {
			return "swap(" + strings.TrimSuffix(strings.TrimPrefix(x, "cas("), ",false,true)") + ",true)", !truth
		}
		return x, truth
	case "iter":
		return "more(" + x + ")", truth
	case "pick":
		return "pick(" + x + ")", truth
	case "eq":
		if strings.HasPrefix(x, "index(") && y == "-1" {
			return "contains" + strings.TrimPrefix(x, "index"), !truth
		}
		if isLen(y) && !isLen(x) {
			x, y = y, x
		}
		if y != "nil" && x > y && !isLen(x) && y != "0" {
			x, y = y, x
		}
		if x == "nil" || x == "0" {
			x, y = y, x
		}
		return x + "==" + y, truth
	case "lt":
		// len(x) < 1, 0 < len(x)
		if isLen(x) && y == "1" {
			return x + "==0", truth
		}
		if x == "0" && isLen(y) {
			return y + "==0", !truth
		}
		if strings.HasPrefix(x, "index(") && y == "0" {
			return "contains" + strings.TrimPrefix(x, "index"), !truth
		}
		if x == "-1" && strings.HasPrefix(y, "index(") {
			return "contains" + strings.TrimPrefix(y, "index"), truth
		}
		return x + "<" + y, truth
	}
	return "?", truth
}

// copySource: the slice a freshly made slice is filled from with copy(), also by a function that it is given to.
func (w *Walker) copySource(v Val) (Val, bool) {
	var visit func(v Val, depth int) (Val, bool)
	visit = func(v Val, depth int) (Val, bool) {
		if v.V.Referrers() == nil || depth > 3 {
			return Val{}, false
		}
		for _, r := range *v.V.Referrers() {
			c, ok := r.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" && c.Call.Args[0] == v.V {
					return Val{v.F, c.Call.Args[1]}, true
				}
				continue
			}
			f := w.P.unwrap(c.Call.StaticCallee())
			if f == nil || w.P.onlyCall(f) != c {
				continue
			}
			for i, a := range c.Call.Args {
				if a == v.V && i < len(f.Params) {
					if src, ok := visit(Val{w.rootFrame(f), f.Params[i]}, depth+1); ok {
						return src, true
					}
				}
			}
		}
		return Val{}, false
	}
	return visit(v, 0)
}

// elemVal stands for an element (or key) of a collection visited by a library function.
type elemVal struct {
	ssa.Value
	coll Val
	key  bool
	n    int
}

func (x *elemVal) Name() string                  { return fmt.Sprint("elem", x.n) }
func (x *elemVal) Type() types.Type              { return x.Value.Type() }
func (x *elemVal) Referrers() *[]ssa.Instruction { return nil }

type elemKey struct {
	site ssa.Instruction
	i    int
}

func (w *Walker) elem(coll Val, site ssa.Instruction, i int, key bool, param ssa.Value) ssa.Value {
	k := elemKey{site, i}
	if x := w.elems[k]; x != nil && x.coll == coll {
		return x
	}
	x := &elemVal{Value: param, coll: coll, key: key, n: len(w.elems)}
	if w.elems == nil {
		w.elems = map[elemKey]*elemVal{}
	}
	w.elems[k] = x
	return x
}

// iterated: the collection whose elements a library call passes to the closure. all: the closure is
// run for every element.
func (w *Walker) iterated(s *State, x *ssa.Call, clo Val) (coll Val, isIter, all bool) {
	name := w.P.callName(&x.Call)
	if strings.HasPrefix(name, "slices.") && len(x.Call.Args) == 2 {
		return w.Resolve(s.env, Val{s.F, x.Call.Args[0]}), false, name == "slices.DeleteFunc"
	}
	if name != "" && name != "slices.All" && !strings.Contains(w.P.unwrap(clo.V.(*ssa.MakeClosure).Fn.(*ssa.Function)).Synthetic, "range-over-func") {
		return Val{}, false, false
	}
	it := w.Resolve(s.env, Val{s.F, x.Call.Value})
	if ic, ok := it.V.(*ssa.Call); ok && len(ic.Call.Args) == 1 {
		switch w.P.callName(&ic.Call) {
		case "slices.All", "slices.Values", "slices.Backward", "maps.All", "maps.Keys", "maps.Values":
			return w.Resolve(s.env, Val{it.F, ic.Call.Args[0]}), true, true
		}
	}
	return Val{}, true, false
}

// equalsParam: fn is func(x) bool { return x == other } or { return x.field == other }.
func equalsParam(fn *ssa.Function) (string, ssa.Value, bool) {
	if len(fn.Blocks) != 1 || len(fn.Params) != 1 {
		return "", nil, false
	}
	ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return "", nil, false
	}
	b, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || b.Op != token.EQL {
		return "", nil, false
	}
	of := func(v ssa.Value) (string, bool) {
		if v == fn.Params[0] {
			return "", true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if t, f, base, ok := fieldOf(u.X); ok && base == fn.Params[0] {
				return t + "." + f + "=", true
			}
		}
		return "", false
	}
	if s, ok := of(b.X); ok {
		return s, b.Y, true
	}
	if s, ok := of(b.Y); ok {
		return s, b.X, true
	}
	return "", nil, false
}

// broadcastParam: the parameters of the function passed to Broadcast.HoldLock.
func broadcastParam(x *ssa.Parameter) string {
	ps := x.Parent().Signature.Params()
	if ps.Len() != 2 || x.Parent().Signature.Recv() != nil || typeName(ps.At(0).Type()) != "func()" || typeName(ps.At(1).Type()) != "func() <-chan struct{}" {
		return ""
	}
	if x == x.Parent().Params[0] {
		return "broadcast"
	}
	return "getWaitCh"
}

// cellName names a local variable that several functions or several stores share: var:TYPE, var:TYPE#2, ...
// Those that functions literals share are counted first.
func (p *Prog) cellName(a *ssa.Alloc) string {
	s := "var:" + baseTypeName(a.Type())
	for f := a.Parent().Parent(); f != nil; f = f.Parent() {
		s = "local" + s // of a nested function
	}
	n := 0
	for _, captured := range []bool{true, false} {
		for _, b := range a.Parent().Blocks {
			for _, in := range b.Instrs {
				q, ok := in.(*ssa.Alloc)
				if !ok || baseTypeName(q.Type()) != baseTypeName(a.Type()) || isCaptured(q) != captured || q != a && p.singleStore(q) != nil {
					continue
				}
				if n++; q == a {
					if n > 1 {
						s = fmt.Sprintf("%s#%d", s, n)
					}
					return s
				}
			}
		}
	}
	return s
}

func isCaptured(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

// makeMapName: makemap, with the type of the elements when the function makes several maps.
func (p *Prog) makeMapName(x *ssa.MakeMap) string {
	f := x.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.MakeMap); ok {
					n++
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	if visit(f); n > 1 {
		return "makemap:" + baseTypeName(x.Type().Underlying().(*types.Map).Elem())
	}
	return "makemap"
}

// lossy: a conversion between integer types that may change the value (len, cap and constants excepted).
func lossy(x *ssa.Convert) bool {
	from, ok1 := x.X.Type().Underlying().(*types.Basic)
	to, ok2 := x.Type().Underlying().(*types.Basic)
	if !ok1 || !ok2 || from.Info()&types.IsInteger == 0 || to.Info()&types.IsInteger == 0 {
		return false
	}
	if c, ok := x.X.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return false
		}
	}
	sz := types.SizesFor("gc", "amd64")
	fs, ts := sz.Sizeof(from), sz.Sizeof(to)
	fu, tu := from.Info()&types.IsUnsigned != 0, to.Info()&types.IsUnsigned != 0
	switch {
	case ts < fs:
		return true
	case ts == fs:
		return fu != tu
	}
	return !fu && tu
}

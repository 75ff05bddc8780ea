package main

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an SSA value in one inlined activation of a function.
type Val struct {
	F *Frame
	V ssa.Value
}

// Frame is one inlined activation.
type Frame struct {
	id    int32
	fn    *ssa.Function
	up    *Frame
	site  ssa.Instruction // *ssa.Call or *ssa.Defer in up; nil for a root
	ret   point           // where the caller resumes
	args  []Val
	binds []Val
	depth int
	kind  frameKind
	coll  Val // the collection whose elements the closure decides to delete
}

type frameKind uint8

const (
	fkCall frameKind = iota
	fkDefer
	fkSyncOnce // closure run exactly once by an external callee
	fkSyncMany // closure run any number of times by an external callee
)

type point struct {
	F   *Frame
	B   *ssa.BasicBlock
	I   int
	D   int
	Unw bool
}

type envKey struct {
	F    *Frame
	V    any // ssa.Value, *ssa.Defer or factKey
	Idx  int
	kind uint8 // 0 value, 1 cell, 2 defer executed, 3 fact, 4 field of a fresh object (Idx -1: it is fresh), 5 value loaded from one
}

type factKey struct {
	op   string
	x, y Val
}

type kv struct{ k, v int32 }

type envT struct {
	id int32
	es []kv
}

type stateKey struct {
	f, b, i, d int32
	flags      uint8
	env        int32
	mon        any
}

// State is one abstract state of the exploration: a program point, the path facts kept, the monitor state.
type State struct {
	point
	panicking bool
	env       *envT
	mon       any
	parent    *trace
}

type trace struct {
	up   *trace
	pos  token.Pos
	what string
}

// EvKind distinguishes monitor events.
type EvKind int

const (
	KInstr     EvKind = iota // an instruction is about to execute (a call: before it is entered)
	KEdge                    // a conditional branch was taken; Lit says what held
	KEnter                   // entered an inlined callee
	KLeave                   // left an inlined callee
	KExit                    // the root returns
	KPanicExit               // the root ends panicking
)

// Event is what a monitor sees.
type Event struct {
	Kind    EvKind
	Instr   ssa.Instruction
	Running bool // for a *ssa.Defer: the deferred call runs now
	Lit     *Lit
	Known   bool // KEdge: what is tested is already decided on this path
	Inlined bool
	Callee  *ssa.Function // repository callee of an inlined call
	Results []Val         // KExit, KLeave: returned values
}

// Lit is a branch literal: Atom holds (Truth) or does not.
type Lit struct {
	Op    string // "true": X is true; "eq": X == Y; "lt": X < Y
	X, Y  Val
	Truth bool
	Pos   token.Pos
}

// Ctx gives a monitor access to the current state.
type Ctx struct {
	W    *Walker
	S    *State
	stop bool
}

// Stop ends the exploration of the current path.
func (c *Ctx) Stop() { c.stop = true }

// Frame returns the current frame.
func (c *Ctx) Frame() *Frame { return c.S.F }

// Val makes a value of the current frame.
func (c *Ctx) Val(v ssa.Value) Val { return Val{c.S.F, v} }

// Violate records a violation of the walker's rule on the current path.
func (c *Ctx) Violate(key, format string, args ...any) {
	c.W.violate(c.S, key, fmt.Sprintf(format, args...))
}

// PathViol is a violated rule with the path that reaches it.
type PathViol struct {
	Key, Msg string
	Pos      token.Pos
	Path     []string
}

// Walker explores the inlined control flow graph of Root, path-sensitively in the facts that later branches
// depend on, and runs a finite monitor along every path.
type Walker struct {
	strStack    []Val // rendering in progress
	P           *Prog
	Root        *ssa.Function
	Init        any
	Mon         func(c *Ctx, ev *Event, st any) any
	Interesting func(in ssa.Instruction) bool // nil: inline everything
	NoInline    func(fn *ssa.Function) bool
	MayPanic    func(c *Ctx, in ssa.Instruction) bool
	MaxStates   int
	MaxDepth    int
	StartBinds  []Val
	// Summary, if set, may give the monitor states after a call instead of entering it.
	Summary func(c *Ctx, fn *ssa.Function, mon any) ([]any, bool)
	RootGo  *ssa.Go // the goroutine start that runs Root

	elems    map[elemKey]*elemVal
	frames   map[frameIdent]*Frame
	nframe   int32
	keyID    map[envKey]int32
	keys     []envKey
	valID    map[Val]int32
	vals     []Val
	envs     map[string]*envT
	visited  map[stateKey]bool
	work     []*State
	inRoot   map[*ssa.Function]bool // functions whose frames are being built
	intMemo  map[*ssa.Function]int8
	viols    map[string]*PathViol
	root     *Frame
	Nodes    map[ssa.Instruction]bool
	NStates  int
	Overflow bool
}

type frameIdent struct {
	up   *Frame
	site ssa.Instruction
	fn   *ssa.Function
	d    int
	unw  bool
	kind frameKind
	clo  Val
}

var (
	litTrueV  = ssa.NewConst(constant.MakeBool(true), types.Typ[types.Bool])
	litFalseV = ssa.NewConst(constant.MakeBool(false), types.Typ[types.Bool])
	nonNilV   = &ssa.Global{}
	nilV      = ssa.NewConst(nil, types.NewInterfaceType(nil, nil))
)

func (w *Walker) setup() {
	w.frames = map[frameIdent]*Frame{}
	w.keyID = map[envKey]int32{}
	w.valID = map[Val]int32{}
	w.envs = map[string]*envT{}
	w.visited = map[stateKey]bool{}
	w.intMemo = map[*ssa.Function]int8{}
	w.viols = map[string]*PathViol{}
	w.Nodes = map[ssa.Instruction]bool{}
	if w.MaxStates == 0 {
		w.MaxStates = 400000
	}
	if w.MaxDepth == 0 {
		w.MaxDepth = 14
	}
}

// rootFrame builds the frame of a root. For a closure the enclosing functions get unbound frames so that
// captured variables still resolve structurally.
func (w *Walker) rootFrame(fn *ssa.Function) *Frame {
	w.nframe++
	f := &Frame{id: w.nframe, fn: fn}
	if par := fn.Parent(); par != nil {
		pf := w.rootFrame(par)
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					for _, bd := range mc.Bindings {
						f.binds = append(f.binds, Val{pf, bd})
					}
				}
			}
		}
	} else if call := w.P.onlyCall(fn); call != nil && !w.inRoot[fn] {
		if w.inRoot == nil {
			w.inRoot = map[*ssa.Function]bool{}
		}
		w.inRoot[fn] = true
		pf := w.rootFrame(call.Parent())
		for _, a := range call.Call.Args {
			f.args = append(f.args, Val{pf, a})
		}
		delete(w.inRoot, fn)
	}
	return f
}

// onlyCall is the only place that calls an unexported function, which is not used otherwise.
func (p *Prog) onlyCall(fn *ssa.Function) *ssa.Call {
	if fn.Parent() != nil || token.IsExported(fn.Name()) || fn.Synthetic != "" || len(p.callersOf[fn]) != 1 || p.asValue[fn] {
		return nil
	}
	call, _ := p.callersOf[fn][0].(*ssa.Call)
	return call
}

// Run explores everything reachable and returns the violations found.
func (w *Walker) Run() []*PathViol {
	w.setup()
	w.root = w.rootFrame(w.Root)
	if w.RootGo != nil {
		pf := w.rootFrame(w.RootGo.Parent())
		for _, a := range w.RootGo.Call.Args {
			w.root.args = append(w.root.args, Val{pf, a})
		}
	}
	if w.StartBinds != nil {
		w.root.binds = w.StartBinds
	}
	s := &State{point: point{F: w.root, B: w.Root.Blocks[0], I: 0, D: -1}, env: w.emptyEnv(), mon: w.Init}
	w.push(s)
	for len(w.work) > 0 {
		s := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		w.exec(s)
		if w.NStates > w.MaxStates {
			w.Overflow = true
			break
		}
	}
	var out []*PathViol
	for _, v := range w.viols {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	if w.Overflow {
		out = append(out, &PathViol{Key: "undecided", Msg: fmt.Sprintf("exploration of %s exceeded %d states; undecided", fnName(w.Root), w.MaxStates)})
	}
	return out
}

func (w *Walker) violate(s *State, key, msg string) {
	if w.viols[key] != nil {
		return
	}
	pv := &PathViol{Key: key, Msg: msg}
	if s != nil {
		if s.I < len(s.B.Instrs) {
			pv.Pos = instrPos(s.B.Instrs[s.I])
		}
		for t := s.parent; t != nil; t = t.up {
			pv.Path = append(pv.Path, fmt.Sprintf("%s %s", w.P.posStr(t.pos), t.what))
		}
		for i, j := 0, len(pv.Path)-1; i < j; i, j = i+1, j-1 {
			pv.Path[i], pv.Path[j] = pv.Path[j], pv.Path[i]
		}
		pv.Path = append(pv.Path, w.P.posStr(pv.Pos)+" in "+fnName(s.F.fn))
	}
	w.viols[key] = pv
}

func (w *Walker) push(s *State) {
	flags := uint8(0)
	if s.panicking {
		flags |= 1
	}
	if s.Unw {
		flags |= 2
	}
	k := stateKey{s.F.id, int32(s.B.Index), int32(s.I), int32(s.D), flags, s.env.id, s.mon}
	if s.B == s.F.fn.Recover {
		k.b = -2
	}
	if w.visited[k] {
		return
	}
	w.visited[k] = true
	w.NStates++
	w.work = append(w.work, s)
}

// ---- environment ----

func (w *Walker) emptyEnv() *envT { return w.internEnv(nil) }

func (w *Walker) internEnv(es []kv) *envT {
	buf := make([]byte, 0, len(es)*8)
	for _, e := range es {
		buf = binary.LittleEndian.AppendUint32(buf, uint32(e.k))
		buf = binary.LittleEndian.AppendUint32(buf, uint32(e.v))
	}
	if e, ok := w.envs[string(buf)]; ok {
		return e
	}
	e := &envT{id: int32(len(w.envs)), es: es}
	w.envs[string(buf)] = e
	return e
}

func (w *Walker) kid(k envKey) int32 {
	if id, ok := w.keyID[k]; ok {
		return id
	}
	id := int32(len(w.keys))
	w.keyID[k] = id
	w.keys = append(w.keys, k)
	return id
}

func (w *Walker) vid(v Val) int32 {
	if id, ok := w.valID[v]; ok {
		return id
	}
	id := int32(len(w.vals))
	w.valID[v] = id
	w.vals = append(w.vals, v)
	return id
}

func (w *Walker) get(e *envT, k envKey) (Val, bool) {
	id, ok := w.keyID[k]
	if !ok {
		return Val{}, false
	}
	for _, x := range e.es {
		if x.k == id {
			return w.vals[x.v], true
		}
	}
	return Val{}, false
}

func (w *Walker) set(e *envT, k envKey, v Val) *envT {
	id, vi := w.kid(k), w.vid(v)
	es := make([]kv, 0, len(e.es)+1)
	done := false
	for _, x := range e.es {
		if x.k == id {
			es = append(es, kv{id, vi})
			done = true
			continue
		}
		if !done && x.k > id {
			es = append(es, kv{id, vi})
			done = true
		}
		es = append(es, x)
	}
	if !done {
		es = append(es, kv{id, vi})
	}
	return w.internEnv(es)
}

func (w *Walker) filter(e *envT, keep func(k envKey) bool) *envT {
	drop := false
	for _, x := range e.es {
		if !keep(w.keys[x.k]) {
			drop = true
			break
		}
	}
	if !drop {
		return e
	}
	var es []kv
	for _, x := range e.es {
		if keep(w.keys[x.k]) {
			es = append(es, x)
		}
	}
	return w.internEnv(es)
}

// ---- value resolution ----

func (w *Walker) step1(e *envT, v Val, unwrapIface bool) (Val, bool) {
	switch x := v.V.(type) {
	case *ssa.Parameter:
		if v.F == nil {
			return v, false
		}
		if v.F.args != nil {
			for i, p := range v.F.fn.Params {
				if p == x && i < len(v.F.args) && v.F.args[i].V != nil {
					return v.F.args[i], true
				}
			}
		}
	case *ssa.FreeVar:
		if v.F == nil {
			return v, false
		}
		for i, p := range v.F.fn.FreeVars {
			if p == x && i < len(v.F.binds) {
				return v.F.binds[i], true
			}
		}
	case *ssa.ChangeType:
		return Val{v.F, x.X}, true
	case *ssa.ChangeInterface:
		return Val{v.F, x.X}, true
	case *ssa.MakeInterface:
		if unwrapIface {
			return Val{v.F, x.X}, true
		}
	case *ssa.Phi:
		if e != nil {
			if r, ok := w.get(e, envKey{F: v.F, V: x}); ok {
				return r, true
			}
		}
		// all edges the same value
		var one ssa.Value
		for _, ed := range x.Edges {
			if ed == x {
				continue
			}
			if one == nil {
				one = ed
			} else if one != ed {
				return v, false
			}
		}
		if one != nil {
			return Val{v.F, one}, true
		}
	case *ssa.Call:
		if e != nil {
			if r, ok := w.get(e, envKey{F: v.F, V: x}); ok {
				return r, true
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && e != nil {
			if r, ok := w.get(e, envKey{F: v.F, V: c, Idx: x.Index + 1}); ok {
				return r, true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if e != nil {
				if r, ok := w.get(e, envKey{F: v.F, V: x}); ok {
					return r, true
				}
			}
			if a, af, ok := w.cellOf(e, Val{v.F, x.X}); ok {
				if sv := w.P.singleStore(a); sv != nil {
					return Val{af, sv}, true
				}
			}
		}
	}
	return v, false
}

// Resolve follows parameters, captured variables, phis, inlined results and single-assignment cells.
func (w *Walker) Resolve(e *envT, v Val) Val {
	for i := 0; i < 100; i++ {
		n, ok := w.step1(e, v, true)
		if !ok || n == v {
			return v
		}
		v = n
	}
	return v
}

func (w *Walker) resolveKeepIface(e *envT, v Val) Val {
	for i := 0; i < 100; i++ {
		n, ok := w.step1(e, v, false)
		if !ok || n == v {
			return v
		}
		v = n
	}
	return v
}

// cellOf resolves an address to a local variable cell.
func (w *Walker) cellOf(e *envT, addr Val) (*ssa.Alloc, *Frame, bool) {
	a := w.Resolve(e, addr)
	if al, ok := a.V.(*ssa.Alloc); ok {
		return al, a.F, true
	}
	return nil, nil, false
}

// singleStore returns the only value ever stored into a local cell, if there is exactly one store.
func (p *Prog) singleStore(a *ssa.Alloc) ssa.Value {
	stores, ok := p.cellStores(a)
	if !ok || len(stores) != 1 || stores[0].Parent() != a.Parent() {
		return nil
	}
	return stores[0].Val
}

// givenTo: the parameters of a function of the repository that a static call gives v to.
func (p *Prog) givenTo(call *ssa.Call, v ssa.Value) (out []ssa.Value) {
	f := call.Call.StaticCallee()
	if f == nil {
		return nil
	}
	f = p.unwrap(f)
	if !p.inRepo[f] || len(f.Params) != len(call.Call.Args) {
		return nil
	}
	for i, a := range call.Call.Args {
		if a == v {
			out = append(out, f.Params[i])
		}
	}
	return out
}

// cellStores lists every store to the cell, in its function and in closures capturing it. ok is false when
// the cell's address is used in another way.
func (p *Prog) cellStores(a *ssa.Alloc) (out []*ssa.Store, ok bool) {
	ok = true
	var visit func(v ssa.Value, depth int)
	visit = func(v ssa.Value, depth int) {
		if depth > 8 || v.Referrers() == nil {
			ok = false
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					out = append(out, r)
				} else {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) {
						visit(fn.FreeVars[i], depth+1)
					}
				}
			case *ssa.Call:
				// given to a function of the repository: what that stores counts
				ps := p.givenTo(r, v)
				if len(ps) == 0 {
					ok = false
				}
				for _, q := range ps {
					visit(q, depth+1)
				}
			default:
				ok = false
			}
		}
	}
	visit(a, 0)
	return out, ok
}

// asyncWritten reports whether a closure that may run at another time writes the cell.
func (p *Prog) asyncWritten(a *ssa.Alloc) bool {
	if r, ok := p.asyncMemo[a]; ok {
		return r
	}
	res := false
	var visit func(v ssa.Value, async bool, depth int)
	visit = func(v ssa.Value, async bool, depth int) {
		if depth > 8 || v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v && async {
					res = true
				}
			case *ssa.Call:
				// address passed away: only synchronous use assumed
				for _, q := range p.givenTo(r, v) {
					visit(q, async, depth+1)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				as := async || !p.syncClosure(r)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) {
						visit(fn.FreeVars[i], as, depth+1)
					}
				}
			}
		}
	}
	visit(a, false, 0)
	p.asyncMemo[a] = res
	return res
}

// syncClosure reports whether a closure is only ever run synchronously by the function creating it
// (called, deferred, or passed to a callee known to run it synchronously).
func (p *Prog) syncClosure(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if r.Call.Value == mc {
				continue
			}
			if k, _ := p.syncInvoker(&r.Call); k != 0 {
				continue
			}
			return false
		case *ssa.Defer:
			if r.Call.Value == mc {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

// syncInvoker: does the (external) callee run a closure argument synchronously? 1: exactly once, 2: any number of times.
func (p *Prog) syncInvoker(c *ssa.CallCommon) (kind int, name string) {
	if c.IsInvoke() {
		return 0, ""
	}
	fn := origin(c.StaticCallee())
	if fn == nil {
		// range-over-func: a call of an iterator value with a yield closure
		if len(c.Args) == 1 {
			if mc, ok := c.Args[0].(*ssa.MakeClosure); ok && strings.Contains(mc.Fn.(*ssa.Function).Synthetic, "range-over-func") {
				return 2, "iterator"
			}
		}
		return 0, ""
	}
	if p.inRepo[fn] {
		return 0, ""
	}
	obj, ok := fn.Object().(*types.Func)
	if !ok || obj.Pkg() == nil {
		return 0, ""
	}
	full := obj.FullName()
	switch {
	case strings.HasSuffix(full, "util/broadcast.Broadcast).HoldLock"):
		return 1, full
	case full == "(*sync.Once).Do":
		return 2, full
	case obj.Pkg().Path() == "slices" || obj.Pkg().Path() == "sort" || obj.Pkg().Path() == "maps" || obj.Pkg().Path() == "strings":
		return 2, full
	}
	if len(c.Args) == 1 {
		if mc, ok := c.Args[0].(*ssa.MakeClosure); ok && strings.Contains(mc.Fn.(*ssa.Function).Synthetic, "range-over-func") {
			return 2, "iterator"
		}
	}
	return 0, ""
}

// ---- conditions ----

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func boolConst(v ssa.Value) (val, ok bool) {
	c, isC := v.(*ssa.Const)
	if !isC || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

// nilness: 1 nil, 2 non-nil, 0 unknown.
func (w *Walker) nilness(e *envT, v Val) int {
	r := w.resolveKeepIface(e, v)
	switch x := r.V.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return 1
		}
		return 2
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr:
		return 2
	case *ssa.Global:
		if x == nonNilV {
			return 2
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// sentinel error variables of the repository and libraries are never nil
			if g, ok := x.X.(*ssa.Global); ok && isErrorType(g.Type().(*types.Pointer).Elem()) {
				return 2
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk && types.IsInterface(x.AssertedType) {
			return 2
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil {
				switch o.FullName() {
				case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "context.Background":
					return 2
				case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
					if n := w.nilness(e, Val{r.F, x.Call.Args[0]}); n != 0 {
						return n
					}
				}
			}
		}
	}
	if rr := w.Resolve(e, r); rr.V != nil {
		if f, ok := w.get(e, envKey{V: factKey{"nil", rr, Val{}}, kind: 3}); ok {
			if b, _ := boolConst(f.V); b {
				return 1
			}
			return 2
		}
	}
	return 0
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// Cond is an evaluated condition: either known, or a literal.
type cond struct {
	known  bool
	val    bool
	hasLit bool
	lit    Lit // literal for "condition is true"
}

func (w *Walker) evalCond(e *envT, v Val) cond {
	neg := false
	for {
		v = w.Resolve(e, v)
		if u, ok := v.V.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = !neg
			v = Val{v.F, u.X}
			continue
		}
		break
	}
	if b, ok := boolConst(v.V); ok {
		return cond{known: true, val: b != neg}
	}
	mk := func(op string, x, y Val, truth bool) cond {
		l := Lit{Op: op, X: x, Y: y, Truth: truth != neg}
		fk := factOf(&l)
		if f, ok := w.get(e, envKey{V: fk, kind: 3}); ok {
			fb, _ := boolConst(f.V)
			return cond{known: true, val: fb == l.Truth, hasLit: true, lit: l}
		}
		if op == "eq" && !isNilConst(y.V) {
			if f, ok := w.get(e, envKey{V: factKey{op, y, x}, kind: 3}); ok {
				fb, _ := boolConst(f.V)
				return cond{known: true, val: fb == l.Truth, hasLit: true, lit: l}
			}
		}
		return cond{hasLit: true, lit: l}
	}
	if b, ok := v.V.(*ssa.BinOp); ok {
		bx, by := b.X, b.Y
		if _, isC := bx.(*ssa.Const); isC && (b.Op == token.EQL || b.Op == token.NEQ) {
			bx, by = by, bx
		}
		x, y := w.Resolve(e, Val{v.F, bx}), w.Resolve(e, Val{v.F, by})
		op := b.Op
		// x == true / x == false
		if op == token.EQL || op == token.NEQ {
			if _, cx := x.V.(*ssa.Const); cx {
				if _, cy := y.V.(*ssa.Const); !cy || isNilConst(x.V) && !isNilConst(y.V) {
					x, y = y, x
				}
			}
			if bv, ok := boolConst(y.V); ok {
				c := w.evalCond(e, x)
				flip := (op == token.EQL) != bv
				if flip != neg {
					c.val = !c.val
					c.lit.Truth = !c.lit.Truth
				}
				return c
			}
			if isNilConst(y.V) {
				n := w.nilness(e, Val{v.F, bx})
				if isNilConst(w.Resolve(e, Val{v.F, bx}).V) && !isNilConst(w.Resolve(e, Val{v.F, by}).V) {
					n = w.nilness(e, Val{v.F, by})
				}
				if n != 0 {
					return cond{known: true, val: ((n == 1) == (op == token.EQL)) != neg, hasLit: true,
						lit: Lit{Op: "eq", X: x, Y: Val{nil, nilV}, Truth: (op == token.EQL) != neg}}
				}
				return mk("eq", x, Val{nil, nilV}, op == token.EQL)
			}
			if cx, ok := x.V.(*ssa.Const); ok {
				if cy, ok := y.V.(*ssa.Const); ok && cx.Value != nil && cy.Value != nil {
					return cond{known: true, val: (constant.Compare(cx.Value, token.EQL, cy.Value) == (op == token.EQL)) != neg}
				}
			}
			if xl, xh, ok := w.bounds(e, x, 0, nil); ok {
				if yl, yh, ok := w.bounds(e, y, 0, nil); ok {
					l := Lit{Op: "eq", X: x, Y: y, Truth: (op == token.EQL) != neg}
					if xh < yl || yh < xl {
						return cond{known: true, val: (op == token.NEQ) != neg, hasLit: true, lit: l}
					}
					if xl == xh && yl == yh && xl == yl {
						return cond{known: true, val: (op == token.EQL) != neg, hasLit: true, lit: l}
					}
				}
			}
			return mk("eq", x, y, op == token.EQL)
		}
		cx, xok := x.V.(*ssa.Const)
		cy, yok := y.V.(*ssa.Const)
		if xok && yok && cx.Value != nil && cy.Value != nil {
			return cond{known: true, val: constant.Compare(cx.Value, op, cy.Value) != neg}
		}
		if xl, xh, ok := w.bounds(e, x, 0, nil); ok {
			if yl, yh, ok := w.bounds(e, y, 0, nil); ok {
				r := 0
				switch op {
				case token.LSS:
					if xh < yl {
						r = 1
					} else if xl >= yh {
						r = -1
					}
				case token.GTR:
					if xl > yh {
						r = 1
					} else if xh <= yl {
						r = -1
					}
				case token.LEQ:
					if xh <= yl {
						r = 1
					} else if xl > yh {
						r = -1
					}
				case token.GEQ:
					if xl >= yh {
						r = 1
					} else if xh < yl {
						r = -1
					}
				}
				if r != 0 {
					l := Lit{Op: "lt", X: x, Y: y, Truth: !neg}
					switch op {
					case token.GTR:
						l.X, l.Y = y, x
					case token.LEQ:
						l = Lit{Op: "lt", X: y, Y: x, Truth: neg}
					case token.GEQ:
						l = Lit{Op: "lt", X: x, Y: y, Truth: neg}
					}
					return cond{known: true, val: (r == 1) != neg, hasLit: true, lit: l}
				}
			}
		}
		switch op {
		case token.LSS:
			return mk("lt", x, y, true)
		case token.GTR:
			return mk("lt", y, x, true)
		case token.LEQ:
			return mk("lt", y, x, false)
		case token.GEQ:
			return mk("lt", x, y, false)
		}
	}
	return mk("true", v, Val{}, true)
}

func factOf(l *Lit) factKey {
	if l.Op == "eq" && isNilConst(l.Y.V) {
		return factKey{"nil", l.X, Val{}}
	}
	return factKey{l.Op, l.X, l.Y}
}

// ---- inlining ----

func (w *Walker) interesting(fn *ssa.Function) bool {
	if w.Interesting == nil {
		return true
	}
	switch w.intMemo[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	w.intMemo[fn] = 3 // in progress
	res := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if w.Interesting(in) {
				res = true
			}
			if ci, ok := in.(ssa.CallInstruction); ok && !res {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if c := w.P.unwrap(ci.Common().StaticCallee()); c != nil && w.P.inRepo[c] && w.interesting(c) {
					res = true
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok && !res {
				if w.interesting(w.P.unwrap(mc.Fn.(*ssa.Function))) {
					res = true
				}
			}
		}
		if res {
			break
		}
	}
	if res {
		w.intMemo[fn] = 1
	} else {
		w.intMemo[fn] = 2
	}
	return res
}

type callee struct {
	fn    *ssa.Function
	args  []Val
	binds []Val
	clo   Val
}

// target resolves the repository function a call runs, if it is determined.
func (w *Walker) target(e *envT, f *Frame, c *ssa.CallCommon) (callee, bool) {
	if c.IsInvoke() {
		return callee{}, false
	}
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = Val{f, a}
	}
	return w.targetVal(e, Val{f, c.Value}, args)
}

func (w *Walker) targetVal(e *envT, fv Val, args []Val) (callee, bool) {
	fv = w.Resolve(e, fv)
	switch x := fv.V.(type) {
	case *ssa.Function:
		fn := w.P.unwrap(x)
		if !w.P.inRepo[fn] {
			return callee{}, false
		}
		if len(fn.Params) != len(args) {
			return callee{}, false
		}
		return callee{fn: fn, args: args}, true
	case *ssa.MakeClosure:
		raw := x.Fn.(*ssa.Function)
		fn := w.P.unwrap(raw)
		if !w.P.inRepo[fn] {
			return callee{}, false
		}
		if fn != origin(raw) {
			// bound method value
			if len(x.Bindings) != 1 || len(fn.Params) != len(args)+1 {
				return callee{}, false
			}
			return callee{fn: fn, args: append([]Val{{fv.F, x.Bindings[0]}}, args...), clo: fv}, true
		}
		var binds []Val
		for _, b := range x.Bindings {
			binds = append(binds, Val{fv.F, b})
		}
		if len(fn.Params) != len(args) {
			return callee{}, false
		}
		return callee{fn: fn, args: args, binds: binds, clo: fv}, true
	}
	return callee{}, false
}

func (w *Walker) shouldInline(f *Frame, site ssa.Instruction, c callee) bool {
	if f.depth+1 > w.MaxDepth {
		return false
	}
	for x := f; x != nil; x = x.up {
		if x.fn == c.fn {
			return false
		}
	}
	if w.NoInline != nil && w.NoInline(c.fn) || w.P.generatedGetter(c.fn) {
		return false
	}
	if w.interesting(c.fn) {
		return true
	}
	// small helpers whose result is used: their conditions matter
	if v, ok := site.(*ssa.Call); ok && v.Referrers() != nil && len(*v.Referrers()) > 0 && len(c.fn.Blocks) <= 30 {
		return true
	}
	// helpers writing variables passed by address or captured
	if len(c.binds) > 0 {
		return true
	}
	return false
}

func (w *Walker) mkFrame(up *Frame, site ssa.Instruction, c callee, ret point, kind frameKind) *Frame {
	k := frameIdent{up, site, c.fn, ret.D, ret.Unw, kind, c.clo}
	if f := w.frames[k]; f != nil {
		return f
	}
	w.nframe++
	f := &Frame{id: w.nframe, fn: c.fn, up: up, site: site, ret: ret, args: c.args, binds: c.binds, depth: up.depth + 1, kind: kind}
	w.frames[k] = f
	return f
}

// ---- execution ----

func (w *Walker) event(s *State, ev *Event) bool {
	if w.Mon == nil {
		return true
	}
	c := &Ctx{W: w, S: s}
	s.mon = w.Mon(c, ev, s.mon)
	return !c.stop
}

func (w *Walker) enterBlock(s *State, from, to *ssa.BasicBlock) {
	// simultaneous phi assignment
	type asg struct {
		k envKey
		v Val
	}
	var as []asg
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range to.Preds {
			if p == from {
				as = append(as, asg{envKey{F: s.F, V: phi}, w.resolveKeepIface(s.env, Val{s.F, phi.Edges[k]})})
				break
			}
		}
	}
	env := s.env
	for _, a := range as {
		env = w.killFacts(env, Val{s.F, a.k.V.(ssa.Value)})
		env = w.set(env, a.k, a.v)
	}
	s.env = env
	s.B, s.I = to, 0
	w.prune(s)
}

func (w *Walker) prune(s *State) {
	li := w.P.live(s.F.fn).in[s.B]
	isPhi := map[ssa.Value]bool{}
	for _, in := range s.B.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			isPhi[phi] = true
		} else {
			break
		}
	}
	w.pruneWith(s, func(v ssa.Value) bool {
		if isPhi[v] {
			return phiUsed(v)
		}
		return li[v] || w.P.onceFuncOf(v, li)
	})
}

// onceFuncOf: the value is a function that a live sync.OnceFunc calls.
func (p *Prog) onceFuncOf(v ssa.Value, li map[ssa.Value]bool) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	if _, ok := phi.Type().Underlying().(*types.Signature); !ok {
		return false
	}
	for _, r := range *phi.Referrers() {
		if c, ok := r.(*ssa.Call); ok && li[c] && p.calleeIs(c.Common(), []string{"sync.OnceFunc"}) {
			return true
		}
	}
	return false
}

// pruneWith forgets what is known about values of the current frame that are not used any more.
func (w *Walker) pruneWith(s *State, live func(v ssa.Value) bool) {
	alive := func(v Val) bool {
		if v.V == nil || v.F != s.F {
			return true
		}
		switch v.V.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *elemVal:
			return true
		}
		return live(v.V)
	}
	// values the kept values are derived from: facts about them still decide later branches
	held := map[ssa.Value]bool{}
	for _, x := range s.env.es {
		k := w.keys[x.k]
		if k.kind > 1 || (k.kind == 0 && k.F == s.F && !alive(Val{k.F, k.V.(ssa.Value)})) {
			continue
		}
		if v := w.vals[x.v]; v.F == s.F && v.V != nil {
			if _, ok := v.V.Type().Underlying().(*types.Basic); ok {
				deepUses(v.V, held, 8)
			} else if _, isFn := v.V.Type().Underlying().(*types.Signature); isFn || isErrorType(v.V.Type()) {
				held[v.V] = true
			}
		}
	}
	s.env = w.filter(s.env, func(k envKey) bool {
		switch k.kind {
		case 0, 5:
			if k.F != s.F {
				return true
			}
			v := k.V.(ssa.Value)
			return alive(Val{k.F, v}) || k.kind == 5 && held[v]
		case 4:
			if k.F != s.F || alive(Val{k.F, k.V.(ssa.Value)}) {
				return true
			}
			_, esc := w.get(s.env, envKey{F: k.F, V: k.V, Idx: -2, kind: 4})
			return esc
		case 3:
			fk := k.V.(factKey)
			return (alive(fk.x) || held[fk.x.V]) && (alive(fk.y) || held[fk.y.V])
		}
		return true
	})
	w.pruneReturned(s)
}

// pruneReturned forgets what is known about values of calls that returned, once nothing refers to them.
func (w *Walker) pruneReturned(s *State) {
	gone := func(f *Frame) bool {
		for x := s.F; x != nil; x = x.up {
			if x == f {
				return false
			}
		}
		return f != nil && f.site != nil
	}
	any := false
	for _, x := range s.env.es {
		if k := w.keys[x.k]; k.kind == 3 && gone(k.V.(factKey).x.F) || k.kind == 0 && gone(k.F) {
			any = true
			break
		}
	}
	if !any {
		return
	}
	used := map[Val]bool{}
	parts := map[*Frame]map[ssa.Value]bool{}
	note := func(v Val) {
		if v.V == nil || !gone(v.F) {
			return
		}
		if parts[v.F] == nil {
			parts[v.F] = map[ssa.Value]bool{}
		}
		deepUses(v.V, parts[v.F], 0)
	}
	for _, x := range s.env.es {
		k := w.keys[x.k]
		if k.kind != 3 {
			used[w.vals[x.v]] = true
			if k.kind != 0 || !gone(k.F) {
				note(w.vals[x.v])
			}
		}
	}
	s.env = w.filter(s.env, func(k envKey) bool {
		if k.kind == 0 && gone(k.F) {
			return parts[k.F][k.V.(ssa.Value)]
		}
		if k.kind != 3 {
			return true
		}
		fk := k.V.(factKey)
		return fk.y.V != nil || !gone(fk.x.F) || used[fk.x]
	})
}

func phiUsed(v ssa.Value) bool { return v.Referrers() != nil && len(*v.Referrers()) > 0 }

func (w *Walker) killFacts(e *envT, v Val) *envT {
	return w.filter(e, func(k envKey) bool {
		if k.kind != 3 {
			return true
		}
		fk := k.V.(factKey)
		return !w.dependsOn(fk.x, v, 0) && !w.dependsOn(fk.y, v, 0)
	})
}

func (w *Walker) dependsOn(x, v Val, depth int) bool {
	if x.V == nil || v.V == nil {
		return false
	}
	if x == v {
		return true
	}
	if x.F != v.F || depth > 6 {
		return false
	}
	if transparent(x.V) {
		if in, ok := x.V.(ssa.Instruction); ok {
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if o != nil && *o != nil && w.dependsOn(Val{x.F, *o}, v, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (s *State) clone() *State { n := *s; return &n }

// noSelectCase: the panic that stands for a blocking select of which no case was taken; it cannot happen.
func noSelectCase(x *ssa.Panic) bool {
	m, ok := x.X.(*ssa.MakeInterface)
	if !ok || x.Pos().IsValid() {
		return false
	}
	k, ok := m.X.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && strings.HasPrefix(constant.StringVal(k.Value), "blocking select")
}

func (w *Walker) exec(s *State) {
	for {
		if s.Unw {
			if !w.unwind(s) {
				return
			}
			continue
		}
		in := s.B.Instrs[s.I]
		w.Nodes[in] = true
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			s.I++
			continue
		case *ssa.If:
			w.execIf(s, x)
			return
		case *ssa.Jump:
			w.enterBlock(s, s.B, s.B.Succs[0])
			w.push(s)
			return
		case *ssa.Panic:
			if noSelectCase(x) {
				return
			}
			if !w.event(s, &Event{Kind: KInstr, Instr: in}) {
				return
			}
			s.panicking = true
			s.Unw, s.D = true, len(w.P.live(s.F.fn).defers)
			continue
		case *ssa.Return:
			if !w.doReturn(s, x) {
				return
			}
			continue
		case *ssa.RunDefers:
			if !w.runDefers(s) {
				return
			}
			continue
		case *ssa.Defer:
			if !w.event(s, &Event{Kind: KInstr, Instr: in}) {
				return
			}
			s.env = w.set(s.env, envKey{F: s.F, V: x, kind: 2}, Val{nil, litTrueV})
			s.I++
			continue
		case *ssa.Call:
			if !w.execCall(s, x) {
				return
			}
			continue
		case *ssa.Alloc:
			if !w.event(s, &Event{Kind: KInstr, Instr: in}) {
				return
			}
			s.env = w.killFacts(s.env, Val{s.F, x})
			el := x.Type().(*types.Pointer).Elem()
			if w.trackCell(x) {
				s.env = w.set(s.env, envKey{F: s.F, V: x, kind: 1}, Val{nil, zeroConst(el)})
			}
			if _, isSt := el.Underlying().(*types.Struct); isSt && x.Heap {
				s.env = w.dropFresh(s.env, func(k envKey) bool { return k.F == s.F && k.V == any(x) })
				s.env = w.set(s.env, envKey{F: s.F, V: x, Idx: -1, kind: 4}, Val{nil, litTrueV})
			}
			s.I++
			continue
		case *ssa.Store:
			if !w.event(s, &Event{Kind: KInstr, Instr: in}) {
				return
			}
			if a, af, ok := w.cellOf(s.env, Val{s.F, x.Addr}); ok && w.trackCell(a) {
				v := w.resolveKeepIface(s.env, Val{s.F, x.Val})
				w.noteNil(s, v)
				s.env = w.set(s.env, envKey{F: af, V: a, kind: 1}, v)
			}
			w.storeFresh(s, x)
			s.I++
			continue
		case *ssa.UnOp:
			if !w.event(s, &Event{Kind: KInstr, Instr: in}) {
				return
			}
			s.env = w.killFacts(s.env, Val{s.F, x})
			if x.Op == token.MUL {
				if a, af, ok := w.cellOf(s.env, Val{s.F, x.X}); ok && w.trackCell(a) {
					if v, ok := w.get(s.env, envKey{F: af, V: a, kind: 1}); ok {
						s.env = w.set(s.env, envKey{F: s.F, V: x}, v)
					}
				}
				w.loadFresh(s, x)
			}
			s.I++
			continue
		default:
			if !w.event(s, &Event{Kind: KInstr, Instr: in}) {
				return
			}
			if v, ok := in.(ssa.Value); ok {
				s.env = w.killFacts(s.env, Val{s.F, v})
			}
			switch x := in.(type) {
			case *ssa.MakeClosure:
				for _, b := range x.Bindings {
					w.escapes(s, b)
				}
			case *ssa.Go:
				w.escapesCall(s, &x.Call)
			case *ssa.Send:
				w.escapes(s, x.X)
			case *ssa.MapUpdate:
				w.escapes(s, x.Value)
			}
			s.I++
		}
	}
}

// noteNil records whether an error that outlives what decides it is nil.
func (w *Walker) noteNil(s *State, v Val) {
	if v.F != s.F || v.V == nil || !isErrorType(v.V.Type()) {
		return
	}
	switch v.V.(type) {
	case *ssa.Call, *ssa.Extract:
	default:
		return
	}
	if n := w.nilness(s.env, v); n != 0 {
		b := litFalseV
		if n == 1 {
			b = litTrueV
		}
		s.env = w.set(s.env, envKey{V: factKey{"nil", v, Val{}}, kind: 3}, Val{nil, b})
	}
}

var zeroMemo = map[types.Type]*ssa.Const{}

func zeroConst(t types.Type) ssa.Value {
	if c := zeroMemo[t]; c != nil {
		return c
	}
	var c *ssa.Const
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			c = ssa.NewConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			c = ssa.NewConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			c = ssa.NewConst(constant.MakeInt64(0), t)
		default:
			c = ssa.NewConst(nil, t)
		}
	default:
		c = ssa.NewConst(nil, t)
	}
	zeroMemo[t] = c
	return c
}

func (w *Walker) trackCell(a *ssa.Alloc) bool {
	el := a.Type().(*types.Pointer).Elem()
	if _, isTP := el.(*types.TypeParam); isTP {
		return false
	}
	switch el.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	if _, ok := w.P.cellStoresLoose(a); !ok {
		return false
	}
	return !w.P.asyncWritten(a)
}

// cellStoresLoose: like cellStores but permits passing the address to calls.
func (p *Prog) cellStoresLoose(a *ssa.Alloc) (bool, bool) {
	for _, r := range *a.Referrers() {
		switch r.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return false, false
		}
	}
	return true, true
}

func (w *Walker) execIf(s *State, x *ssa.If) {
	c := w.evalCond(s.env, Val{s.F, x.Cond})
	if c.known {
		idx := 1
		if c.val {
			idx = 0
		}
		if c.hasLit {
			lit := c.lit
			if idx == 1 {
				lit.Truth = !lit.Truth
			}
			lit.Pos = instrPos(x)
			if !w.event(s, &Event{Kind: KEdge, Instr: x, Lit: &lit, Known: true}) {
				return
			}
		}
		w.enterBlock(s, s.B, s.B.Succs[idx])
		w.push(s)
		return
	}
	for idx := 0; idx < 2; idx++ {
		n := s.clone()
		lit := c.lit
		if idx == 1 {
			lit.Truth = !lit.Truth
		}
		lit.Pos = instrPos(x)
		if x.Cond.Pos().IsValid() {
			lit.Pos = x.Cond.Pos()
		}
		n.parent = &trace{up: s.parent, pos: lit.Pos, what: "[" + w.LitStr(s.env, &lit) + "]"}
		if !w.event(n, &Event{Kind: KEdge, Instr: x, Lit: &lit}) {
			continue
		}
		b, _ := litTrueV, 0
		if !lit.Truth {
			b = litFalseV
		}
		n.env = w.set(n.env, envKey{V: factOf(&lit), kind: 3}, Val{nil, b})
		if v, ok := assertedError(&lit); ok {
			n.env = w.set(n.env, envKey{V: factKey{"nil", v, Val{}}, kind: 3}, Val{nil, litFalseV})
		}
		w.enterBlock(n, n.B, n.B.Succs[idx])
		w.push(n)
	}
}

// assertedError: the error a successful type assertion yields (it is not nil).
func assertedError(l *Lit) (Val, bool) {
	if l.Op != "true" || !l.Truth {
		return Val{}, false
	}
	ex, ok := l.X.V.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return Val{}, false
	}
	ta, ok := ex.Tuple.(*ssa.TypeAssert)
	if !ok || !isErrorType(ta.AssertedType) {
		return Val{}, false
	}
	for _, u := range *ta.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
			return Val{l.X.F, e}, true
		}
	}
	return Val{}, false
}

func (w *Walker) execCall(s *State, x *ssa.Call) bool {
	s.env = w.killFacts(s.env, Val{s.F, x})
	// drop stale inlined results
	s.env = w.filter(s.env, func(k envKey) bool {
		return !(k.kind == 0 && k.F == s.F && k.V == any(ssa.Value(x)))
	})
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if !w.event(s, &Event{Kind: KInstr, Instr: x}) {
			return false
		}
		if b.Name() == "recover" {
			v := Val{nil, nilV}
			if s.panicking && s.F.kind == fkDefer && s.F.ret.Unw {
				s.panicking = false
				v = Val{nil, nonNilV}
			}
			s.env = w.set(s.env, envKey{F: s.F, V: x}, v)
		}
		s.I++
		return true
	}
	c, ok := w.target(s.env, s.F, &x.Call)
	inl := ok && w.shouldInline(s.F, x, c)
	if !w.event(s, &Event{Kind: KInstr, Instr: x, Inlined: inl, Callee: c.fn}) {
		return false
	}
	if !inl {
		w.freshAtomic(s, x)
	}
	if !inl && w.clobbers(&x.Call) {
		w.escapesCall(s, &x.Call)
		w.clobber(s)
	}
	if w.MayPanic != nil && !inl && w.MayPanic(&Ctx{W: w, S: s}, x) {
		n := s.clone()
		n.panicking = true
		n.Unw, n.D = true, len(w.P.live(n.F.fn).defers)
		n.parent = &trace{up: s.parent, pos: instrPos(x), what: "[call panics]"}
		w.push(n)
	}
	if inl && w.Summary != nil && c.fn.Parent() == nil && len(c.binds) == 0 {
		if next, ok := w.Summary(&Ctx{W: w, S: s}, c.fn, s.mon); ok {
			w.escapesCall(s, &x.Call)
			w.clobber(s)
			s.I++
			for i, m := range next {
				n := s
				if i < len(next)-1 {
					n = s.clone()
				}
				n.mon = m
				if n != s {
					w.push(n)
				}
			}
			return len(next) > 0
		}
	}
	if inl {
		ret := s.point
		w.enter(s, x, c, ret, fkCall)
		return true
	}
	// external callee running a closure argument synchronously
	if kind, _ := w.P.syncInvoker(&x.Call); kind != 0 {
		for ai, a := range x.Call.Args {
			av := w.Resolve(s.env, Val{s.F, a})
			mc, ok := av.V.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			fn := w.P.unwrap(mc.Fn.(*ssa.Function))
			if !w.P.inRepo[fn] {
				continue
			}
			params := fn.Params
			if fn != origin(mc.Fn.(*ssa.Function)) && len(mc.Bindings) == 1 && len(params) > 0 {
				params = params[1:] // a method value
			}
			coll, isIter, all := w.iterated(s, x, av)
			var args []Val
			for i := range params {
				if coll.V == nil {
					args = append(args, Val{})
					continue
				}
				key := isIter && i == 0 && len(params) == 2
				args = append(args, Val{s.F, w.elem(coll, x, i, key, params[i])})
			}
			_ = ai
			cc, ok := w.targetVal(s.env, av, args)
			if !ok || w.frameOn(s.F, cc.fn) || s.F.depth+1 > w.MaxDepth {
				continue
			}
			if kind == 2 {
				n := s.clone()
				// no (further) element
				if all {
					l := &Lit{Op: "iter", X: coll, Truth: false, Pos: instrPos(x)}
					n.parent = &trace{up: s.parent, pos: instrPos(x), what: "[no further element]"}
					if !w.event(n, &Event{Kind: KEdge, Instr: x, Lit: l}) {
						n = nil
					}
				}
				if n != nil {
					n.I++
					w.push(n)
				}
				if all {
					l := &Lit{Op: "iter", X: coll, Truth: true, Pos: instrPos(x)}
					if !w.event(s, &Event{Kind: KEdge, Instr: x, Lit: l}) {
						return false
					}
				}
				w.enter(s, x, cc, s.point, fkSyncMany)
				if all && w.P.callName(&x.Call) == "slices.DeleteFunc" {
					s.F.coll = coll
				}
				return true
			}
			w.enter(s, x, cc, s.point, fkSyncOnce)
			return true
		}
	}
	s.I++
	return true
}

func (w *Walker) frameOn(f *Frame, fn *ssa.Function) bool {
	for x := f; x != nil; x = x.up {
		if x.fn == fn {
			return true
		}
	}
	return false
}

func (w *Walker) enter(s *State, site ssa.Instruction, c callee, ret point, kind frameKind) {
	if call, ok := site.(*ssa.Call); ok && kind == fkCall {
		la := w.P.liveAfter(call)
		w.pruneWith(s, func(v ssa.Value) bool { return la[v] })
	}
	f := w.mkFrame(s.F, site, c, ret, kind)
	s.F, s.B, s.I, s.D, s.Unw = f, c.fn.Blocks[0], 0, -1, false
	s.parent = &trace{up: s.parent, pos: instrPos(site), what: "-> " + fnName(c.fn)}
	w.event(s, &Event{Kind: KEnter, Instr: site, Callee: c.fn})
}

// doReturn leaves the current frame.
func (w *Walker) doReturn(s *State, x *ssa.Return) bool {
	var res []Val
	if x != nil {
		for _, r := range x.Results {
			v := w.resolveKeepIface(s.env, Val{s.F, r})
			if b, isB := v.V.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 && v.F == s.F {
				if cd := w.evalCond(s.env, v); cd.known {
					v = Val{nil, litFalseV}
					if cd.val {
						v.V = litTrueV
					}
				}
			}
			res = append(res, v)
		}
	}
	f := s.F
	if f.up == nil || f.site == nil {
		w.event(s, &Event{Kind: KExit, Instr: instrOrNil(x), Results: res})
		return false
	}
	if f.kind == fkSyncMany && x != nil && len(res) == 1 && f.coll.V != nil {
		// the predicate of slices.DeleteFunc: whether the element is picked
		picked := []bool{true, false}
		cond := w.evalCond(s.env, res[0])
		if cond.known {
			picked = []bool{cond.val}
		}
		for i, b := range picked {
			n := s
			if i < len(picked)-1 {
				n = s.clone()
			}
			if cond.hasLit {
				l := cond.lit
				if !b {
					l.Truth = !l.Truth
				}
				l.Pos = instrPos(x)
				n.parent = &trace{up: n.parent, pos: l.Pos, what: "[" + w.LitStr(n.env, &l) + "]"}
				if !w.event(n, &Event{Kind: KEdge, Instr: x, Lit: &l}) {
					if n == s {
						return false
					}
					continue
				}
			}
			if !w.event(n, &Event{Kind: KEdge, Instr: x, Lit: &Lit{Op: "pick", X: f.coll, Truth: b, Pos: instrPos(x)}}) {
				if n == s {
					return false
				}
				continue
			}
			if n != s {
				w.leave(n, x, res)
			}
		}
	}
	return w.leave(s, x, res)
}

// leave returns from an inlined call.
func (w *Walker) leave(s *State, x *ssa.Return, res []Val) bool {
	f := s.F
	if !w.event(s, &Event{Kind: KLeave, Instr: instrOrNil(x), Callee: f.fn, Results: res}) {
		return false
	}
	// what is known about the errors that outlive the frame
	kept := map[Val]bool{}
	for _, r := range res {
		kept[r] = true
	}
	for _, x := range s.env.es {
		if v := w.vals[x.v]; v.F == f && v.V != nil && w.keys[x.k].kind != 3 && w.keys[x.k].F != f {
			kept[v] = true
		}
	}
	for _, r := range res {
		w.noteNil(s, r)
	}
	// what the results are computed from
	parts := map[ssa.Value]bool{}
	for _, r := range res {
		if r.F == f && r.V != nil && transparent(r.V) {
			deepUses(r.V, parts, 0)
		}
	}
	s.env = w.filter(s.env, func(k envKey) bool {
		if k.kind == 0 && k.F == f {
			return parts[k.V.(ssa.Value)]
		}
		if k.kind == 3 {
			fk := k.V.(factKey)
			if fk.y.V == nil && fk.x.F == f && kept[fk.x] {
				return true
			}
			return fk.x.F != f && fk.y.F != f
		}
		if k.F == f && k.kind == 4 {
			for _, r := range res {
				if w.Resolve(s.env, r) == (Val{f, k.V.(ssa.Value)}) {
					return true
				}
			}
			_, esc := w.get(s.env, envKey{F: k.F, V: k.V, Idx: -2, kind: 4})
			return esc
		}
		return k.F != f
	})
	s.point = f.ret
	switch f.kind {
	case fkCall:
		call := f.site.(*ssa.Call)
		if phiUsed(call) {
			if len(res) == 1 {
				s.env = w.set(s.env, envKey{F: s.F, V: ssa.Value(call)}, res[0])
			} else {
				for i, r := range res {
					s.env = w.set(s.env, envKey{F: s.F, V: ssa.Value(call), Idx: i + 1}, r)
				}
			}
		}
		s.I++
	case fkSyncOnce:
		s.I++
	case fkSyncMany:
		if len(res) == 1 && strings.Contains(f.fn.Synthetic, "range-over-func") {
			if b, known := boolConst(w.Resolve(s.env, res[0]).V); known && b {
				break // the next element, or none
			} else if known {
				s.I++ // the loop was left
				break
			}
		}
		n := s.clone()
		w.push(n) // run again (or stop: the zero-iterations branch)
		s.I++
	case fkDefer:
		// runDefers / unwind resumes at s.D
	}
	if x == nil {
		return true
	}
	w.push(s)
	return false
}

func instrOrNil(x *ssa.Return) ssa.Instruction {
	if x == nil {
		return nil
	}
	return x
}

func (w *Walker) runDefers(s *State) bool {
	list := w.P.live(s.F.fn).defers
	if s.D < 0 {
		s.D = len(list)
	}
	for s.D > 0 {
		s.D--
		if entered, cont := w.runDefer(s, list[s.D]); entered || !cont {
			return cont
		}
	}
	s.D = -1
	s.I++
	return true
}

func (w *Walker) runDefer(s *State, d *ssa.Defer) (entered, cont bool) {
	if _, ok := w.get(s.env, envKey{F: s.F, V: d, kind: 2}); !ok {
		return false, true
	}
	if b, ok := d.Call.Value.(*ssa.Builtin); ok {
		if !w.event(s, &Event{Kind: KInstr, Instr: d, Running: true}) {
			return false, false
		}
		if b.Name() == "recover" && s.panicking && s.Unw {
			s.panicking = false
		}
		return false, true
	}
	c, ok := w.target(s.env, s.F, &d.Call)
	inl := ok && !w.frameOn(s.F, c.fn) && s.F.depth+1 <= w.MaxDepth && (w.NoInline == nil || !w.NoInline(c.fn)) && !w.P.generatedGetter(c.fn)
	if !inl && w.clobbers(&d.Call) {
		w.clobber(s)
	}
	if !w.event(s, &Event{Kind: KInstr, Instr: d, Running: true, Inlined: inl, Callee: c.fn}) {
		return false, false
	}
	if inl {
		w.enter(s, d, c, s.point, fkDefer)
		return true, true
	}
	return false, true
}

// unwind runs deferred calls of a panicking frame, then leaves it.
func (w *Walker) unwind(s *State) bool {
	list := w.P.live(s.F.fn).defers
	for s.D > 0 {
		s.D--
		if entered, cont := w.runDefer(s, list[s.D]); entered || !cont {
			return cont
		}
	}
	s.Unw = false
	s.D = -1
	if !s.panicking {
		if rb := s.F.fn.Recover; rb != nil {
			s.B, s.I = rb, 0
			w.push(s)
			return false
		}
		return w.doReturn(s, nil)
	}
	f := s.F
	if f.up == nil || f.site == nil {
		w.event(s, &Event{Kind: KPanicExit})
		return false
	}
	s.env = w.filter(s.env, func(k envKey) bool {
		if k.kind == 3 {
			fk := k.V.(factKey)
			return fk.x.F != f && fk.y.F != f
		}
		return k.F != f
	})
	ret := f.ret
	s.point = ret
	if !ret.Unw {
		s.Unw = true
		if ret.D < 0 {
			s.D = len(w.P.live(s.F.fn).defers)
		}
	}
	return true
}

// generatedGetter: a field getter of a generated message; it is kept as a call so that it is known whose field it reads.
func (p *Prog) generatedGetter(fn *ssa.Function) bool {
	return fn != nil && strings.HasPrefix(fn.Name(), "Get") && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 0 &&
		strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, ".pb.go")
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var onlyObl string

var debugClimb = os.Getenv("CHECKER_CLIMB") != ""

// Check runs the obligations of one property.
type Check struct {
	Opaque  string // functions that are not looked into
	Inside  string // packages whose functions are looked into (empty: all)
	P       *Prog
	Prop    string
	Tier    string
	Obls    []*Obl
	Funcs   map[string]bool
	Sites   int
	States  int
	Assumed []string
}

// Obl is one obligation: a rule applied to one construct.
type Obl struct {
	ck    *Check
	ID    string
	Text  string
	Sites map[string]bool // constructs examined
	Fails []Fail
	NInst int
}

// Fail is one violation of an obligation.
type Fail struct {
	Key  string
	Msg  string
	Pos  string
	Path []string
}

// Do runs one obligation; unresolved anchors and internal failures fail it.
func (ck *Check) Do(id, text string, f func(o *Obl)) {
	if onlyObl != "" && onlyObl != id {
		return
	}
	o := &Obl{ck: ck, ID: id, Text: text, Sites: map[string]bool{}}
	ck.Obls = append(ck.Obls, o)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(anchorErr); ok {
					o.Fail("anchor", token.NoPos, nil, "unresolved anchor: %s", a.msg)
					return
				}
				if debugPanics {
					panic(r)
				}
				o.Fail("internal", token.NoPos, nil, "the analysis failed: %v", r)
			}
		}()
		f(o)
	}()
	if len(o.Sites) == 0 && len(o.Fails) == 0 {
		o.Fail("vacuous", token.NoPos, nil, "the rule matched no construct in the current source")
	}
}

// Fail records a violation.
func (o *Obl) Fail(key string, pos token.Pos, path []string, format string, args ...any) {
	for _, f := range o.Fails {
		if f.Key == key {
			return
		}
	}
	o.Fails = append(o.Fails, Fail{Key: key, Msg: fmt.Sprintf(format, args...), Pos: o.ck.P.posStr(pos), Path: path})
}

// Site records an examined construct.
func (o *Obl) Site(in ssa.Instruction) {
	if in == nil {
		return
	}
	o.Sites[fnName(in.Parent())+"@"+o.ck.P.posStr(instrPos(in))] = true
}

func (o *Obl) SiteName(s string) { o.Sites[s] = true }

// ---- predicates ----

// Pred matches an event.
type Pred func(c *Ctx, ev *Event) bool

func anyOf(ps ...Pred) Pred {
	return func(c *Ctx, ev *Event) bool {
		for _, p := range ps {
			if p(c, ev) {
				return true
			}
		}
		return false
	}
}

func allOf(ps ...Pred) Pred {
	return func(c *Ctx, ev *Event) bool {
		for _, p := range ps {
			if !p(c, ev) {
				return false
			}
		}
		return true
	}
}

func notP(p Pred) Pred { return func(c *Ctx, ev *Event) bool { return !p(c, ev) } }

// glob matches s against a pattern in which * stands for any text, and [*] for any element but one at a
// constant index.
func glob(pat, s string) bool {
	if k := strings.Index(pat, "[*]"); k >= 0 {
		return globElem(pat[:k], pat[k+3:], s)
	}
	parts := strings.Split(pat, "*")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i := 1; i < len(parts)-1; i++ {
		k := strings.Index(s, parts[i])
		if k < 0 {
			return false
		}
		s = s[k+len(parts[i]):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

func globElem(pre, post, s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != '[' || !glob(pre, s[:i]) {
			continue
		}
		for j := i + 1; j < len(s); j++ {
			if s[j] == ']' && (j == i+1 || strings.Trim(s[i+1:j], "0123456789") != "") && glob(post, s[j+1:]) {
				return true
			}
		}
	}
	return false
}

func globAny(pats []string, s string) bool {
	for _, p := range pats {
		if glob(p, s) {
			return true
		}
	}
	return false
}

// execCall: the call the event executes now (a call, or a deferred call being run).
func execCall(ev *Event) *ssa.CallCommon {
	if ev.Kind != KInstr {
		return nil
	}
	switch x := ev.Instr.(type) {
	case *ssa.Call:
		return &x.Call
	case *ssa.Defer:
		if ev.Running {
			return &x.Call
		}
	}
	return nil
}

// calls matches an executed call of one of the named callees ("Type.Method", "pkg.Func", ".Method").
func calls(names ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		cc := execCall(ev)
		return cc != nil && c.W.P.calleeIs(cc, names)
	}
}

func (p *Prog) calleeIs(cc *ssa.CallCommon, names []string) bool {
	full := p.callName(cc)
	m := ""
	for _, n := range names {
		if strings.HasPrefix(n, ".") {
			if m == "" {
				m = p.methodName(cc)
			}
			if m != "" && glob(n[1:], m) {
				return true
			}
		} else if full != "" && glob(n, full) {
			return true
		}
	}
	return false
}

// callArgs matches a call with rendered arguments matching the patterns (receiver included for methods).
func callArgs(name string, pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		cc := execCall(ev)
		if cc == nil || !c.W.P.calleeIs(cc, strings.Split(name, "|")) {
			return false
		}
		args := c.Args(cc)
		for i, p := range pats {
			if p == "*" {
				continue
			}
			if i >= len(args) || !globAny(strings.Split(p, "|"), c.Str(args[i])) {
				return false
			}
		}
		return true
	}
}

// Args of a call with the receiver first.
func (c *Ctx) Args(cc *ssa.CallCommon) []Val {
	var out []Val
	if cc.IsInvoke() {
		out = append(out, Val{c.S.F, cc.Value})
	}
	for _, a := range cc.Args {
		out = append(out, Val{c.S.F, a})
	}
	return out
}

// Str renders a value in the current state.
func (c *Ctx) Str(v Val) string { return c.W.Str(c.S.env, v) }

// StrV renders an SSA value of the current frame.
func (c *Ctx) StrV(v ssa.Value) string { return c.W.Str(c.S.env, Val{c.S.F, v}) }

// ID renders with identity.
func (c *Ctx) ID(v Val) string { return c.W.StrID(c.S.env, v) }

func (c *Ctx) IDV(v ssa.Value) string { return c.W.StrID(c.S.env, Val{c.S.F, v}) }

func (c *Ctx) Resolve(v Val) Val { return c.W.Resolve(c.S.env, v) }

// dynCall matches a call of a function value whose rendering matches.
func dynCall(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		cc := execCall(ev)
		if cc == nil || cc.IsInvoke() {
			return false
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return false
		}
		if cc.StaticCallee() != nil {
			if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
				return false
			}
		}
		return globAny(pats, c.StrV(cc.Value))
	}
}

// dynCallArgs is dynCall with patterns for the arguments.
func dynCallArgs(fn string, args ...string) Pred {
	f := dynCall(fn)
	return func(c *Ctx, ev *Event) bool {
		if !f(c, ev) {
			return false
		}
		cc := execCall(ev)
		for i, p := range args {
			if i >= len(cc.Args) || !globAny(strings.Split(p, "|"), c.StrV(cc.Args[i])) {
				return false
			}
		}
		return true
	}
}

// storeTo matches a store to a field whose address renders as one of the patterns; val optionally constrains the stored value.
func storeTo(field string, vals ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		st, ok := ev.Instr.(*ssa.Store)
		if !ok {
			return false
		}
		if !globAny(strings.Split(field, "|"), c.addrName(st.Addr)) {
			return false
		}
		return len(vals) == 0 || globAny(vals, c.StrV(st.Val))
	}
}

// setFlag matches a boolean (atomic or plain) field becoming true: a store, a swap whose result is not
// looked at, or the branch on which a swap found it unset.
func setFlag(field string) Pred {
	unused := func(c *Ctx, ev *Event) bool {
		x, ok := ev.Instr.(*ssa.Call)
		return !ok || !phiUsed(x)
	}
	var edges []string
	for _, f := range strings.Split(field, "|") {
		edges = append(edges, "!swap("+f+",true)")
	}
	return anyOf(
		callArgs("Bool.Store", field, "true"),
		allOf(callArgs("Bool.Swap", field, "true"), unused),
		allOf(callArgs("Bool.CompareAndSwap", field, "false", "true"), unused),
		storeTo(field, "true"),
		lit(edges...),
	)
}

// lit matches a branch edge. "!p" matches the negation of p.
func lit(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge {
			return false
		}
		return matchLit(c, ev.Lit, pats)
	}
}

func matchLit(c *Ctx, l *Lit, pats []string) bool {
	atom, truth := c.W.normLit(c.S.env, l)
	for _, p := range pats {
		want := true
		if strings.HasPrefix(p, "!") {
			want, p = false, p[1:]
		}
		if want == truth && glob(p, atom) {
			return true
		}
	}
	return false
}

func isExit(c *Ctx, ev *Event) bool { return ev.Kind == KExit }

// exitErr matches root returns whose last (error) result is known non-nil / possibly non-nil.
func exitWith(f func(c *Ctx, res []Val) bool) Pred {
	return func(c *Ctx, ev *Event) bool { return ev.Kind == KExit && f(c, ev.Results) }
}

// iter matches the start of an iteration over a slice/map whose rendering matches, i.e. the loop edge that
// says there is one more element; done matches the edge that says there is none.
func iter(pats ...string) Pred  { return loopEdge(true, pats) }
func done(pats ...string) Pred  { return loopEdge(false, pats) }
func empty(pats ...string) Pred { return loopEdge2(false, pats, false) }

func loopEdge(more bool, pats []string) Pred { return loopEdge2(more, pats, true) }

func loopEdge2(more bool, pats []string, cyc bool) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge {
			return false
		}
		s, m, ok := c.loopLit(ev)
		if !ok || m != more {
			return false
		}
		if cyc && more && ev.Lit.Op != "iter" && !loopTest(ev.Instr.Block()) {
			return false
		}
		return globAny(pats, s)
	}
}

// loopLit interprets a branch literal as "collection s has another element" (true) or not.
func (c *Ctx) loopLit(ev *Event) (s string, more, ok bool) {
	l := ev.Lit
	switch l.Op {
	case "iter":
		return c.Str(l.X), l.Truth, true
	case "true":
		if ex, isEx := l.X.V.(*ssa.Extract); isEx && ex.Index == 0 {
			if n, isN := ex.Tuple.(*ssa.Next); isN {
				if rg, isR := n.Iter.(*ssa.Range); isR {
					return c.Str(Val{l.X.F, rg.X}), l.Truth, true
				}
			}
		}
	case "lt":
		if s, ok := c.lenOf(l.Y); ok {
			if k, isC := constInt(l.X.V); isC && k > 0 && !l.Truth {
				return "", false, false // there may be elements left
			}
			return s, l.Truth, true // i < len(s)
		}
		if s, ok := c.lenOf(l.X); ok {
			if k, isC := constInt(l.Y.V); isC && k > 1 && l.Truth {
				return "", false, false
			}
			return s, !l.Truth, true
		}
		// reverse loops: 0 <= i with i initialised from len(s)-1: !(i < 0)
		if cy, isC := l.Y.V.(*ssa.Const); isC && cy.Value != nil && cy.Int64() == 0 {
			if s, ok := c.countdown(l.X, 0); ok {
				return s, !l.Truth, true
			}
		}
		if cx, isC := l.X.V.(*ssa.Const); isC && cx.Value != nil && (cx.Int64() == -1 || cx.Int64() == 0) {
			if s, ok := c.countdown(l.Y, 0); ok {
				return s, l.Truth, true
			}
		}
	case "eq":
		if s, ok := c.lenOf(l.X); ok {
			if k, isC := constInt(l.Y.V); isC && k > 0 {
				return s, l.Truth, l.Truth
			}
			return s, !l.Truth, true
		}
		if s, ok := c.lenOf(l.Y); ok {
			if k, isC := constInt(l.X.V); isC && k > 0 {
				return s, l.Truth, l.Truth
			}
			return s, !l.Truth, true
		}
	}
	return "", false, false
}

// partialLoop: the loop this edge enters an iteration of is known to leave out elements of its collection.
func (c *Ctx) partialLoop(ev *Event) bool {
	l := ev.Lit
	if l.Op != "lt" {
		return false
	}
	iff, ok := ev.Instr.(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := c.Resolve(l.X), c.Resolve(l.Y)
	// as written: the literal may know the value
	idx := Val{c.S.F, cmp.X}
	switch cmp.X.(type) {
	case *ssa.Const, *ssa.Call:
		idx.V = cmp.Y
	}
	if call, ok := y.V.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			arg := c.Resolve(Val{y.F, call.Call.Args[0]})
			if sl, ok := arg.V.(*ssa.Slice); ok && partOf(sl) {
				return true
			}
			init, step, ok := counter(idx.V, 0)
			if !ok {
				return false
			}
			first, ok := constInt(init)
			if !ok || step != 1 {
				return ok && step > 1
			}
			return first != 0
		}
	}
	// counting down: !(i < 0), -1 < i, 0 < i
	low, v := int64(-1), idx
	if k, ok := constInt(y.V); ok && k == 0 && !l.Truth {
		low = 0
	} else if k, ok := constInt(x.V); ok && l.Truth && (k == 0 || k == -1) {
		low = k + 1
	}
	if low < 0 {
		return false
	}
	init, step, ok := counter(v.V, 0)
	if !ok || step >= 0 {
		return false
	}
	if step < -1 {
		return true
	}
	off := int64(0)
	for d := 0; d < 4; d++ {
		b, ok := init.(*ssa.BinOp)
		if !ok {
			break
		}
		k, isC := constInt(b.Y)
		if !isC {
			return false
		}
		if b.Op == token.SUB {
			k = -k
		} else if b.Op != token.ADD {
			return false
		}
		off += k
		init = b.X
	}
	if _, ok := c.lenOf(Val{v.F, init}); !ok {
		return false
	}
	// with a lower end of 0 the index itself is used, with 1 the one before it
	return off != low-1
}

// partOf: a slice that is known to leave out elements, where none of them is looked at on its own.
func partOf(sl *ssa.Slice) bool {
	part := false
	if sl.Low != nil {
		k, ok := constInt(sl.Low)
		part = ok && k > 0
	}
	if k, ok := constInt(sl.High); ok && k > 0 {
		part = true
	}
	if b, ok := sl.High.(*ssa.BinOp); ok && b.Op == token.SUB {
		if call, ok := b.X.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				part = true
			}
		}
	}
	if !part {
		return false
	}
	for _, b := range sl.Parent().Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if _, isC := ia.Index.(*ssa.Const); isC && types.Identical(ia.X.Type(), sl.X.Type()) {
					return false
				}
				if b, isB := ia.Index.(*ssa.BinOp); isB && b.Op == token.SUB && sl.High != nil && types.Identical(ia.X.Type(), sl.X.Type()) {
					return false
				}
			}
		}
	}
	return true
}

func constInt(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k == nil || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return k.Int64(), true
}

// counter: v is the index of a loop: its first value and its step.
func counter(v ssa.Value, d int) (init ssa.Value, step int64, ok bool) {
	if b, isB := v.(*ssa.BinOp); isB && d == 0 && b.Op == token.ADD {
		// a range loop: the index is advanced before it is tested
		k, isC := constInt(b.Y)
		in, st, ok := counter(b.X, 1)
		if !isC || !ok || k != st {
			return nil, 0, false
		}
		f, isC := constInt(in)
		if !isC {
			return nil, 0, false
		}
		return ssa.NewConst(constant.MakeInt64(f+k), in.Type()), st, true
	}
	phi, isP := v.(*ssa.Phi)
	if !isP {
		return nil, 0, false
	}
	head := phi.Block()
	var restart []int64
	for i, e := range phi.Edges {
		if !head.Dominates(head.Preds[i]) {
			if init != nil && init != e {
				return nil, 0, false
			}
			init = e
			continue
		}
		b, isB := e.(*ssa.BinOp)
		if !isB || b.Op != token.ADD && b.Op != token.SUB {
			return nil, 0, false
		}
		k, isC := constInt(b.Y)
		if !isC {
			return nil, 0, false
		}
		if b.Op == token.SUB {
			k = -k
		}
		if b.X != ssa.Value(phi) {
			// the loop may be started again
			again, isP := b.X.(*ssa.Phi)
			if !isP {
				return nil, 0, false
			}
			for _, x := range again.Edges {
				if c, isC := constInt(x); isC {
					restart = append(restart, c+k)
				} else if x != ssa.Value(phi) {
					return nil, 0, false
				}
			}
		}
		if step != 0 && step != k {
			return nil, 0, false
		}
		step = k
	}
	for _, r := range restart {
		if f, isC := constInt(init); !isC || r > f && step > 0 || r < f && step < 0 {
			return ssa.NewConst(constant.MakeInt64(r), init.Type()), step, init != nil && step != 0
		}
	}
	return init, step, init != nil && step != 0
}

func (c *Ctx) lenOf(v Val) (string, bool) {
	v = c.Resolve(v)
	if call, ok := v.V.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Str(Val{v.F, call.Call.Args[0]}), true
		}
	}
	// range over an integer or over an array has a constant bound
	return "", false
}

// countdown: v is an index that counts down from len(s)-1 (or len(s)).
func (c *Ctx) countdown(v Val, d int) (string, bool) {
	if d > 5 {
		return "", false
	}
	switch x := v.V.(type) {
	case *ssa.BinOp:
		if x.Op == token.SUB || x.Op == token.ADD {
			if s, ok := c.lenOf(Val{v.F, x.X}); ok {
				return s, true
			}
			return c.countdown(Val{v.F, x.X}, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s, ok := c.countdown(Val{v.F, e}, d+1); ok {
				return s, true
			}
		}
	}
	return "", false
}

// loopTest: one of the branches at the end of b leaves the innermost loop b is in.
func loopTest(b *ssa.BasicBlock) bool {
	l := innermost(b)
	if l == nil {
		return false
	}
	for _, s := range b.Succs {
		if !l[s] {
			return true
		}
	}
	return false
}

var loopMemo = map[*ssa.Function][]map[*ssa.BasicBlock]bool{}

// innermost returns the blocks of the smallest natural loop containing b.
func innermost(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	fn := b.Parent()
	ls, ok := loopMemo[fn]
	if !ok {
		byHead := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, x := range fn.Blocks {
			for _, h := range x.Succs {
				if !h.Dominates(x) {
					continue
				}
				body := byHead[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					byHead[h] = body
					ls = append(ls, body)
				}
				st := []*ssa.BasicBlock{x}
				for len(st) > 0 {
					y := st[len(st)-1]
					st = st[:len(st)-1]
					if body[y] {
						continue
					}
					body[y] = true
					st = append(st, y.Preds...)
				}
			}
		}
		loopMemo[fn] = ls
	}
	var best map[*ssa.BasicBlock]bool
	for _, l := range ls {
		if l[b] && (best == nil || len(l) < len(best)) {
			best = l
		}
	}
	return best
}

var cycMemo = map[*ssa.BasicBlock]bool{}

func inCycle(b *ssa.BasicBlock) bool {
	if r, ok := cycMemo[b]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	st = append(st, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			cycMemo[b] = true
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	cycMemo[b] = false
	return false
}

// ---- rule: obligations along paths ----

// PathRule: whenever From happens (nil: at entry), Via must happen before Until (nil: before the root returns).
// Skip ends the obligation (branches on which it does not apply). Forbid must not happen while it is pending.
type PathRule struct {
	At     string // package: decided compositionally from the functions containing From (see climb)
	Root   *ssa.Function
	Go     *ssa.Go // the root runs as this goroutine: its parameters are what is passed here
	Arm    Pred    // From only counts after Arm happened
	From   Pred
	Via    Pred
	Skip   Pred
	Until  Pred
	Forbid Pred
	// Needs: if set, at least this many distinct instructions/edges must match From (or Via when From is nil).
	MinFrom, MinVia int
	What            string
	NoInline        func(fn *ssa.Function) bool
	MayPanic        func(c *Ctx, in ssa.Instruction) bool
	// AtPanic: a panic leaving the root is an exit, too.
	AtPanic  bool
	Optional bool // From need not occur
	Once     bool // only the first From counts
	Disarm   Pred // after this, From no longer counts
}

func (o *Obl) Path(r PathRule) {
	name := ""
	if r.Root != nil {
		name = fnName(r.Root)
	}
	var t trial
	if r.At != "" {
		t = o.climb(r.At, r.From, func(root *ssa.Function, g *ssa.Go, from Pred) trial {
			q := r
			q.Root, q.Go, q.From = root, g, from
			return o.ck.tryPath(q)
		})
		name = r.At
	} else {
		t = o.ck.tryPath(r)
	}
	if r.Optional && len(t.from) == 0 {
		o.record(trial{roots: t.roots})
		return
	}
	o.record(t)
	if r.From != nil && len(t.from) < max(r.MinFrom, 1) {
		o.Fail("nofrom", token.NoPos, nil, "%s: found %d constructs that start this obligation, expected at least %d: %s", name, len(t.from), max(r.MinFrom, 1), r.What)
	}
	if r.Via != nil && len(t.via) < max(r.MinVia, 1) {
		o.Fail("novia", token.NoPos, nil, "%s: found %d constructs that discharge this obligation, expected at least %d: %s", name, len(t.via), max(r.MinVia, 1), r.What)
	}
}

// trial is the outcome of a rule on one root.
type trial struct {
	viols     []*PathViol
	from, via map[ssa.Instruction]bool
	roots     []*ssa.Function
}

func (t *trial) merge(u trial) {
	if t.from == nil {
		t.from, t.via = map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	}
	t.viols = append(t.viols, u.viols...)
	for in := range u.from {
		t.from[in] = true
	}
	for in := range u.via {
		t.via[in] = true
	}
	t.roots = append(t.roots, u.roots...)
}

func (o *Obl) record(t trial) {
	for in := range t.from {
		o.Site(in)
	}
	for in := range t.via {
		o.Site(in)
	}
	for _, r := range t.roots {
		o.SiteName("root " + fnName(r))
	}
	for _, v := range t.viols {
		o.Fail(v.Key, v.Pos, v.Path, "%s", v.Msg)
	}
}

// climb decides a rule compositionally: it is tried with the function containing the triggering event as
// root; where it does not hold there, with every caller, up to the entry points of the package.
func (o *Obl) climb(rel string, trigger Pred, try func(root *ssa.Function, g *ssa.Go, trig Pred) trial) trial {
	ck := o.ck
	var all trial
	all.merge(trial{})
	ents := map[*ssa.Function][]Entry{}
	for _, e := range ck.P.entries(rel) {
		ents[e.Fn] = append(ents[e.Fn], e)
	}
	sites, own := ck.sitesOf(rel, trigger)
	for _, fn := range sites {
		site := fn
		trig := func(c *Ctx, ev *Event) bool { return c.S.F.fn == site && trigger(c, ev) }
		if !own {
			trig = trigger
		}
		seen := map[*ssa.Function]bool{}
		var attempt func(root *ssa.Function, d int)
		attempt = func(root *ssa.Function, d int) {
			if seen[root] {
				return
			}
			seen[root] = true
			var ups []*ssa.Function
			for _, ci := range ck.P.callersOf[root] {
				if _, isGo := ci.(*ssa.Go); !isGo {
					ups = append(ups, ci.Parent())
				}
			}
			es := ents[root]
			if par := root.Parent(); par != nil && len(es) == 0 {
				ups = append(ups, par)
			}
			if len(es) == 0 && (len(ups) == 0 || d > 8) {
				es = []Entry{{Fn: root}}
			}
			var t trial
			t.merge(try(root, nil, trig))
			if debugClimb {
				fmt.Fprintf(os.Stderr, "climb %s: %s: %d violations\n", fnName(fn), fnName(root), len(t.viols))
				for _, v := range t.viols {
					fmt.Fprintf(os.Stderr, "  %s\n", v.Msg)
					if d == 0 {
						for _, l := range v.Path {
							fmt.Fprintf(os.Stderr, "    %s\n", l)
						}
					}
				}
			}
			if len(t.viols) == 0 {
				all.merge(t)
				return
			}
			for _, e := range es {
				u := t
				if e.Go != nil {
					u = try(root, e.Go, trig)
				}
				all.merge(u)
			}
			for _, up := range ups {
				attempt(up, d+1)
			}
		}
		attempt(fn, 0)
	}
	return all
}

// sitesOf lists the functions in whose bodies an event can occur. If there are none, because what the event
// is about is only known in a caller, it lists the innermost functions in whose inlined form it occurs.
func (ck *Check) sitesOf(rel string, ev Pred) (sites []*ssa.Function, own bool) {
	var cand []*ssa.Function
	for _, fn := range ck.P.FuncsIn(rel) {
		if fn.Blocks == nil || fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "range-over-func") {
			continue
		}
		cand = append(cand, fn)
		if ck.ownEvent(fn, ev) {
			sites = append(sites, fn)
		}
	}
	if len(sites) > 0 {
		return sites, true
	}
	in := map[*ssa.Function]bool{}
	for _, fn := range cand {
		if ck.reaches(fn, ev) {
			in[fn] = true
		}
	}
	outer := map[*ssa.Function]bool{}
	for fn := range in {
		for _, ci := range ck.P.callersOf[fn] {
			if p := ci.Parent(); p != fn {
				outer[p] = true
			}
		}
		for p := fn.Parent(); p != nil; p = p.Parent() {
			outer[p] = true
		}
	}
	for _, fn := range cand {
		if in[fn] && !outer[fn] {
			sites = append(sites, fn)
		}
	}
	return sites, false
}

// ownEvent reports whether an event can occur in the body of fn itself.
func (ck *Check) ownEvent(fn *ssa.Function, p Pred) bool {
	found := false
	w := &Walker{P: ck.P, Root: fn, Init: 0, Interesting: func(ssa.Instruction) bool { return false }, NoInline: func(f *ssa.Function) bool { return len(f.Blocks) > 8 }}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		if found {
			c.Stop()
		} else if c.S.F.up == nil && p(c, ev) {
			found = true
		}
		return st
	}
	w.Run()
	return found
}

func (ck *Check) tryPath(r PathRule) trial {
	t := trial{from: map[ssa.Instruction]bool{}, via: map[ssa.Instruction]bool{}, roots: []*ssa.Function{r.Root}}
	init := 0
	if r.From == nil {
		init = 1
	}
	if r.Arm != nil {
		init = 2
	}
	discharged := 4 // like 0, but the same test again is not a new start
	if r.Once {
		discharged = 3
	}
	w := &Walker{P: ck.P, Root: r.Root, RootGo: r.Go, Init: init, NoInline: r.NoInline, MayPanic: r.MayPanic, Interesting: ck.interesting(r.Root)}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(int)
		if s == 2 {
			if r.Arm(c, ev) {
				s = 0
			}
			return s
		}
		if (s == 0 || s == 4) && r.Disarm != nil && r.Disarm(c, ev) {
			s = 3
		}
		// order matters: a skip or via on the same event as from
		if s == 1 {
			if r.Forbid != nil && r.Forbid(c, ev) {
				c.Violate("forbid", "%s: forbidden here: %s", fnName(r.Root), r.What)
			}
			if r.Via != nil && r.Via(c, ev) {
				t.via[ev.Instr] = true
				s = discharged
			} else if r.Skip != nil && r.Skip(c, ev) {
				s = discharged
			} else if r.Until != nil && r.Until(c, ev) || (r.Until == nil && ev.Kind == KExit) || r.AtPanic && ev.Kind == KPanicExit {
				c.Violate("path", "%s: %s", fnName(r.Root), r.What)
				s = 0
			}
		} else if r.Via != nil && len(t.via) < 50 && r.Via(c, ev) {
			t.via[ev.Instr] = true
		}
		if r.From != nil && r.From(c, ev) {
			t.from[ev.Instr] = true
			if s != 3 && !(s == 4 && ev.Known) {
				s = 1
			}
		}
		return s
	}
	t.viols = ck.walk(w)
	return t
}

// walk runs a walker and accounts for what it analysed.
func (ck *Check) walk(w *Walker) []*PathViol {
	if (ck.Opaque != "" || ck.Inside != "") && w.NoInline == nil {
		in := map[*ssa.Package]bool{}
		if ck.Inside != "" {
			for _, r := range strings.Split(ck.Inside, "|") {
				in[ck.P.pkg(r)] = true
			}
			in[fnPkg(w.Root)] = true
		}
		var opaque []string
		if ck.Opaque != "" {
			opaque = strings.Split(ck.Opaque, "|")
		}
		w.NoInline = func(f *ssa.Function) bool {
			return len(in) > 0 && !in[fnPkg(f)] || globAny(opaque, fnName(f))
		}
	}
	vs := w.Run()
	ck.States += w.NStates
	for in := range w.Nodes {
		ck.Funcs[fnName(in.Parent())] = true
	}
	for _, v := range vs {
		v.Key += "|" + fnName(w.Root)
	}
	return vs
}

func (o *Obl) runWalker(w *Walker) {
	o.record(trial{viols: o.ck.walk(w), roots: []*ssa.Function{w.Root}})
}

// GuardRule: Effect may happen only if every one of Needs happened before on the path, since the start
// or since the last Reset (Reset clears all needs; ResetN only need N).
type GuardRule struct {
	At        string // package: decided compositionally from the functions containing Effect (see climb)
	Root      *ssa.Function
	Go        *ssa.Go
	Effect    Pred
	Needs     []Pred
	Reset     Pred
	Free      Pred // once it happened, the effect needs nothing
	What      string
	MinEffect int
	NoInline  func(fn *ssa.Function) bool
	MayPanic  func(c *Ctx, in ssa.Instruction) bool
	Optional  bool // the effect need not exist
}

func (o *Obl) Guard(r GuardRule) {
	name := ""
	if r.Root != nil {
		name = fnName(r.Root)
	}
	var t trial
	if r.At != "" {
		t = o.climb(r.At, r.Effect, func(root *ssa.Function, g *ssa.Go, eff Pred) trial {
			q := r
			q.Root, q.Go, q.Effect = root, g, eff
			return o.ck.tryGuard(q)
		})
		name = r.At
	} else {
		t = o.ck.tryGuard(r)
	}
	o.record(t)
	if len(t.from) < max(r.MinEffect, 1) && !r.Optional {
		o.Fail("noeffect", token.NoPos, nil, "%s: found %d guarded constructs, expected at least %d: %s", name, len(t.from), max(r.MinEffect, 1), r.What)
	}
}

func (ck *Check) tryGuard(r GuardRule) trial {
	t := trial{from: map[ssa.Instruction]bool{}, via: map[ssa.Instruction]bool{}, roots: []*ssa.Function{r.Root}}
	full := 1<<len(r.Needs) - 1
	w := &Walker{P: ck.P, Root: r.Root, RootGo: r.Go, Init: 0, NoInline: r.NoInline, MayPanic: r.MayPanic, Interesting: ck.interesting(r.Root)}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(int)
		if r.Effect(c, ev) {
			t.from[ev.Instr] = true
			if s >= 0 && s != full {
				c.Violate("guard", "%s: %s", fnName(r.Root), r.What)
			}
		}
		if s < 0 || r.Free != nil && r.Free(c, ev) {
			return -1
		}
		if r.Reset != nil && r.Reset(c, ev) {
			s = 0
		}
		for i, n := range r.Needs {
			if s&(1<<i) == 0 && n(c, ev) {
				s |= 1 << i
			}
		}
		return s
	}
	t.viols = ck.walk(w)
	return t
}

// ForEach: in every iteration over Coll, Must happens unless Skip; and the iteration is not left before the
// collection is exhausted (unless Leave).
type ForEachRule struct {
	At        string // package: decided compositionally from the functions containing After (see climb)
	Reach     bool   // a loop must be completed after After (or the start) before Until (or the return)
	ReachSkip Pred
	Until     Pred
	Root      *ssa.Function
	Go        *ssa.Go
	Coll      []string
	Must      Pred
	Skip      Pred
	SkipAll   []Pred // an element may also be passed over when all of these happened in its iteration
	Leave     Pred
	Optional  bool
	After     Pred // only iterations after this event count (nil: all)
	What      string
	NoInline  func(fn *ssa.Function) bool
	MayPanic  func(c *Ctx, in ssa.Instruction) bool
}

const maxLoops = 4

type feLoop struct {
	id      int32
	pending bool
	left    bool // the function with the loop returned before the end of the loop
	all     uint8
}

type feState struct {
	active bool
	n      int
	loops  [maxLoops]feLoop
}

// ForEach decides the rule and returns the loops it applies to: those over the collection in which Must occurs.
func (o *Obl) ForEach(r ForEachRule) map[ssa.Instruction]bool {
	var t trial
	name := r.At
	if r.At != "" {
		t = o.climb(r.At, r.After, func(root *ssa.Function, g *ssa.Go, after Pred) trial {
			q := r
			q.Root, q.Go, q.After = root, g, after
			u := o.ck.tryForEach(q)
			if len(u.from) == 0 && len(u.viols) == 0 && !r.Optional {
				u.viols = append(u.viols, &PathViol{Key: "noloop|" + fnName(root), Pos: root.Pos(),
					Msg: fmt.Sprintf("%s: nothing is done for the elements of %s: %s", fnName(root), strings.Join(r.Coll, " or "), r.What)})
			}
			return u
		})
	} else {
		t = o.ck.tryForEach(r)
		name = fnName(r.Root)
	}
	o.record(t)
	if len(t.from) == 0 && !r.Optional {
		o.Fail("noloop|"+name, token.NoPos, nil, "%s: nothing is done for the elements of %s: %s", name, strings.Join(r.Coll, " or "), r.What)
	}
	return t.from
}

func (ck *Check) tryForEach(r ForEachRule) trial {
	type loopID struct {
		in ssa.Instruction
		f  *Frame
	}
	ids := map[loopID]int32{}
	var idIn []ssa.Instruction
	idOf := func(ev *Event, f *Frame) int32 {
		k := loopID{ev.Instr, f}
		if id, ok := ids[k]; ok {
			return id
		}
		ids[k] = int32(len(idIn))
		idIn = append(idIn, ev.Instr)
		return ids[k]
	}
	loops, qual := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	must := map[ssa.Instruction]bool{}
	w := &Walker{P: ck.P, Root: r.Root, RootGo: r.Go, Init: feState{active: r.After == nil}, NoInline: r.NoInline, MayPanic: r.MayPanic, Interesting: ck.interesting(r.Root)}
	it, dn := iter(r.Coll...), done(r.Coll...)
	full := uint8(1<<len(r.SkipAll) - 1)
	viol := func(c *Ctx, id int32, kind string) {
		what := "an element is passed over"
		if kind == "early" {
			what = "the iteration ends before all elements were visited"
		}
		c.Violate(fmt.Sprintf("%s@%d", kind, id), "%s: %s: %s", fnName(r.Root), what, r.What)
	}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(feState)
		if r.After != nil && !s.active {
			if r.After(c, ev) {
				s.active = true
			}
			return s
		}
		if s.n > 0 {
			m := r.Must(c, ev)
			if m {
				must[ev.Instr] = true
			}
			sk := !m && r.Skip != nil && r.Skip(c, ev)
			var alls uint8
			for i, p := range r.SkipAll {
				if p(c, ev) {
					alls |= 1 << i
				}
			}
			lv := r.Leave != nil && r.Leave(c, ev)
			for i := 0; i < s.n; i++ {
				l := &s.loops[i]
				if l.left {
					continue
				}
				if m {
					qual[idIn[l.id]] = true
				}
				l.all |= alls
				if m || sk || full != 0 && l.all == full {
					l.pending = false
				}
			}
			if lv {
				s.n, s.loops = 0, [maxLoops]feLoop{}
			}
		}
		end := func(i int, kind string) { // loop i and those inside it are over
			for j := i; j < s.n; j++ {
				l := s.loops[j]
				if l.pending {
					viol(c, l.id, "skipped")
				} else if kind == "early" || j > i || l.left {
					viol(c, l.id, "early")
				}
				s.loops[j] = feLoop{}
			}
			s.n = i
		}
		find := func(id int32) int {
			for i := 0; i < s.n; i++ {
				if s.loops[i].id == id {
					return i
				}
			}
			return -1
		}
		if it(c, ev) {
			loops[ev.Instr] = true
			if c.partialLoop(ev) {
				c.Violate(fmt.Sprintf("partial@%d", idOf(ev, c.S.F)), "%s: not every element is visited: %s", fnName(r.Root), r.What)
			}
			id := idOf(ev, c.S.F)
			if i := find(id); i >= 0 {
				end(i, "")
			}
			if s.n < maxLoops {
				s.loops[s.n] = feLoop{id: id, pending: true}
				s.n++
			}
			// the literal of the loop edge itself may be the reason to skip
		} else if dn(c, ev) {
			if i := find(idOf(ev, c.S.F)); i >= 0 {
				end(i, "")
			}
		}
		if (ev.Kind == KExit || ev.Kind == KPanicExit && r.MayPanic != nil) && s.n > 0 {
			end(0, "early")
		}
		if ev.Kind == KLeave {
			for i := 0; i < s.n; i++ {
				if k := s.loops[i].id; int(k) < len(idIn) {
					for l, id := range ids {
						if id == k && l.f == c.S.F {
							if r.Leave == nil {
								end(i, "early")
								break
							}
							for j := i; j < s.n; j++ {
								s.loops[j].left = true
							}
							break
						}
					}
				}
			}
		}
		return s
	}
	vs := ck.walk(w)
	var keep []*PathViol
	for _, v := range vs {
		var kind string
		var id int
		if n, _ := fmt.Sscanf(strings.ReplaceAll(strings.SplitN(v.Key, "|", 2)[0], "@", " "), "%s %d", &kind, &id); n == 2 {
			if !qual[idIn[id]] {
				continue
			}
			v.Key = kind + "|" + fnName(r.Root)
		}
		keep = append(keep, v)
	}
	t := trial{viols: keep, via: must, from: qual, roots: []*ssa.Function{r.Root}}
	if r.Reach && len(qual) > 0 && len(keep) == 0 {
		// the loop must be completed
		q := ck.tryPath(PathRule{Root: r.Root, Go: r.Go, From: r.After, Via: loopDone(qual, r.Coll...), Skip: anyOf(orNever(r.ReachSkip), orNever(r.Leave)), Until: r.Until,
			What: "the elements of " + strings.Join(r.Coll, " or ") + " are not all visited: " + r.What, NoInline: r.NoInline, MayPanic: r.MayPanic})
		t.viols = append(t.viols, q.viols...)
	}
	return t
}

func orNever(p Pred) Pred {
	if p == nil {
		return func(*Ctx, *Event) bool { return false }
	}
	return p
}

// loopDone matches the end of one of the given loops.
func loopDone(loops map[ssa.Instruction]bool, colls ...string) Pred {
	dn := done(colls...)
	em := empty(colls...)
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge {
			return false
		}
		if loops[ev.Instr] {
			return dn(c, ev)
		}
		// found empty before the loop
		return ev.Lit.Op == "eq" && em(c, ev)
	}
}

// interesting: instructions that make a callee worth inlining: everything observable except logging.
func (ck *Check) interesting(root *ssa.Function) func(in ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				return true
			case *ssa.IndexAddr:
				_, local := a.X.(*ssa.Alloc) // the arguments of a call
				return !local
			}
			return false
		case *ssa.MapUpdate, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Panic:
			return true
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case ssa.CallInstruction:
			cc := x.Common()
			if cc.IsInvoke() {
				return !isLogPkg(cc.Method.Pkg())
			}
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "close", "delete", "recover", "panic", "copy":
					return true
				}
				return false
			}
			fn := origin(cc.StaticCallee())
			if fn == nil {
				return true // dynamic call
			}
			if ck.P.inRepo[fn] {
				return false // decided by its own body
			}
			if o, ok := fn.Object().(*types.Func); ok && o.Pkg() != nil {
				switch o.Pkg().Path() {
				case "fmt", "strings", "strconv", "net/url", "errors", "bytes", "path", "path/filepath", "unicode", "sort", "github.com/pkg/errors":
					return false
				}
				if isLogPkg(o.Pkg()) {
					return false
				}
			}
			return true
		}
		return false
	}
}

func isLogPkg(p *types.Package) bool {
	return p != nil && strings.Contains(p.Path(), "sirupsen/logrus")
}

// ---- values ----

// flowElems lists the values a slice may contain as far as it is built by append/literals in view.
func (c *Ctx) flowElems(v Val) []Val {
	var out []Val
	seen := map[Val]bool{}
	var visit func(v Val, d int)
	raw := map[Val]int{}
	visit = func(v Val, d int) {
		if ph, ok := v.V.(*ssa.Phi); ok {
			// what a loop variable was before the value it has now: any of its edges
			if raw[v]++; raw[v] <= 2 && (raw[v] == 2 || seen[c.Resolve(v)]) {
				raw[v] = 2
				for _, e := range ph.Edges {
					visit(Val{v.F, e}, d+1)
				}
			}
		}
		v = c.Resolve(v)
		if seen[v] || d > 40 {
			return
		}
		seen[v] = true
		switch x := v.V.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(Val{v.F, e}, d+1)
			}
		case *ssa.Slice:
			visit(Val{v.F, x.X}, d+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					visit(Val{v.F, a}, d+1)
				}
				return
			}
			if c.W.P.callName(&x.Call) == "slices.Insert" || c.W.P.callName(&x.Call) == "slices.Concat" || c.W.P.callName(&x.Call) == "slices.Clone" {
				for _, a := range x.Call.Args {
					visit(Val{v.F, a}, d+1)
				}
				return
			}
			out = append(out, v)
		case *ssa.Alloc:
			// array literal: stores into its elements
			if x.Referrers() != nil {
				for _, r := range *x.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
								out = append(out, Val{v.F, st.Val})
							}
						}
					}
				}
			}
		default:
			out = append(out, v)
		}
	}
	visit(v, 0)
	return out
}

// listOp classifies what a store does to a list field: "append", "prepend", "delete", "clear", "same", "other".
func (c *Ctx) listOp(st *ssa.Store) (op string, added []Val) {
	addr := c.addrName(st.Addr)
	val := c.Resolve(Val{c.S.F, st.Val})
	switch x := val.V.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "clear", nil
		}
	case *ssa.Call:
		name := c.W.P.callName(&x.Call)
		switch name {
		case "append":
			a0 := c.Resolve(Val{val.F, x.Call.Args[0]})
			a1 := c.Resolve(Val{val.F, x.Call.Args[1]})
			s0, s1 := c.Str(a0), c.Str(a1)
			if _, isSl := a0.V.(*ssa.Slice); isSl && s0 == addr && s1 == addr {
				return "delete", nil
			}
			if s0 == addr && s1 != addr {
				if sl, isSl := a0.V.(*ssa.Slice); isSl && !c.wholeSlice(a0.F, sl, addr) {
					// elements are dropped before the new ones are appended
					return "other", append(c.flowElems(Val{val.F, x.Call.Args[1]}), a0)
				}
				return "append", c.flowElems(Val{val.F, x.Call.Args[1]})
			}
			if s1 == addr && s0 != addr {
				return "prepend", c.flowElems(Val{val.F, x.Call.Args[0]})
			}
		case "slices.Delete", "slices.DeleteFunc":
			return "delete", nil
		case "slices.Insert":
			if ci, ok := x.Call.Args[1].(*ssa.Const); ok && ci.Int64() == 0 {
				return "prepend", c.flowElems(Val{val.F, x.Call.Args[2]})
			}
			return "append", c.flowElems(Val{val.F, x.Call.Args[2]})
		}
	case *ssa.Slice:
		if c.Str(Val{val.F, x.X}) == addr {
			return "delete", nil
		}
		if n, ok := c.Resolve(Val{val.F, x.X}).V.(*ssa.Alloc); ok {
			_ = n
			return "other", c.flowElems(val)
		}
	}
	if c.Str(val) == addr {
		return "same", nil
	}
	return "other", c.flowElems(val)
}

// wholeSlice: the slice expression keeps every element of the list called name.
func (c *Ctx) wholeSlice(f *Frame, sl *ssa.Slice, name string) bool {
	if sl.Low != nil {
		if k, ok := c.Resolve(Val{f, sl.Low}).V.(*ssa.Const); !ok || k.Int64() != 0 {
			return false
		}
	}
	if sl.High == nil {
		return true
	}
	h := c.Str(Val{f, sl.High})
	return h == "len("+name+")" || h == "cap("+name+")"
}

// listStore matches a store to list field doing one of the operations.
func listStore(field string, ops ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		st, ok := ev.Instr.(*ssa.Store)
		if !ok || c.addrName(st.Addr) != field {
			return false
		}
		op, _ := c.listOp(st)
		for _, o := range ops {
			if o == op {
				return true
			}
		}
		return false
	}
}

// listAdd matches adding one element to a list, the element rendering as one of the patterns.
func listAdd(field string, pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if !listStore(field, "append", "prepend")(c, ev) {
			return false
		}
		_, added := c.listOp(ev.Instr.(*ssa.Store))
		for _, v := range added {
			if globAny(pats, c.Str(v)) {
				return true
			}
		}
		return false
	}
}

// closureCall is a call made by a closure, with its values bound to the frame that created it.
type closureCall struct {
	Call *ssa.CallCommon
	F    *Frame
	Fn   *ssa.Function
	In   ssa.Instruction
}

// closureCalls lists the calls a function value makes on every path (mustOnly) of its body.
func (c *Ctx) closureCalls(v Val, mustOnly bool) []closureCall {
	v = c.Resolve(v)
	t, ok := c.W.targetVal(c.S.env, v, nil)
	if !ok {
		// allow parameters
		switch x := v.V.(type) {
		case *ssa.MakeClosure:
			raw := x.Fn.(*ssa.Function)
			fn := c.W.P.unwrap(raw)
			if fn != origin(raw) {
				if obj, isF := raw.Object().(*types.Func); isF && len(x.Bindings) == 1 {
					_ = obj
				}
				// bound method of the repository or an interface method value
				f := &Frame{fn: raw, binds: []Val{{v.F, x.Bindings[0]}}, up: c.S.F, depth: c.S.F.depth + 1}
				return c.bodyCalls(raw, f, mustOnly)
			}
			var binds []Val
			for _, b := range x.Bindings {
				binds = append(binds, Val{v.F, b})
			}
			f := &Frame{fn: raw, binds: binds, up: c.S.F, depth: c.S.F.depth + 1}
			return c.bodyCalls(raw, f, mustOnly)
		}
		return nil
	}
	f := &Frame{fn: t.fn, binds: t.binds, args: t.args, up: c.S.F, depth: c.S.F.depth + 1}
	return c.bodyCalls(t.fn, f, mustOnly)
}

func (c *Ctx) bodyCalls(fn *ssa.Function, f *Frame, mustOnly bool) []closureCall {
	var out []closureCall
	if fn.Blocks == nil {
		return nil
	}
	for _, b := range fn.Blocks {
		if mustOnly && !postdominates(b, fn) {
			continue
		}
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				out = append(out, closureCall{&call.Call, f, fn, in})
				if t, ok := c.W.target(c.S.env, f, &call.Call); ok && f.depth < c.S.F.depth+4 {
					g := &Frame{fn: t.fn, binds: t.binds, args: t.args, up: f, depth: f.depth + 1}
					out = append(out, c.bodyCalls(t.fn, g, mustOnly)...)
				}
			}
		}
	}
	return out
}

// postdominates: every path from the entry to a return passes b.
func postdominates(b *ssa.BasicBlock, fn *ssa.Function) bool {
	if b == fn.Blocks[0] {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	st := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if len(x.Instrs) > 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
				return false
			}
		}
		st = append(st, x.Succs...)
	}
	return true
}

// makesClosure matches the creation of a closure that calls one of the named callees on every path, with
// optional further conditions on that call.
func makesClosure(names []string, cond func(c *Ctx, cc closureCall) bool) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		mc, ok := ev.Instr.(*ssa.MakeClosure)
		if !ok {
			return false
		}
		for _, cc := range c.closureCalls(Val{c.S.F, mc}, true) {
			if c.W.P.calleeIs(cc.Call, names) && (cond == nil || cond(c, cc)) {
				return true
			}
		}
		return false
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- further predicates ----

// litField matches a branch on a boolean field of a particular object: litField("S[last]", "T.f", true).
func litField(base, field string, want bool) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge || ev.Lit.Op != "true" || ev.Lit.Truth != want {
			return false
		}
		v := c.Resolve(ev.Lit.X)
		ld, ok := v.V.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		fa := c.Resolve(Val{v.F, ld.X})
		t, f, b, ok := fieldOf(fa.V)
		return ok && t+"."+f == field && glob(base, c.Str(Val{fa.F, b}))
	}
}

// recvFrom matches receiving from a channel that renders as one of the patterns, directly or in a select.
func recvFrom(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind == KInstr {
			if u, ok := ev.Instr.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return globAny(pats, c.StrV(u.X))
			}
			return false
		}
		ch, _, ok := c.selectCase(ev)
		return ok && globAny(pats, ch)
	}
}

// selectCase: the channel of the select case taken by a branch edge.
func (c *Ctx) selectCase(ev *Event) (ch string, dir types.ChanDir, ok bool) {
	if ev.Kind != KEdge || ev.Lit.Op != "eq" {
		return "", 0, false
	}
	x, y := ev.Lit.X, ev.Lit.Y
	if _, isC := x.V.(*ssa.Const); isC {
		x, y = y, x
	}
	ex, isE := c.Resolve(x).V.(*ssa.Extract)
	k, isC := y.V.(*ssa.Const)
	if !isE || !isC || ex.Index != 0 {
		return "", 0, false
	}
	sel, isS := ex.Tuple.(*ssa.Select)
	if !isS {
		return "", 0, false
	}
	i := int(k.Int64())
	if ev.Lit.Truth {
		if i < 0 || i >= len(sel.States) {
			return "", 0, false
		}
		return c.Str(Val{c.Resolve(x).F, sel.States[i].Chan}), sel.States[i].Dir, true
	}
	// the last case is reached when no other matches, where it is not compared for
	if sel.Blocking && i == len(sel.States)-2 {
		i++
		for _, r := range *ex.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && b.Op == token.EQL {
				if k, ok := b.Y.(*ssa.Const); ok && int(k.Int64()) == i {
					return "", 0, false
				}
			}
		}
		return c.Str(Val{c.Resolve(x).F, sel.States[i].Chan}), sel.States[i].Dir, true
	}
	return "", 0, false
}

// adds matches adding an element that renders as one of the patterns to a list (append or literal).
func adds(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		switch x := ev.Instr.(type) {
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				return !sameSlot(ia) && globAny(pats, c.StrV(x.Val))
			}
		}
		return false
	}
}

// sameSlot: every iteration of the loop around it addresses the same element of a list made before the loop.
func sameSlot(ia *ssa.IndexAddr) bool {
	l := innermost(ia.Block())
	if l == nil {
		return false
	}
	varies := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l[in.Block()]
	}
	base := ia.X
	for {
		switch x := base.(type) {
		case *ssa.Slice:
			if x.Low != nil && varies(x.Low) {
				return false
			}
			base = x.X
			continue
		case *ssa.UnOp:
			// a list kept in a variable: replaced in the loop, or by another function?
			if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a && l[st.Block()] {
						return false
					}
				}
				base = x.X
				continue
			}
		}
		break
	}
	return !varies(base) && !varies(ia.Index)
}

// goCall matches starting a goroutine running one of the named functions ("" any).
func goCall(names ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		g, ok := ev.Instr.(*ssa.Go)
		return ok && (len(names) == 0 || c.W.P.calleeIs(&g.Call, names))
	}
}

// forbid fails when the event occurs anywhere under root.
func (o *Obl) Never(root *ssa.Function, ev Pred, what string) {
	w := &Walker{P: o.ck.P, Root: root, Init: 0, Interesting: o.ck.interesting(root)}
	w.Mon = func(c *Ctx, e *Event, st any) any {
		if ev(c, e) {
			c.Violate("never", "%s: %s", fnName(root), what)
		}
		return st
	}
	o.runWalker(w)
}

// NeverG is Never for a goroutine, or with calls that may panic.
func (o *Obl) NeverG(root *ssa.Function, g *ssa.Go, ev Pred, mayPanic func(c *Ctx, in ssa.Instruction) bool, what string) {
	w := &Walker{P: o.ck.P, Root: root, RootGo: g, Init: 0, MayPanic: mayPanic, Interesting: o.ck.interesting(root)}
	w.Mon = func(c *Ctx, e *Event, st any) any {
		if ev(c, e) {
			c.Violate("never", "%s: %s", fnName(root), what)
		}
		return st
	}
	o.runWalker(w)
}

// Or passes when one of the alternatives does; otherwise the first one's violations are reported.
func (o *Obl) Or(alts ...func(o *Obl)) {
	var first *Obl
	for _, f := range alts {
		q := &Obl{ck: o.ck, ID: o.ID, Text: o.Text, Sites: map[string]bool{}}
		f(q)
		if len(q.Fails) == 0 {
			for s := range q.Sites {
				o.Sites[s] = true
			}
			return
		}
		if first == nil {
			first = q
		}
	}
	for s := range first.Sites {
		o.Sites[s] = true
	}
	for _, f := range first.Fails {
		o.Fails = append(o.Fails, f)
	}
}

// NeverIn fails when the event occurs in the body of a function of the package, seen on its own.
func (o *Obl) NeverIn(rel string, ev Pred, what string) {
	for _, fn := range o.ck.P.FuncsIn(rel) {
		if fn.Blocks == nil {
			continue
		}
		w := &Walker{P: o.ck.P, Root: fn, Init: 0, Interesting: func(ssa.Instruction) bool { return false }, NoInline: func(f *ssa.Function) bool { return len(f.Blocks) > 8 }}
		w.Mon = func(c *Ctx, e *Event, st any) any {
			if c.S.F.up == nil && ev(c, e) {
				c.Violate("never", "%s: %s", fnName(fn), what)
			}
			return st
		}
		o.record(trial{viols: o.ck.walk(w)})
	}
	o.SiteName("package " + rel)
}

// funcsWith lists the functions in whose own body an event may occur.
func (ck *Check) funcsWith(rel string, ev Pred) []*ssa.Function {
	out, _ := ck.sitesOf(rel, ev)
	return out
}

// entriesReaching lists the entry points of the package from which a function containing the event is
// called, through static calls and enclosed function literals.
func (ck *Check) entriesReaching(rel string, ev Pred) []Entry {
	reach := map[*ssa.Function]bool{}
	work := ck.funcsWith(rel, ev)
	ents := map[*ssa.Function][]Entry{}
	for _, e := range ck.P.entries(rel) {
		ents[e.Fn] = append(ents[e.Fn], e)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if reach[f] {
			continue
		}
		reach[f] = true
		for _, ci := range ck.P.callersOf[f] {
			if _, isGo := ci.(*ssa.Go); !isGo {
				work = append(work, ci.Parent())
			}
		}
		if f.Parent() != nil && len(ents[f]) == 0 {
			work = append(work, f.Parent())
		}
	}
	var out []Entry
	for _, e := range ck.P.entries(rel) {
		if reach[e.Fn] {
			out = append(out, e)
		}
	}
	return out
}

// inFrame restricts an event to the body of the function the walk started in.
func inRoot(p Pred) Pred {
	return func(c *Ctx, ev *Event) bool { return c.S.F.up == nil && p(c, ev) }
}

// loads matches reading a field or element that renders as one of the patterns.
func loads(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		u, ok := ev.Instr.(*ssa.UnOp)
		return ok && u.Op == token.MUL && globAny(pats, c.addrName(u.X))
	}
}

// selectDefault matches taking the default case of a select that offers the channel.
func selectDefault(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge || ev.Lit.Op != "eq" || ev.Lit.Truth {
			return false
		}
		x, y := c.Resolve(ev.Lit.X), ev.Lit.Y
		if _, isC := x.V.(*ssa.Const); isC {
			x, y = y, x
		}
		ex, isE := x.V.(*ssa.Extract)
		k, isC := y.V.(*ssa.Const)
		if !isE || !isC || ex.Index != 0 {
			return false
		}
		sel, isS := ex.Tuple.(*ssa.Select)
		if !isS || sel.Blocking || int(k.Int64()) != len(sel.States)-1 {
			return false
		}
		for _, st := range sel.States {
			if globAny(pats, c.Str(Val{x.F, st.Chan})) {
				return true
			}
		}
		return false
	}
}

// known evaluates a boolean on the current path.
func (c *Ctx) known(v Val) (val, ok bool) {
	r := c.W.evalCond(c.S.env, v)
	return r.val, r.known
}

// Watch decides a custom monitor compositionally: init is its first state; step returns the next one and
// reports through c.Violate. trigger is what the functions it starts from contain.
func (o *Obl) Watch(rel string, trigger Pred, init any, step func(c *Ctx, ev *Event, st any, hit bool) any) {
	t := o.climb(rel, trigger, func(root *ssa.Function, g *ssa.Go, trig Pred) trial {
		u := trial{from: map[ssa.Instruction]bool{}, roots: []*ssa.Function{root}}
		w := &Walker{P: o.ck.P, Root: root, RootGo: g, Init: init, Interesting: o.ck.interesting(root)}
		w.Mon = func(c *Ctx, ev *Event, st any) any {
			hit := trig(c, ev)
			if hit {
				u.from[ev.Instr] = true
			}
			return step(c, ev, st, hit)
		}
		u.viols = o.ck.walk(w)
		return u
	})
	o.record(t)
}

// sends matches sending on a channel, also as a case of a select (whether or not it is taken).
func sends(pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		switch x := ev.Instr.(type) {
		case *ssa.Send:
			return globAny(pats, c.StrV(x.Chan))
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.SendOnly && globAny(pats, c.StrV(st.Chan)) {
					return true
				}
			}
		}
		return false
	}
}

// locks and unlocks match taking and releasing a mutex.
func locks(pats string) Pred {
	return callArgs("Mutex.Lock|RWMutex.Lock|RWMutex.RLock", pats)
}

func unlocks(pats string) Pred {
	return callArgs("Mutex.Unlock|RWMutex.Unlock|RWMutex.RUnlock", pats)
}

func fieldSet(fs ...string) map[string]bool {
	m := map[string]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return m
}

// retErr: the root returns an error that is (possibly) not nil; retOK: one that may be nil.
func retErr(c *Ctx, ev *Event) bool {
	return ev.Kind == KExit && len(ev.Results) > 0 && c.W.nilness(c.S.env, ev.Results[len(ev.Results)-1]) != 1
}

func retOK(c *Ctx, ev *Event) bool {
	return ev.Kind == KExit && len(ev.Results) > 0 && c.W.nilness(c.S.env, ev.Results[len(ev.Results)-1]) != 2
}

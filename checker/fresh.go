package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Fields of objects allocated on the path are known until other code may have changed them.

func (w *Walker) dropFresh(e *envT, match func(k envKey) bool) *envT {
	return w.filter(e, func(k envKey) bool { return k.kind != 4 || !match(k) })
}

// clobber forgets what is known of the fresh objects that others can reach.
func (w *Walker) clobber(s *State) {
	s.env = w.dropFresh(s.env, func(k envKey) bool {
		_, esc := w.get(s.env, envKey{F: k.F, V: k.V, Idx: -2, kind: 4})
		return esc
	})
}

func (w *Walker) escapes(s *State, v ssa.Value) {
	r := w.Resolve(s.env, Val{s.F, v})
	if a, ok := r.V.(*ssa.Alloc); ok {
		if _, ok := w.get(s.env, envKey{F: r.F, V: a, Idx: -1, kind: 4}); ok {
			s.env = w.set(s.env, envKey{F: r.F, V: a, Idx: -2, kind: 4}, Val{nil, litTrueV})
		}
	}
}

func (w *Walker) escapesCall(s *State, c *ssa.CallCommon) {
	if c.IsInvoke() {
		w.escapes(s, c.Value)
	}
	for _, a := range c.Args {
		w.escapes(s, a)
	}
}

func (w *Walker) freshField(e *envT, addr Val) (*ssa.Alloc, *Frame, int, bool) {
	fa, ok := addr.V.(*ssa.FieldAddr)
	if !ok {
		return nil, nil, 0, false
	}
	b := w.Resolve(e, Val{addr.F, fa.X})
	a, ok := b.V.(*ssa.Alloc)
	if !ok {
		return nil, nil, 0, false
	}
	if _, ok := w.get(e, envKey{F: b.F, V: a, Idx: -1, kind: 4}); !ok {
		return nil, nil, 0, false
	}
	return a, b.F, fa.Field, true
}

func (w *Walker) storeFresh(s *State, x *ssa.Store) {
	if _, _, ok := w.cellOf(s.env, Val{s.F, x.Addr}); !ok {
		w.escapes(s, x.Val)
	}
	addr := w.Resolve(s.env, Val{s.F, x.Addr})
	fa, ok := addr.V.(*ssa.FieldAddr)
	if !ok {
		return
	}
	if a, f, i, ok := w.freshField(s.env, addr); ok {
		s.env = w.set(s.env, envKey{F: f, V: a, Idx: i, kind: 4}, w.resolveKeepIface(s.env, Val{s.F, x.Val}))
		return
	}
	// may be an alias of a fresh object of the same type
	t := fa.X.Type()
	s.env = w.dropFresh(s.env, func(k envKey) bool { return types.Identical(k.V.(*ssa.Alloc).Type(), t) })
}

func (w *Walker) loadFresh(s *State, x *ssa.UnOp) {
	addr := w.Resolve(s.env, Val{s.F, x.X})
	a, f, i, ok := w.freshField(s.env, addr)
	if !ok {
		return
	}
	v, ok := w.get(s.env, envKey{F: f, V: a, Idx: i, kind: 4})
	if !ok {
		switch x.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return
		}
		v = Val{nil, zeroConst(x.Type())}
	}
	s.env = w.set(s.env, envKey{F: s.F, V: x, kind: 5}, v)
}

// clobbers: the call may let other code change objects created on this path.
func (w *Walker) clobbers(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return !isLogPkg(c.Method.Pkg())
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	fn := w.P.unwrap(c.StaticCallee())
	if fn == nil || w.P.inRepo[fn] {
		return true
	}
	switch w.P.callName(c) {
	case "Mutex.Unlock", "RWMutex.Unlock", "RWMutex.RUnlock", "Cond.Wait", "Broadcast.HoldLock":
		return true
	}
	return false
}

// known5 is the value a load from a fresh object produced.
func (w *Walker) known5(e *envT, v Val) (Val, bool) {
	if u, ok := v.V.(*ssa.UnOp); ok && u.Op == token.MUL {
		return w.get(e, envKey{F: v.F, V: u, kind: 5})
	}
	return Val{}, false
}

const maxInt = math.MaxInt64

// bounds of an integer value as far as they follow from lengths of slices built on the path.
func (w *Walker) bounds(e *envT, v Val, d int, seen map[Val]bool) (lo, hi int64, ok bool) {
	if d > 6 {
		return 0, 0, false
	}
	if ph, ok := v.V.(*ssa.Phi); ok && seen[v] {
		// a counter: constants and additions only
		if lo, ok := phiLow(ph, map[ssa.Value]bool{}); ok {
			return lo, maxInt, true
		}
	}
	if seen == nil {
		seen = map[Val]bool{}
	}
	if _, ok := v.V.(*ssa.Phi); ok {
		seen[v] = true
	}
	v = w.Resolve(e, v)
	switch x := v.V.(type) {
	case *ssa.Phi:
		if lo, ok := phiLow(x, map[ssa.Value]bool{}); ok {
			return lo, maxInt, true
		}
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			n := x.Int64()
			return n, n, true
		}
	case *ssa.Call:
		if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
			lo, hi = w.lenBounds(e, Val{v.F, x.Call.Args[0]}, d+1, map[Val]bool{})
			return lo, hi, true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			al, ah, ok1 := w.bounds(e, Val{v.F, x.X}, d+1, seen)
			bl, bh, ok2 := w.bounds(e, Val{v.F, x.Y}, d+1, seen)
			if ok1 && ok2 {
				return al + bl, satAdd(ah, bh), true
			}
		}
	case *ssa.UnOp:
		if k, ok := w.known5(e, v); ok {
			return w.bounds(e, k, d+1, seen)
		}
	}
	return 0, 0, false
}

func satAdd(a, b int64) int64 {
	if a == maxInt || b == maxInt {
		return maxInt
	}
	return a + b
}

func (w *Walker) lenBounds(e *envT, v Val, d int, seen map[Val]bool) (lo, hi int64) {
	v = w.Resolve(e, v)
	if d > 12 || seen[v] {
		return 0, maxInt
	}
	seen[v] = true
	switch x := v.V.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return 0, 0
		}
		if x.Value != nil && x.Value.Kind() == constant.String {
			n := int64(len(constant.StringVal(x.Value)))
			return n, n
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			al, ah := w.lenBounds(e, Val{v.F, x.Call.Args[0]}, d+1, seen)
			bl, bh := w.lenBounds(e, Val{v.F, x.Call.Args[1]}, d+1, seen)
			return al + bl, satAdd(ah, bh)
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := p.Elem().Underlying().(*types.Array); ok {
					return arr.Len(), arr.Len()
				}
			}
			return w.lenBounds(e, Val{v.F, x.X}, d+1, seen)
		}
		if x.Low == nil && x.High != nil {
			if lo, hi, ok := w.bounds(e, Val{v.F, x.High}, d+1, nil); ok {
				return lo, hi
			}
		}
	case *ssa.MakeSlice:
		if lo, hi, ok := w.bounds(e, Val{v.F, x.Len}, d+1, nil); ok {
			return lo, hi
		}
	case *ssa.UnOp:
		if k, ok := w.known5(e, v); ok {
			return w.lenBounds(e, k, d+1, seen)
		}
	}
	return 0, maxInt
}

// freshAtomic models the atomic booleans of fresh objects.
func (w *Walker) freshAtomic(s *State, x *ssa.Call) {
	name := w.P.callName(&x.Call)
	switch name {
	case "Bool.Load", "Bool.Store", "Bool.Swap":
	default:
		return
	}
	a, f, i, ok := w.freshField(s.env, w.Resolve(s.env, Val{s.F, x.Call.Args[0]}))
	if !ok {
		return
	}
	k := envKey{F: f, V: a, Idx: i, kind: 4}
	old, ok := w.get(s.env, k)
	if !ok {
		old = Val{nil, litFalseV}
	}
	if name != "Bool.Load" {
		s.env = w.set(s.env, k, w.Resolve(s.env, Val{s.F, x.Call.Args[1]}))
	}
	if name != "Bool.Store" && phiUsed(x) {
		s.env = w.set(s.env, envKey{F: s.F, V: ssa.Value(x)}, old)
	}
}

// phiLow: the least value of a counter that starts from constants and is only added to.
func phiLow(v ssa.Value, seen map[ssa.Value]bool) (int64, bool) {
	if seen[v] {
		return maxInt, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return x.Int64(), true
		}
	case *ssa.Phi:
		lo := int64(maxInt)
		for _, e := range x.Edges {
			l, ok := phiLow(e, seen)
			if !ok {
				return 0, false
			}
			lo = min(lo, l)
		}
		return lo, true
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, ok1 := phiLow(x.X, seen)
			b, ok2 := phiLow(x.Y, map[ssa.Value]bool{})
			if ok1 && ok2 && b >= 0 {
				return a, true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return 0, true
		}
	}
	return 0, false
}

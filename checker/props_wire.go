package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The encoders, decoders, copies and comparisons of the wire messages.

type wireField struct {
	m          *wireMsg
	v          *types.Var
	F          string // how the field renders
	kind       string // string, bytes, bool, uint, enum, msg, msgs, strings, map
	elem       string // the message or enumeration type it holds
	num        int
	wt         int64
	name, json string
}

type wireMsg struct {
	rel, name string
	self      string
	fields    []*wireField
	entry     bool // the synthetic entry of a map: JSON only
}

func wireKind(t types.Type) (kind, elem string) {
	isMsg := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		_, ok = p.Elem().Underlying().(*types.Struct)
		return ok
	}
	switch x := t.(type) {
	case *types.Pointer:
		if isMsg(x) {
			return "msg", typeName(x)
		}
	case *types.Slice:
		switch {
		case isMsg(x.Elem()):
			return "msgs", typeName(x.Elem())
		case typeName(x.Elem()) == "string":
			return "strings", ""
		case typeName(x.Elem()) == "byte" || typeName(x.Elem()) == "uint8":
			return "bytes", ""
		}
	case *types.Map:
		if isMsg(x.Elem()) && typeName(x.Key()) == "string" {
			return "map", typeName(x.Elem())
		}
	case *types.Named:
		if b, ok := x.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return "enum", typeName(x)
		}
	case *types.Basic:
		switch x.Kind() {
		case types.String:
			return "string", ""
		case types.Bool:
			return "bool", ""
		case types.Uint32, types.Uint64, types.Int32, types.Int64:
			return "uint", ""
		}
	}
	return "", ""
}

// wireMsgs lists the messages: structs with protobuf field tags.
func (p *Prog) wireMsgs() (out []*wireMsg, unknown []string) {
	for path, sp := range p.pkgs {
		if path != modPath && !strings.HasPrefix(path, modPath+"/") {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := &wireMsg{rel: rel, name: n, self: "<" + n + ">", entry: strings.HasSuffix(n, "Entry") && strings.Contains(n, "_")}
			for i := 0; i < st.NumFields(); i++ {
				tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
				if tag == "" {
					continue
				}
				f := &wireField{m: m, v: st.Field(i), F: n + "." + st.Field(i).Name()}
				f.kind, f.elem = wireKind(st.Field(i).Type())
				for j, s := range strings.Split(tag, ",") {
					switch {
					case j == 0 && s == "bytes":
						f.wt = 2
					case j == 1:
						f.num, _ = strconv.Atoi(s)
					case strings.HasPrefix(s, "name="):
						f.name = s[5:]
					case strings.HasPrefix(s, "json="):
						f.json = s[5:]
					}
				}
				if f.json == "" {
					f.json = f.name
				}
				if f.kind == "" {
					unknown = append(unknown, m.rel+": "+f.F)
					continue
				}
				m.fields = append(m.fields, f)
			}
			if len(m.fields) > 0 || p.MethodOpt(m.rel, n, "MarshalToSizedBufferVT") != nil {
				out = append(out, m)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].rel+out[i].name < out[j].rel+out[j].name })
	return
}

// absent: branches on which the field has nothing to carry.
func (f *wireField) absent() []string {
	switch f.kind {
	case "bool":
		return []string{"!" + f.F}
	case "uint", "enum":
		return []string{f.F + "==0", "0==" + f.F, "!0<" + f.F}
	case "msg":
		return []string{f.F + "==nil"}
	}
	return []string{f.F + "==nil", "len(" + f.F + ")==0", "\"\"==" + f.F}
}

func (f *wireField) list() bool { return f.kind == "msgs" || f.kind == "strings" || f.kind == "map" }

// elems: how an element of a collection renders.
func (f *wireField) elems() string { return f.F + "[]|" + f.F + "[key(" + f.F + ")]|" + f.F + "[rev]" }

// some: from here on the message is not nil.
func (m *wireMsg) some(c *Ctx, ev *Event) bool { return lit("!"+m.self+"==nil")(c, ev) }

// visited: the elements are gone through on every path on which there are any.
func (f *wireField) visited(o *Obl, fn *ssa.Function, what string) {
	skip := lit(f.absent()...)
	if r := fn.Signature.Results(); r.Len() > 0 && typeName(r.At(r.Len()-1).Type()) == "error" {
		skip = anyOf(skip, allOf(isExit, retErr))
	}
	o.Path(PathRule{Root: fn, From: f.m.some, Via: anyOf(iter(f.F), done(f.F), empty(f.F)), Skip: skip, What: what})
}

const wireOpaque = "*).CloneVT|*).EqualVT|*).SizeVT|*).MarshalToSizedBufferVT|*).MarshalVT|*).UnmarshalVT|*).MarshalProtoJSON|*).UnmarshalProtoJSON|*).MarshalJSON|*).UnmarshalJSON"

func checkS02(ck *Check) {
	p := ck.P
	msgs, unknown := p.wireMsgs()
	var rels []string
	seen := map[string]bool{}
	for _, m := range msgs {
		if !seen[m.rel] {
			seen[m.rel] = true
			rels = append(rels, m.rel)
		}
	}
	ck.Inside, ck.Opaque = strings.Join(rels, "|"), wireOpaque
	defer func() { ck.Inside, ck.Opaque = "", "" }()
	each := func(o *Obl, method string, f func(m *wireMsg, fn *ssa.Function)) {
		n := 0
		for _, m := range msgs {
			fn := p.MethodOpt(m.rel, m.name, method)
			if fn == nil || fn.Blocks == nil {
				if !m.entry {
					o.Fail("nomethod|"+m.name+"|"+method, p.Named(m.rel, m.name).Obj().Pos(), nil, "%s.%s has no %s", m.rel, m.name, method)
				}
				continue
			}
			n++
			o.SiteName(fnName(fn))
			f(m, fn)
		}
		if n == 0 {
			anchorFail("no message has a method %s", method)
		}
	}
	ck.Do("schema", "the messages have exactly the fields of their .proto definitions, under their numbers and names", func(o *Obl) {
		for _, u := range unknown {
			o.Fail("kind|"+u, 0, nil, "%s: a field of a kind this check does not know", u)
		}
		wireSchema(o, msgs, rels)
	})
	ck.Do("clone", "a clone has every field of the original and shares no memory with it", func(o *Obl) {
		each(o, "CloneVT", func(m *wireMsg, fn *ssa.Function) {
			o.Path(PathRule{Root: fn, From: m.some, Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "new "+m.name }), What: "what is returned is not a new message"})
			fs := append([]*wireField{}, m.fields...)
			fs = append(fs, &wireField{m: m, F: m.name + ".unknownFields", kind: "bytes"})
			for _, f := range fs {
				what := "the clone lacks " + f.F
				rule := func(via Pred) {
					o.Path(PathRule{Root: fn, From: m.some, Via: via, Skip: lit(f.absent()...), What: what})
				}
				alias := func(c *Ctx, ev *Event) bool {
					st, ok := ev.Instr.(*ssa.Store)
					return ok && storeTo(f.F, f.F)(c, ev) && !freshMem(c, Val{c.S.F, st.Val})
				}
				copied := anyOf(callArgs("copy", f.F+"|makeslice", f.F), storeTo(f.F, "bytes.Clone("+f.F+")", "slices.Clone("+f.F+")"), func(c *Ctx, ev *Event) bool {
					// all of it is appended to new memory
					if !storeTo(f.F)(c, ev) {
						return false
					}
					v := c.Resolve(c.Val(ev.Instr.(*ssa.Store).Val))
					call, ok := v.V.(*ssa.Call)
					if !ok {
						return false
					}
					b, ok := call.Call.Value.(*ssa.Builtin)
					return ok && b.Name() == "append" && c.Str(Val{v.F, call.Call.Args[1]}) == f.F && replaces(c, ev.Instr.(*ssa.Store))
				})
				switch f.kind {
				case "string", "bool", "uint", "enum":
					rule(storeTo(f.F, f.F))
					o.Never(fn, allOf(storeTo(f.F), notP(storeTo(f.F, f.F))), "another value is cloned into "+f.F)
				case "msg":
					v := f.elem + ".CloneVT(" + f.F + ")"
					rule(storeTo(f.F, v))
					o.Never(fn, allOf(storeTo(f.F), notP(storeTo(f.F, v, "nil"))), "another value is cloned into "+f.F)
				case "bytes", "strings":
					rule(storeTo(f.F))
					rule(copied)
					o.Never(fn, alias, "the clone shares "+f.F+" with the original")
				case "msgs":
					rule(storeTo(f.F, "makeslice*", f.F))
					o.Never(fn, alias, "the clone shares "+f.F+" with the original")
					v := f.elem + ".CloneVT(" + f.F + "[])"
					f.visited(o, fn, what)
					o.ForEach(ForEachRule{Root: fn, Coll: []string{f.F}, Must: adds(v), Skip: lit(f.F + "[]==nil"), What: "an element is not cloned: " + f.F})
					o.Never(fn, adds(f.F+"[]"), "the clone shares an element of "+f.F)
				case "map":
					rule(storeTo(f.F, "makemap*"))
					o.Never(fn, allOf(storeTo(f.F), notP(storeTo(f.F, "makemap*", "nil"))), "the clone shares "+f.F+" with the original")
					v := f.elem + ".CloneVT(" + f.F + "[*"
					put := anyOf(mapPut("makemap*", "key("+f.F+")", v), mapPut(f.F, "key("+f.F+")", v))
					f.visited(o, fn, what)
					o.ForEach(ForEachRule{Root: fn, Coll: []string{f.F}, Must: put, What: "an entry is not cloned: " + f.F})
					o.Never(fn, allOf(mapPut("*", "*", "*"), notP(put)), "something else than the clone of an entry is put into the map: "+f.F)
				}
			}
		})
	})
	ck.Do("equal", "two messages are equal exactly if all their fields are", func(o *Obl) {
		each(o, "EqualVT", func(m *wireMsg, fn *ssa.Function) {
			same := fact("<"+m.name+"#2>==<"+m.name+">", "<"+m.name+">==<"+m.name+"#2>")
			that := "<" + m.name + "#2>"
			for _, x := range [][2]string{{m.self, that}, {that, m.self}} {
				isFalse := exitWith(func(c *Ctx, r []Val) bool {
					v, ok := c.known(r[0])
					return ok && !v || glob("*"+x[1]+"==nil*", c.Str(r[0])) || glob("*"+m.self+"==*", c.Str(r[0])) || glob("*"+that+"==*", c.Str(r[0]))
				})
				o.Path(PathRule{Root: fn, From: lit(x[0] + "==nil"), Via: isFalse, Skip: lit(x[1]+"==nil", m.self+"=="+that, that+"=="+m.self), Optional: true, What: "a message equals nil"})
			}
			differ := []string{"!*.EqualVT(*)", "!has(*)", "!" + m.name + ".unknownFields==" + m.name + ".unknownFields", "!bytes.Equal(*)", m.self + "==nil", "<" + m.name + "#2>==nil", "!<*>==<*>"}
			fs := append([]*wireField{}, m.fields...)
			fs = append(fs, &wireField{m: m, F: m.name + ".unknownFields", kind: "bytes"})
			for _, f := range fs {
				what := "messages are equal although they may differ in " + f.F
				fe := f.F + "==" + f.F
				differ = append(differ, "!"+fe)
				switch f.kind {
				case "msg":
					eq := f.elem + ".EqualVT(" + f.F + "," + f.F + ")"
					o.TrueOnlyIf(fn, what, orNeed(same, fact(fe, eq)))
				case "msgs", "strings", "map":
					l := "len(" + f.F + ")==len(" + f.F + ")"
					differ = append(differ, "!"+l, "!"+f.F+"[*==*")
					o.TrueOnlyIf(fn, what+" (number of elements)", orNeed(same, fact(l)))
					e := f.F + "[*"
					el := lit(e+"=="+e, f.elem+".EqualVT("+e+","+e+")", f.elem+".EqualVT(new "+f.elem+","+e+")", f.elem+".EqualVT("+e+",new "+f.elem+")", f.elem+".EqualVT(new "+f.elem+",new "+f.elem+")")
					o.ForEach(ForEachRule{Root: fn, Coll: []string{f.F}, Must: el, Skip: exitWith(func(c *Ctx, r []Val) bool { v, ok := c.known(r[0]); return ok && !v }), What: what + " (elements)",
						Leave: exitWith(func(c *Ctx, r []Val) bool { v, ok := c.known(r[0]); return ok && !v })})
					if f.kind == "map" {
						o.Guard(GuardRule{Root: fn, Effect: lit(f.elem + ".EqualVT(*)"), Needs: []Pred{lit("has(" + f.F + ",key(" + f.F + "))")}, Reset: iter(f.F), What: "an entry is compared with one that is not there: " + f.F})
					}
				default:
					o.TrueOnlyIf(fn, what, orNeed(same, fact(fe, "bytes.Equal("+f.F+","+f.F+")")))
				}
			}
			o.ResultOnlyIf(fn, "messages differ although no difference was found", func(c *Ctx, res []Val) (bool, string, bool) {
				may, s, truth := claimTrue(c, res)
				if s == "" {
					return !may, "", false
				}
				return true, s, !truth
			}, fact(differ...))
			o.Never(fn, sameSide, "a message is compared with itself")
		})
		each(o, "EqualMessageVT", func(m *wireMsg, fn *ssa.Function) {
			o.TrueOnlyIf(fn, "a message equals one of another type", fact("*"+m.name+".EqualVT(*"))
		})
	})
	ck.Do("size", "the size of an encoding is the sum of what the encoder writes for every field", func(o *Obl) {
		each(o, "SizeVT", func(m *wireMsg, fn *ssa.Function) { wireSize(o, m, fn) })
	})
	ck.Do("encode", "every field that is set is encoded under its number, with its wire type, and nothing else is", func(o *Obl) {
		each(o, "MarshalToSizedBufferVT", func(m *wireMsg, fn *ssa.Function) { wireEncode(o, m, fn) })
		each(o, "MarshalVT", func(m *wireMsg, fn *ssa.Function) {
			enc := m.name + ".MarshalToSizedBufferVT(*"
			o.Guard(GuardRule{Root: fn, Effect: okSome, Needs: []Pred{callArgs(m.name+".MarshalToSizedBufferVT", m.self, "makeslice")}, What: "what is returned is not the encoding"})
			o.NilErrOnlyIf(fn, "the error of the encoder is not returned", orNeed(fact(enc+"#1==nil", m.self+"==nil")))
			o.Never(fn, func(c *Ctx, ev *Event) bool {
				mk, ok := ev.Instr.(*ssa.MakeSlice)
				return ok && ev.Kind == KInstr && c.StrV(mk.Len) != m.name+".SizeVT("+m.self+")"
			}, "the buffer does not have the size of the encoding")
			o.Never(fn, allOf(okSome, exitWith(func(c *Ctx, r []Val) bool {
				sl, ok := c.Resolve(r[0]).V.(*ssa.Slice)
				return ok && (sl.Low != nil || sl.High == nil || !glob(enc+"#0", c.Str(Val{c.Resolve(r[0]).F, sl.High})))
			})), "another part of the buffer than the encoding is returned")
		})
	})
	ck.Do("decode", "every field is decoded from its number and wire type, and fields that are not known are kept", func(o *Obl) {
		each(o, "UnmarshalVT", func(m *wireMsg, fn *ssa.Function) { wireDecode(o, m, fn) })
	})
	ck.Do("json", "every field that is set is written to JSON under its name and read back from it", func(o *Obl) {
		each(o, "MarshalProtoJSON", func(m *wireMsg, fn *ssa.Function) { wireToJSON(o, m, fn) })
		each(o, "UnmarshalProtoJSON", func(m *wireMsg, fn *ssa.Function) { wireFromJSON(o, m, fn) })
		for _, e := range wireEnumTypes(p, rels) {
			wireEnumJSON(o, e[0], e[1])
		}
		each(o, "MarshalJSON", func(m *wireMsg, fn *ssa.Function) {
			o.Never(fn, exitWith(func(c *Ctx, r []Val) bool { return !glob("*Marshal*("+"*"+m.self+")#0", c.Str(r[0])) }), "what is returned is not the JSON of the message")
		})
		each(o, "UnmarshalJSON", func(m *wireMsg, fn *ssa.Function) {
			o.Never(fn, exitWith(func(c *Ctx, r []Val) bool { return !glob("*Unmarshal*<[]byte>*"+m.self+"*", c.Str(r[0])) }), "something else than the JSON is decoded into the message")
		})
	})
	ck.Do("enums", "the names and the numbers of an enumeration map to each other", func(o *Obl) { wireEnums(o, rels) })
}

// okSome: a result that is not nil is returned without an error.
func okSome(c *Ctx, ev *Event) bool {
	return okExit(c, ev) && len(ev.Results) > 1 && c.W.nilness(c.S.env, ev.Results[0]) != 1
}

// freshMem: memory made in the function.
func freshMem(c *Ctx, v Val) bool {
	v = c.Resolve(v)
	switch x := v.V.(type) {
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
		return true
	case *ssa.Slice:
		return freshMem(c, Val{v.F, x.X})
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshMem(c, Val{v.F, x.Call.Args[0]})
		}
		return true
	case *ssa.Const:
		return x.IsNil()
	case *ssa.UnOp:
		// a field of a message made here: what was stored there is looked at where it is stored
		return false
	}
	return false
}

// readFrom: the parameter (or new message) a value was read from; nil if it cannot be told.
func readFrom(c *Ctx, v Val) ssa.Value {
	for i := 0; i < 30; i++ {
		v = c.Resolve(v)
		switch x := v.V.(type) {
		case *ssa.UnOp:
			v = Val{v.F, x.X}
		case *ssa.FieldAddr:
			v = Val{v.F, x.X}
		case *ssa.IndexAddr:
			v = Val{v.F, x.X}
		case *ssa.Lookup:
			v = Val{v.F, x.X}
		case *ssa.Extract:
			v = Val{v.F, x.Tuple}
		case *ssa.Next:
			v = Val{v.F, x.Iter}
		case *ssa.Range:
			v = Val{v.F, x.X}
		case *ssa.Convert:
			v = Val{v.F, x.X}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				v = Val{v.F, x.Call.Args[0]}
				continue
			}
			return nil
		case *ssa.Parameter:
			return x
		default:
			return nil
		}
	}
	return nil
}

// sameSide: both operands of a comparison come from the same message.
func sameSide(c *Ctx, ev *Event) bool {
	if ev.Kind != KInstr {
		return false
	}
	var a, b ssa.Value
	switch x := ev.Instr.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		if _, ok := c.Resolve(c.Val(x.X)).V.(*ssa.Parameter); ok {
			return false
		}
		a, b = x.X, x.Y
	case *ssa.Call:
		if len(x.Call.Args) != 2 || x.Call.IsInvoke() {
			return false
		}
		a, b = x.Call.Args[0], x.Call.Args[1]
	default:
		return false
	}
	oa, ob := readFrom(c, c.Val(a)), readFrom(c, c.Val(b))
	return oa != nil && oa == ob
}

// ---- sizes ----

// sumTerms flattens a sum into its constant and its other terms.
func sumTerms(c *Ctx, v Val, stop func(Val) bool) (k int64, terms []Val) {
	seen := map[Val]bool{}
	todo := []Val{v}
	for len(todo) > 0 {
		v := c.Resolve(todo[len(todo)-1])
		todo = todo[:len(todo)-1]
		if stop == nil || !stop(v) {
			switch x := v.V.(type) {
			case *ssa.Const:
				if x.Value != nil && x.Value.Kind() == constant.Int {
					k += x.Int64()
					continue
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && !seen[v] {
					seen[v] = true
					todo = append(todo, Val{v.F, x.Y}, Val{v.F, x.X})
					continue
				}
			}
		}
		terms = append(terms, v)
	}
	return
}

// canon renders a sum independently of the order of its terms.
func canon(c *Ctx, v Val, d int, stop func(Val) bool) string {
	if d > 4 {
		return "?"
	}
	for {
		v = c.Resolve(v)
		cv, ok := v.V.(*ssa.Convert)
		if !ok {
			break
		}
		v = Val{v.F, cv.X}
	}
	k, terms := sumTerms(c, v, stop)
	return canonSum(c, k, terms, d, stop)
}

func canonSum(c *Ctx, k int64, terms []Val, d int, stop func(Val) bool) string {
	var ss []string
	for _, t := range terms {
		t = c.Resolve(t)
		if call, ok := t.V.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "SizeOfVarint" {
			ss = append(ss, "sov("+canon(c, Val{t.F, call.Call.Args[0]}, d+1, stop)+")")
			continue
		}
		ss = append(ss, c.Str(t))
	}
	sort.Strings(ss)
	if k != 0 || len(ss) == 0 {
		ss = append([]string{strconv.FormatInt(k, 10)}, ss...)
	}
	return strings.Join(ss, "+")
}

func isZero(c *Ctx, v ssa.Value) bool {
	k, ok := c.Resolve(c.Val(v)).V.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 0
}

func tagSize(num int) int64 {
	n, t := int64(1), num<<3
	for t >= 0x80 {
		t >>= 7
		n++
	}
	return n
}

// sizes: the amounts that count the field (one element of it; none: also that of an entry without a value).
func (f *wireField) sizes(none bool) map[string]bool {
	k := func(ss ...string) string {
		sort.Strings(ss[1:])
		return strings.Join(ss, "+")
	}
	t := tagSize(f.num)
	ts := strconv.FormatInt(t, 10)
	switch f.kind {
	case "bool":
		return map[string]bool{strconv.FormatInt(t+1, 10): true}
	case "uint", "enum":
		return map[string]bool{k(ts, "sov("+f.F+")"): true}
	case "string", "bytes":
		l := "len(" + f.F + ")"
		return map[string]bool{k(ts, l, "sov("+l+")"): true}
	case "msg":
		l := f.elem + ".SizeVT(" + f.F + ")"
		return map[string]bool{k(ts, l, "sov("+l+")"): true}
	}
	out := map[string]bool{}
	for _, e := range strings.Split(f.elems(), "|") {
		switch f.kind {
		case "strings":
			l := "len(" + e + ")"
			out[k(ts, l, "sov("+l+")")] = true
		case "msgs":
			l := f.elem + ".SizeVT(" + e + ")"
			out[k(ts, l, "sov("+l+")")] = true
		case "map":
			// number and length of the entry; in it the key (1) and the value (2)
			key := "key(" + f.F + ")"
			lk, lv := "len("+key+")", f.elem+".SizeVT("+e+")"
			for i, entry := range []string{k("2", lk, "sov("+lk+")", lv, "sov("+lv+")"), k("2", lk, "sov("+lk+")", "sov(0)")} {
				if i == 1 && !none {
					break
				}
				parts := strings.SplitN(entry, "+", 2)
				in := append(splitSum(parts[1]), "sov("+entry+")")
				out[k(append([]string{strconv.FormatInt(2+t, 10)}, in...)...)] = true
			}
		}
	}
	return out
}

// splitSum splits at the outer plus signs.
func splitSum(s string) (out []string) {
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '+':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// wireSize follows the running sum along every path.
func wireSize(o *Obl, m *wireMsg, fn *ssa.Function) {
	type state struct {
		on   bool
		cur  Val
		sum  string // what cur stands for: the amounts counted so far in this order do not matter
		done string // fields counted
		none bool   // there is no message
	}
	unk := m.name + ".unknownFields"
	fs := append([]*wireField{}, m.fields...)
	name := func(amount string) string {
		if amount == "len("+unk+")" {
			return unk
		}
		for _, f := range fs {
			if f.sizes(true)[amount] {
				if f.kind == "bool" {
					return "bool:" + amount
				}
				return f.F
			}
		}
		return ""
	}
	// amount: the event adds this to the running sum
	amount := func(c *Ctx, in *ssa.BinOp, cur Val) (string, bool) {
		stop := func(v Val) bool { return v == cur }
		k, terms := sumTerms(c, c.Val(in), stop)
		var rest []Val
		n := 0
		for _, t := range terms {
			if t == cur {
				n++
			} else {
				rest = append(rest, t)
			}
		}
		if _, isC := cur.V.(*ssa.Const); isC {
			n = 1
		}
		return canonSum(c, k, rest, 0, stop), n == 1
	}
	counted := func(f *wireField) Pred {
		return func(c *Ctx, ev *Event) bool {
			in, ok := ev.Instr.(*ssa.BinOp)
			if ev.Kind != KInstr || !ok || in.Op != token.ADD {
				return false
			}
			// the amount added to anything
			for _, pair := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
				k, terms := sumTerms(c, c.Val(pair[1]), nil)
				if f.sizes(false)[canonSum(c, k, terms, 0, nil)] {
					return true
				}
			}
			k, terms := sumTerms(c, c.Val(in), nil)
			for i := range terms {
				rest := append(append([]Val{}, terms[:i]...), terms[i+1:]...)
				if f.sizes(false)[canonSum(c, k, rest, 0, nil)] {
					return true
				}
			}
			return f.sizes(false)[canonSum(c, k, terms, 0, nil)]
		}
	}
	for _, f := range fs {
		what := "the size lacks " + f.F
		if f.list() {
			f.visited(o, fn, what)
			o.ForEach(ForEachRule{Root: fn, Coll: []string{f.F}, Must: counted(f), Skip: lit(f.F + "[*]==nil"), What: what})
			continue
		}
		via := counted(f)
		if f.kind == "bool" {
			// several may have the same size: between the branch on the field and the next branch
			o.Path(PathRule{Root: fn, From: lit(f.F), Via: via, Until: anyOf(lit("*"), isExit), What: what})
		}
		o.Path(PathRule{Root: fn, From: m.some, Via: via, Skip: lit(f.absent()...), What: what})
		if f.kind == "bool" {
			o.Guard(GuardRule{Root: fn, Effect: allOf(isExit, func(c *Ctx, ev *Event) bool { return true }), Needs: []Pred{anyOf(lit(f.F), lit("!"+f.F), lit(m.self+"==nil"), lit(m.self+"==nil"))}, What: "the size does not depend on " + f.F})
		}
	}
	// what is returned is the running sum, with nothing else in it
	o.Monitor(fn, state{}, func(c *Ctx, ev *Event, st any) any {
		s := st.(state)
		switch ev.Kind {
		case KEdge:
			s.none = s.none || lit(m.self+"==nil")(c, ev)
		case KInstr:
			in, ok := ev.Instr.(*ssa.BinOp)
			if !ok || in.Op != token.ADD || c.S.F.up != nil {
				return s
			}
			if !s.on {
				s.cur = Val{nil, ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int])}
			}
			am, ok := amount(c, in, s.cur)
			if !ok {
				return s
			}
			if am == "0" && (isZero(c, in.X) || isZero(c, in.Y)) { // nothing is added
				s.on, s.cur = true, c.Val(in)
				return s
			}
			if n := name(am); n != "" {
				s.on, s.cur = true, c.Val(in)
				s.done = addDone(s.done, n)
			}
		case KExit:
			v := c.Resolve(ev.Results[0])
			if k, ok := v.V.(*ssa.Const); ok {
				if !s.on && s.none && k.Value != nil && k.Int64() == 0 {
					return s
				}
			}
			if s.on && v == s.cur {
				if !strings.Contains(s.done, ","+unk+",") {
					c.Violate("unknown", "%s: the size lacks the fields that are not known", fnName(fn))
				}
				return s
			}
			c.Violate("sum", "%s: what is returned is not the sum of the sizes of the fields (%s)", fnName(fn), c.Str(v))
		}
		return s
	})
}

func addDone(done, n string) string {
	if done == "" {
		done = ","
	}
	if strings.Contains(done, ","+n+",") {
		return done
	}
	parts := append(strings.Split(strings.Trim(done, ","), ","), n)
	sort.Strings(parts)
	if parts[0] == "" {
		parts = parts[1:]
	}
	return "," + strings.Join(parts, ",") + ","
}

// ---- encoding ----

type encState struct {
	on   bool
	cur  Val    // where the last written byte is
	pend string // what was written last and has no tag yet
	full bool   // its length was written, too
	rev  bool   // it is an element of a list that is walked backwards
	t, f uint32 // the boolean fields that are set, and that are not
	size Val    // the size a nested encoder returned
}

// wireEncode follows the buffer, which is filled from its end: value, length, tag.
func wireEncode(o *Obl, m *wireMsg, fn *ssa.Function) {
	ck := o.ck
	unk := m.name + ".unknownFields"
	// tagged is reported through the set: the field whose value and tag are complete at the event
	step := func(c *Ctx, ev *Event, s encState, viol func(key, format string, args ...any)) (encState, string) {
		if ev.Kind == KEdge {
			for i, f := range m.fields {
				if f.kind == "bool" && lit(f.F)(c, ev) {
					s.t |= 1 << i
				} else if f.kind == "bool" && lit("!"+f.F)(c, ev) {
					s.f |= 1 << i
				}
			}
			if s.t&s.f != 0 {
				c.Stop()
			}
			return s, ""
		}
		if ev.Kind != KInstr {
			return s, ""
		}
		isBuf := func(v Val) bool {
			return c.Str(v) == "<[]byte>"
		}
		minus := func(v Val) (x, y Val, k int64, ok bool) {
			v = c.Resolve(v)
			b, isB := v.V.(*ssa.BinOp)
			if !isB || b.Op != token.SUB {
				return v, v, 0, false
			}
			x, y = c.Resolve(Val{v.F, b.X}), c.Resolve(Val{v.F, b.Y})
			if kc, isC := y.V.(*ssa.Const); isC {
				return x, y, kc.Int64(), true
			}
			return x, y, 0, true
		}
		at := func(v Val) bool { // v is where the buffer is filled to
			v = c.Resolve(v)
			if s.on && v == s.cur {
				return true
			}
			return !s.on && c.Str(v) == "len(<[]byte>)"
		}
		conv := func(v Val) Val {
			for {
				v = c.Resolve(v)
				cv, ok := v.V.(*ssa.Convert)
				if !ok {
					return v
				}
				v = Val{v.F, cv.X}
			}
		}
		switch in := ev.Instr.(type) {
		case *ssa.Call:
			cc := execCall(ev)
			if cc == nil {
				return s, ""
			}
			args := c.Args(cc)
			b, isB := cc.Value.(*ssa.Builtin)
			switch {
			case isB && b.Name() == "copy":
				dst := c.Resolve(args[0])
				sl, ok := dst.V.(*ssa.Slice)
				if !ok || !isBuf(Val{dst.F, sl.X}) || sl.Low == nil || sl.High != nil {
					viol("copy", "%s: a value is copied to somewhere else than the place for it", fnName(fn))
					return s, ""
				}
				x, y, _, ok := minus(Val{dst.F, sl.Low})
				src := c.Str(args[1])
				if !ok || !at(x) || c.Str(y) != "len("+src+")" {
					viol("place", "%s: %s is not written right before what was written last", fnName(fn), src)
				}
				if s.pend != "" {
					viol("untagged", "%s: %s has no tag", fnName(fn), s.pend)
				}
				s = encState{on: true, cur: c.Resolve(Val{dst.F, sl.Low}), pend: src, rev: backwards(c, args[1]), t: s.t, f: s.f}
				if src == unk {
					s.pend = ""
				}
			case ck.P.calleeIs(cc, []string{"protobuf_go_lite.EncodeVarint"}):
				off, v := c.Resolve(args[1]), conv(args[2])
				val := c.Str(v)
				switch {
				case s.pend != "" && !s.full && s.size.V != nil: // the length of a nested message
					x, y, _, ok := minus(off)
					if !ok || !at(x) || y != s.size || v != s.size {
						viol("place", "%s: the length of %s is not the size of its encoding, or not written right before it", fnName(fn), s.pend)
					}
				case s.pend != "" && !s.full && !strings.HasPrefix(s.pend, "entry"): // the length of a string
					if val != "len("+s.pend+")" || !at(off) {
						viol("place", "%s: the length of %s is %s, or not written right before it", fnName(fn), s.pend, val)
					}
				case strings.HasPrefix(s.pend, "entry"):
					s.pend = "entry " + val
					if !at(off) {
						viol("place", "%s: the length of an entry is not written right before it", fnName(fn))
					}
				default:
					if s.pend != "" {
						viol("untagged", "%s: %s has no tag", fnName(fn), s.pend)
					}
					if !at(off) {
						viol("place", "%s: %s is not written right before what was written last", fnName(fn), val)
					}
					s.pend = "varint " + val
				}
				s.on, s.full, s.cur, s.size = true, true, c.Val(in), Val{}
			case strings.HasSuffix(shortCallee(cc), "MarshalToSizedBufferVT") && len(args) == 2:
				dst := c.Resolve(args[1])
				sl, ok := dst.V.(*ssa.Slice)
				if !ok || !isBuf(Val{dst.F, sl.X}) || sl.Low != nil || sl.High == nil || !at(Val{dst.F, sl.High}) {
					viol("place", "%s: %s is not encoded right before what was written last", fnName(fn), c.Str(args[0]))
				}
				if s.pend != "" {
					viol("untagged", "%s: %s has no tag", fnName(fn), s.pend)
				}
				if !s.on {
					s.on, s.cur = true, c.Resolve(Val{dst.F, sl.High})
				}
				s.pend, s.full, s.rev = c.Str(args[0]), false, backwards(c, args[0])
				for _, r := range *in.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
						s.size = c.Resolve(c.Val(ex))
					}
				}
			}
		case *ssa.Store:
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok || !isBuf(c.Val(ia.X)) {
				return s, ""
			}
			x, _, k, ok := minus(c.Val(ia.Index))
			here := c.Resolve(c.Val(ia.Index))
			kc, isC := c.Resolve(c.Val(in.Val)).V.(*ssa.Const)
			if !ok || k != 1 || !at(x) {
				viol("place", "%s: a byte is not written right before what was written last", fnName(fn))
			}
			if !isC {
				// a bool written through a variable
				viol("byte", "%s: a byte is written that is no constant", fnName(fn))
				return encState{on: true, cur: here, t: s.t, f: s.f}, ""
			}
			b := kc.Int64()
			if s.pend == "" && (b == 0 || b == 1) {
				s.on, s.cur, s.pend, s.full = true, here, fmt.Sprintf("bool %d", b), true
				return s, ""
			}
			if s.pend == "" || !s.full {
				viol("tag", "%s: the tag %#x has no value", fnName(fn), b)
				return encState{on: true, cur: here, t: s.t, f: s.f}, ""
			}
			pend, rev := s.pend, s.rev
			s = encState{on: true, cur: here, t: s.t, f: s.f}
			for i, f := range m.fields {
				tag := int64(f.num)<<3 | f.wt
				ok := false
				switch f.kind {
				case "bool":
					ok = pend == "bool 1" && s.t&(1<<i) != 0
				case "uint", "enum":
					ok = pend == "varint "+f.F
				case "string", "bytes", "msg":
					ok = pend == f.F
				case "strings", "msgs":
					ok = rev && (pend == f.F+"[rev]" || pend == f.F+"[]")
				case "map":
					if globAny(strings.Split(f.elems(), "|"), pend) {
						if b != 0x12 {
							viol("tag", "%s: the value of an entry has the tag %#x", fnName(fn), b)
						}
						return s, f.F + " value"
					}
					if pend == "key("+f.F+")" {
						if b != 0xa {
							viol("tag", "%s: the key of an entry has the tag %#x", fnName(fn), b)
						}
						s.pend = "entry"
						return s, f.F + " key"
					}
					ok = strings.HasPrefix(pend, "entry ")
				}
				if ok && b == tag {
					return s, f.F
				}
			}
			viol("tag", "%s: %s is written with the tag %#x", fnName(fn), pend, b)
		}
		return s, ""
	}
	none := func(key, format string, args ...any) {}
	for _, f := range append(append([]*wireField{}, m.fields...), &wireField{m: m, F: unk, kind: "bytes"}) {
		// the state machine runs inside a monitor: pending until the tag of the field is written
		type st struct {
			e       encState
			pending bool
		}
		f := f
		if f.F == unk {
			o.Path(PathRule{Root: fn, From: m.some, Via: callArgs("copy", "<[]byte>", unk), Skip: lit(f.absent()...), What: "the fields that are not known are not encoded"})
			continue
		}
		if f.list() {
			f.visited(o, fn, "an element is not encoded: "+f.F)
			val := adapt(step, none, f.F)
			o.ForEach(ForEachRule{Root: fn, Coll: []string{f.F}, Must: val, Leave: retErr, What: "an element is not encoded: " + f.F})
			continue
		}
		absent, exit := lit(f.absent()...), allOf(isExit, notP(retErr))
		o.Monitor(fn, st{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(st)
			if m.some(c, ev) {
				s.pending = true
			}
			if absent(c, ev) {
				s.pending = false
			}
			e, got := step(c, ev, s.e, none)
			s.e = e
			if got == f.F {
				s.pending = false
			}
			if s.pending && exit(c, ev) && c.W.nilness(c.S.env, ev.Results[1]) != 2 {
				c.Violate("field|"+f.F, "%s: %s is not encoded", fnName(fn), f.F)
				s.pending = false
			}
			return s
		})
	}
	o.Monitor(fn, encState{}, func(c *Ctx, ev *Event, x any) any {
		s := x.(encState)
		e, _ := step(c, ev, s, c.Violate)
		if ev.Kind == KExit && c.W.nilness(c.S.env, ev.Results[1]) != 2 {
			if s.pend != "" {
				c.Violate("untagged", "%s: %s has no tag", fnName(fn), s.pend)
			}
			r := c.Resolve(ev.Results[0])
			if k, ok := r.V.(*ssa.Const); ok && k.Int64() == 0 && !s.on {
				return e
			}
			b, ok := r.V.(*ssa.BinOp)
			if !ok || b.Op != token.SUB || c.Str(Val{r.F, b.X}) != "len(<[]byte>)" || s.on && c.Resolve(Val{r.F, b.Y}) != s.cur {
				c.Violate("result", "%s: what is returned is not the size of what was written (%s)", fnName(fn), c.Str(r))
			}
		}
		return e
	})
	for _, f := range m.fields {
		if f.kind == "msg" || f.kind == "msgs" || f.kind == "map" {
			e := f.elem + ".MarshalToSizedBufferVT(*)#1"
			o.Path(PathRule{Root: fn, From: lit("!" + e + "==nil"), Via: allOf(isExit, retErr), Forbid: notReturning(e), What: "the error of a nested encoder is not returned"})
		}
	}
}

// adapt makes a predicate for loops: within one iteration the element and its tag are written.
func adapt(step func(c *Ctx, ev *Event, s encState, viol func(key, format string, args ...any)) (encState, string), none func(key, format string, args ...any), F string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		switch in := ev.Instr.(type) {
		case *ssa.Call:
			cc := execCall(ev)
			if cc == nil {
				return false
			}
			args := c.Args(cc)
			els := []string{F + "[]", F + "[rev]", F + "[key(" + F + ")]"}
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
				return globAny(els, c.Str(args[1]))
			}
			return strings.HasSuffix(shortCallee(cc), "MarshalToSizedBufferVT") && globAny(els, c.Str(args[0]))
		case *ssa.Store:
			_ = in
		}
		return false
	}
}

// backwards: an element of a list, the lists's last one first.
func backwards(c *Ctx, v Val) bool {
	for i := 0; i < 10; i++ {
		v = c.Resolve(v)
		switch x := v.V.(type) {
		case *ssa.UnOp:
			v = Val{v.F, x.X}
			continue
		case *ssa.IndexAddr:
			if strings.HasSuffix(c.Str(v), "[rev]") {
				return true
			}
			_, step, ok := counter(x.Index, 0)
			return ok && step < 0
		}
		return false
	}
	return false
}

func shortCallee(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// ---- decoding ----

// shiftedBy: the value is x >> k or x & k (through conversions).
func tagPart(c *Ctx, v Val, op token.Token, k int64) bool {
	for i := 0; i < 10; i++ {
		v = c.Resolve(v)
		switch x := v.V.(type) {
		case *ssa.Convert:
			v = Val{v.F, x.X}
			continue
		case *ssa.BinOp:
			kc, ok := c.Resolve(Val{v.F, x.Y}).V.(*ssa.Const)
			return ok && x.Op == op && kc.Value != nil && kc.Int64() == k
		}
		return false
	}
	return false
}

func tagLit(op token.Token, k, want int64, truth bool) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KEdge || ev.Lit.Op != "eq" || ev.Lit.Truth != truth {
			return false
		}
		x, y := ev.Lit.X, ev.Lit.Y
		kc, ok := c.Resolve(y).V.(*ssa.Const)
		if !ok {
			x, y = y, x
			kc, ok = c.Resolve(y).V.(*ssa.Const)
		}
		return ok && kc.Value != nil && kc.Value.Kind() == constant.Int && kc.Int64() == want && tagPart(c, x, op, k)
	}
}

func wireDecode(o *Obl, m *wireMsg, fn *ssa.Function) {
	const data = "<[]byte>"
	fresh := func(c *Ctx, ev *Event) bool { // the number of the next field is taken from its tag
		b, ok := ev.Instr.(*ssa.BinOp)
		if !ok || ev.Kind != KInstr || b.Op != token.SHR {
			return false
		}
		kc, ok := c.Resolve(c.Val(b.Y)).V.(*ssa.Const)
		return ok && kc.Int64() == 3
	}
	errExit := allOf(isExit, retErrSure)
	for _, f := range m.fields {
		isField, isWire := tagLit(token.SHR, 3, int64(f.num), true), tagLit(token.AND, 7, f.wt, true)
		var set Pred
		wrong := ""
		switch f.kind {
		case "string":
			set = storeTo(f.F, data)
		case "bytes":
			set = allOf(storeTo(f.F, "append(*,"+data+")", "bytes.Clone("+data+")", "slices.Clone("+data+")", "makeslice"), func(c *Ctx, ev *Event) bool { return replaces(c, ev.Instr.(*ssa.Store)) })
			wrong = "[]byte{}"
		case "bool":
			set = allOf(storeTo(f.F), notP(storeTo(f.F, "true", "false")))
		case "uint", "enum":
			set = allOf(storeTo(f.F), notP(storeTo(f.F, "0")))
		case "msg":
			set = callArgs(f.elem+".UnmarshalVT", f.F+"|new "+f.elem, data)
		case "strings":
			set = listAdd(f.F, data)
		case "msgs":
			set = callArgs(f.elem+".UnmarshalVT", f.F+"[*]|new "+f.elem, data)
		case "map":
			set = mapPut(f.F, "*", "*")
		}
		until := fresh
		if f.kind == "map" {
			until = nil
		}
		o.Path(PathRule{Root: fn, From: isField, Via: set, Skip: errExit, Until: until, What: "the field is not decoded: " + f.F})
		var reset Pred
		if f.kind != "map" {
			reset = fresh
		}
		o.Guard(GuardRule{Root: fn, Effect: set, Needs: []Pred{isField, isWire}, Reset: reset, What: "another field than the one with its number and wire type is decoded into " + f.F})
		okStore := anyOf(set, storeTo(f.F, "nil", "0", "new "+f.elem, "makemap*", "append("+f.F+"*", "new [0]byte"), lit("-"))
		if f.kind == "string" || f.kind == "bool" || f.kind == "bytes" {
			okStore = anyOf(set)
		}
		o.Never(fn, allOf(storeTo(f.F), notP(okStore), func(c *Ctx, ev *Event) bool {
			return wrong == "" || !emptySlice(c, c.Val(ev.Instr.(*ssa.Store).Val))
		}), "another value is decoded into "+f.F)
		switch f.kind {
		case "msg", "msgs", "map":
			if f.kind == "msg" {
				o.Guard(GuardRule{Root: fn, Effect: callArgs(f.elem+".UnmarshalVT", f.F+"|new "+f.elem, data), Needs: []Pred{anyOf(storeTo(f.F, "new "+f.elem), lit("!"+f.F+"==nil"))}, Reset: fresh, What: "there is no message to decode into: " + f.F, Optional: true})
			}
			if f.kind == "msgs" {
				o.Path(PathRule{Root: fn, From: isField, Via: listAdd(f.F, "new "+f.elem), Skip: errExit, Until: fresh, What: "the element is not added: " + f.F})
			}
			e := f.elem + ".UnmarshalVT(*)"
			o.Path(PathRule{Root: fn, From: lit("!" + e + "==nil"), Via: isExit, Forbid: notReturning(e), What: "the error of decoding a nested message is not returned"})
		case "uint", "enum":
			// a varint is accumulated from zero
			o.Guard(GuardRule{Root: fn, Effect: allOf(set, func(c *Ctx, ev *Event) bool { return loadsOwn(c, ev.Instr.(*ssa.Store), f.F) }), Needs: []Pred{storeTo(f.F, "0")}, Reset: fresh, What: "a number is decoded on top of the one there was: " + f.F, Optional: true})
		}
		if f.kind == "map" {
			key, val := tagLit(token.SHR, 3, 1, true), tagLit(token.SHR, 3, 2, true)
			_ = val
			o.Guard(GuardRule{Root: fn, Effect: callArgs(f.elem+".UnmarshalVT", "*", data), Needs: []Pred{val}, Reset: fresh, What: "something else than the value of an entry is decoded as it"})
			o.Guard(GuardRule{Root: fn, Effect: callArgs(f.elem+".UnmarshalVT", "*", data), Needs: []Pred{func(c *Ctx, ev *Event) bool {
				a, ok := ev.Instr.(*ssa.Alloc)
				return ev.Kind == KInstr && ok && typeName(ptrElem(a.Type())) == f.elem
			}}, Reset: isField, What: "there is no message to decode the value of an entry into"})
			o.Guard(GuardRule{Root: fn, Effect: isString(data), Needs: []Pred{key}, Reset: fresh, What: "something else than the key of an entry is decoded as it"})
			o.Guard(GuardRule{Root: fn, Effect: set, Needs: []Pred{anyOf(storeTo(f.F, "makemap*"), lit("!"+f.F+"==nil"))}, What: "an entry is put into a map that may be nil"})
			o.Never(fn, allOf(set, notP(anyOf(mapPut(f.F, "*", "new "+f.elem), mapPut(f.F, "*", "nil"), mapPut(f.F, "*", "phi:*")))), "another value is put into "+f.F)
		}
	}
	// fields that are not known
	unk := m.name + ".unknownFields"
	hasMap := false
	for _, f := range m.fields {
		hasMap = hasMap || f.kind == "map"
	}
	if !hasMap {
		o.Path(PathRule{Root: fn, From: lit("protobuf_go_lite.Skip(*)#1==nil"), Via: storeTo(unk, "append("+unk+","+data+")"), Skip: errExit, Until: fresh, What: "a field that is not known is dropped"})
	}
	o.Guard(GuardRule{Root: fn, Effect: storeTo(unk, "append("+unk+","+data+")"), Needs: []Pred{lit("protobuf_go_lite.Skip(*)#1==nil")}, What: "a field that is not known is not kept"})
	o.Never(fn, allOf(storeTo(unk), notP(storeTo(unk, "append("+unk+","+data+")"))), "what is kept of the fields that are not known is something else")
	// the varints: 7 bits per byte, up to 64 bits, in order; and parts of the input begin where the last one ended
	wireVarints(o, fn)
}

// retErrSure: the root returns an error that is not nil (an error of a callee checked on the path, a package's variable, or a new one).
func retErrSure(c *Ctx, ev *Event) bool {
	if ev.Kind != KExit || len(ev.Results) == 0 {
		return false
	}
	s := c.Str(ev.Results[len(ev.Results)-1])
	return c.W.nilness(c.S.env, ev.Results[len(ev.Results)-1]) == 2 || strings.HasPrefix(s, "Err") || strings.HasPrefix(s, "fmt.Errorf(")
}

// replaces: what is stored does not contain what was there before.
func replaces(c *Ctx, st *ssa.Store) bool {
	v := c.Resolve(c.Val(st.Val))
	call, ok := v.V.(*ssa.Call)
	if !ok {
		return true
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		a := c.Resolve(Val{v.F, call.Call.Args[0]})
		switch x := a.V.(type) {
		case *ssa.Const, *ssa.MakeSlice:
			return true
		case *ssa.Slice:
			if x.High == nil {
				_, isNew := c.Resolve(Val{a.F, x.X}).V.(*ssa.Alloc)
				return isNew
			}
			k, ok := c.Resolve(Val{a.F, x.High}).V.(*ssa.Const)
			return ok && k.Int64() == 0
		}
		return false
	}
	return true
}

func emptySlice(c *Ctx, v Val) bool {
	v = c.Resolve(v)
	switch x := v.V.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Slice:
		if a, ok := c.Resolve(Val{v.F, x.X}).V.(*ssa.Alloc); ok {
			if p, ok := a.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := p.Elem().Underlying().(*types.Array); ok {
					return arr.Len() == 0
				}
			}
		}
	case *ssa.MakeSlice:
		k, ok := constInt(x.Len)
		return ok && k == 0
	}
	return false
}

// loadsOwn: the stored value is computed from the field itself.
func loadsOwn(c *Ctx, st *ssa.Store, F string) bool {
	b, ok := c.Resolve(c.Val(st.Val)).V.(*ssa.BinOp)
	return ok && (c.StrV(b.X) == F || c.StrV(b.Y) == F)
}

// isString: a part of the input is made a string.
func isString(data string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		cv, ok := ev.Instr.(*ssa.Convert)
		if !ok || c.StrV(cv.X) != data {
			return false
		}
		b, ok := cv.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
}

// wireVarints: every varint is read seven bits at a time into a wide enough integer, and every part of the
// input that is used begins at the position reached and ends before the end.
func wireVarints(o *Obl, root *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	n := 0
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || fn.Blocks == nil || !o.ck.P.inRepo[fn] || fn != root && fn.Name() == "UnmarshalVT" {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
					visit(ci.Common().StaticCallee())
				}
				sh, ok := in.(*ssa.BinOp)
				if !ok || sh.Op != token.SHL {
					continue
				}
				n++
				bad := func(key, what string) {
					o.Fail("varint|"+key+"|"+fnName(fn), sh.Pos(), nil, "%s: %s", fnName(fn), what)
				}
				// what is shifted: seven bits
				x := sh.X
				for {
					cv, ok := x.(*ssa.Convert)
					if !ok {
						if ct, ok := x.(*ssa.ChangeType); ok {
							x = ct.X
							continue
						}
						break
					}
					x = cv.X
				}
				and, ok := x.(*ssa.BinOp)
				if !ok || and.Op != token.AND {
					continue
				}
				if k, ok := constInt(and.Y); !ok || k != 0x7f {
					bad("mask", "a byte of a varint does not have seven bits")
				}
				// by how much
				s := sh.Y
				for {
					cv, ok := s.(*ssa.Convert)
					if !ok {
						break
					}
					s = cv.X
				}
				init, step, ok := counter(s, 0)
				if !ok || step != 7 {
					bad("step", "the bits of a varint are not seven further with every byte")
				} else if k, ok := constInt(init); !ok || k != 0 {
					bad("init", "the first byte of a varint does not have its lowest bits")
				}
				// the limit
				if ph, ok := s.(*ssa.Phi); ok {
					lim := int64(-1)
					for _, r := range *ph.Referrers() {
						if c, ok := r.(*ssa.BinOp); ok {
							if k, ok := constInt(c.Y); ok && (c.Op == token.GEQ || c.Op == token.LSS) {
								lim = k
							} else if ok && (c.Op == token.GTR || c.Op == token.LEQ) {
								lim = k + 1
							}
						}
					}
					if lim >= 0 && lim < 64 {
						bad("limit", fmt.Sprintf("a varint of %d bits and more is not accepted", lim))
					}
				}
				// how wide
				for _, r := range *sh.Referrers() {
					if or, ok := r.(*ssa.BinOp); ok && or.Op == token.OR {
						for _, u := range *or.Referrers() {
							if st, ok := u.(*ssa.Store); ok {
								if width(st.Val.Type()) > width(sh.Type()) {
									bad("width", "a varint is read into fewer bits than its field has")
								}
							}
							if cv, ok := u.(*ssa.Convert); ok && width(cv.Type()) > width(sh.Type()) {
								bad("width", "a varint is read into fewer bits than its field has")
							}
						}
					}
				}
			}
		}
	}
	visit(root)
	for fn := range seen {
		wirePosition(o, fn)
	}
	if n == 0 {
		o.Fail("novarint|"+fnName(root), root.Pos(), nil, "%s decodes no varint", fnName(root))
	}
	o.Monitor(root, "", func(c *Ctx, ev *Event, st any) any {
		s := st.(string)
		if ev.Kind == KEdge && ev.Lit.Op == "lt" && !ev.Lit.Truth && c.Str(ev.Lit.X) == "len(<[]byte>)" {
			return c.Str(ev.Lit.Y)
		}
		if ev.Kind != KInstr {
			return s
		}
		sl, ok := ev.Instr.(*ssa.Slice)
		if !ok || sl.High == nil || c.StrV(sl.X) != "<[]byte>" {
			return s
		}
		if c.StrV(sl.High) != s {
			c.Violate("bounds", "%s: a part of the input is used that may end after it", fnName(root))
		}
		h := c.Resolve(c.Val(sl.High))
		b, ok := h.V.(*ssa.BinOp)
		if sl.Low == nil || !ok || b.Op != token.ADD || c.Str(Val{h.F, b.X}) != c.StrV(sl.Low) && c.Str(Val{h.F, b.Y}) != c.StrV(sl.Low) {
			c.Violate("part", "%s: a part of the input does not begin at the position reached", fnName(root))
		}
		return s
	})
}

// constLeaves: the value can only be one of constants.
func constLeaves(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Convert:
		return constLeaves(x.X, seen)
	case *ssa.ChangeType:
		return constLeaves(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !constLeaves(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// loopHead: the block is one that a later block goes back to.
func loopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// wirePosition: tags and lengths are what was read, and the position in the input advances past every part used.
func wirePosition(o *Obl, fn *ssa.Function) {
	bad := func(key string, pos token.Pos, what string) {
		o.Fail("position|"+key+"|"+fnName(fn), pos, nil, "%s: %s", fnName(fn), what)
	}
	var parts []*ssa.Slice
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Slice:
				if typeName(x.X.Type()) != "[]byte" && typeName(x.X.Type()) != "[]uint8" || x.High == nil || x.Low == nil {
					continue
				}
				if _, isParam := x.X.(*ssa.Parameter); !isParam {
					continue
				}
				parts = append(parts, x)
			case *ssa.BinOp:
				if x.Op == token.ADD {
					for _, t := range []ssa.Value{x.X, x.Y} {
						if k, ok := constInt(t); ok && k == 0 {
							bad("length", x.Pos(), "the length of a part of the input is not read")
						}
					}
				}
				k, ok := constInt(x.Y)
				if ok && (x.Op == token.SHR && k == 3 || x.Op == token.AND && k == 7) && constLeaves(x.X, map[ssa.Value]bool{}) {
					bad("tag", x.Pos(), "the tag of a field is not read")
				}
				if ok && k == 0 && (x.Op == token.NEQ || x.Op == token.EQL) && constLeaves(x.X, map[ssa.Value]bool{}) {
					bad("value", x.Pos(), "the value of a field is not read")
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if !loopHead(b) || typeName(x.Type()) != "int" || !boundsLoop(x) {
					continue
				}
				seen := map[ssa.Value]bool{}
				var leaf func(v ssa.Value, from *ssa.BasicBlock)
				leaf = func(v ssa.Value, from *ssa.BasicBlock) {
					if ph, ok := v.(*ssa.Phi); ok && ph != x && !loopHead(ph.Block()) {
						if !seen[v] {
							seen[v] = true
							for i, e := range ph.Edges {
								leaf(e, ph.Block().Preds[i])
							}
						}
						return
					}
					if v == x {
						bad("stuck", x.Pos(), "the position in the input may not advance")
					}
					for _, s := range parts {
						if s.Low == v && s.Block().Dominates(from) {
							bad("used", s.Pos(), "the position in the input does not advance past the part used")
						}
					}
				}
				for i, e := range x.Edges {
					if b.Dominates(b.Preds[i]) {
						leaf(e, b.Preds[i])
					}
				}
			}
		}
	}
}

// boundsLoop: the loop goes on while the value is less than another.
func boundsLoop(x *ssa.Phi) bool {
	for _, r := range *x.Referrers() {
		if c, ok := r.(*ssa.BinOp); ok && c.Block() == x.Block() && (c.Op == token.LSS && c.X == x || c.Op == token.GTR && c.Y == x) {
			return true
		}
	}
	return false
}

func width(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// ---- JSON ----

func (f *wireField) jsonValue() Pred {
	w := map[string]string{"string": "WriteString", "bool": "WriteBool", "uint": "WriteUint32|MarshalState.WriteUint64|MarshalState.WriteInt32|MarshalState.WriteInt64", "strings": "WriteStringArray", "bytes": "WriteBytes"}
	switch f.kind {
	case "msg":
		return callArgs(f.elem+".MarshalProtoJSON", f.F, "*")
	case "enum":
		return anyOf(callArgs(f.elem+".MarshalProtoJSON", f.F+"|*"+f.F, "*"), callArgs("MarshalState.WriteEnumString|MarshalState.WriteEnum", "*", f.F, "*"))
	case "msgs":
		return callArgs("MarshalState.WriteArrayStart", "*")
	case "map":
		return callArgs("MarshalState.WriteObjectStart", "*")
	case "bytes":
		return anyOf(callArgs("MarshalState.WriteBytes", "*", f.F), callArgs("MarshalState.Write", "*", f.F), callArgs("MarshalState.WriteString", "*", "*("+"*"+f.F+")"))
	}
	return callArgs("MarshalState."+w[f.kind], "*", f.F)
}

func wireToJSON(o *Obl, m *wireMsg, fn *ssa.Function) {
	field := func(n string) Pred { return callArgs("MarshalState.WriteObjectField", "*", strconv.Quote(n)) }
	anyField := calls("MarshalState.WriteObjectField")
	fails := calls("MarshalState.SetError", "MarshalState.SetErrorf")
	var names []Pred
	for _, f := range m.fields {
		names = append(names, field(f.json))
		val := f.jsonValue()
		what := f.F + " is not written to JSON"
		o.Path(PathRule{Root: fn, From: m.some, Via: field(f.json), Skip: lit(f.absent()...), What: what})
		o.Path(PathRule{Root: fn, From: field(f.json), Via: anyOf(val, fails), Forbid: anyField, What: "the value of " + f.F + " is not written to JSON"})
		if f.kind != "msgs" && f.kind != "map" {
			o.Guard(GuardRule{Root: fn, Effect: val, Needs: []Pred{field(f.json)}, Reset: allOf(anyField, notP(field(f.json))), What: f.F + " is written to JSON under another name"})
		}
		o.Guard(GuardRule{Root: fn, Effect: field(f.json), Needs: []Pred{calls("MarshalState.WriteMoreIf")}, Reset: anyField, What: "a field is written to JSON without a separator before it"})
		switch f.kind {
		case "msgs":
			el := callArgs(f.elem+".MarshalProtoJSON", f.F+"[]", "*")
			f.visited(o, fn, "no element is written to JSON: "+f.F)
			o.ForEach(ForEachRule{Root: fn, Coll: []string{f.F}, Must: el, What: "an element is not written to JSON: " + f.F})
			o.Guard(GuardRule{Root: fn, Effect: el, Needs: []Pred{calls("MarshalState.WriteMoreIf")}, Reset: iter(f.F), What: "an element is written to JSON without a separator before it"})
			o.Path(PathRule{Root: fn, From: calls("MarshalState.WriteArrayStart"), Via: calls("MarshalState.WriteArrayEnd"), Until: anyField, What: "a list in JSON does not end"})
			o.Guard(GuardRule{Root: fn, Effect: el, Needs: []Pred{field(f.json), calls("MarshalState.WriteArrayStart")}, Reset: allOf(anyField, notP(field(f.json))), What: f.F + " is written to JSON under another name"})
		case "map":
			el := callArgs(f.elem+".MarshalProtoJSON", f.F+"[*", "*")
			key := callArgs("MarshalState.WriteObjectStringField", "*", "key("+f.F+")")
			f.visited(o, fn, "no element is written to JSON: "+f.F)
			o.ForEach(ForEachRule{Root: fn, Coll: []string{f.F}, Must: el, What: "an entry is not written to JSON: " + f.F})
			o.Guard(GuardRule{Root: fn, Effect: el, Needs: []Pred{key, calls("MarshalState.WriteMoreIf")}, Reset: iter(f.F), What: "an entry is written to JSON without its key or a separator"})
		}
	}
	if len(names) > 0 {
		o.Never(fn, allOf(anyField, notP(anyOf(names...))), "something that is no field is written to JSON")
	}
	end := calls("MarshalState.WriteObjectEnd")
	starts, ends := calls("MarshalState.WriteObjectStart", "MarshalState.WriteArrayStart"), calls("MarshalState.WriteObjectEnd", "MarshalState.WriteArrayEnd")
	o.SiteName(fnName(fn) + " nesting")
	o.Monitor(fn, 0, func(c *Ctx, ev *Event, st any) any {
		d := st.(int)
		switch {
		case fails(c, ev):
			c.Stop()
		case starts(c, ev) && d < 8:
			d++
		case ends(c, ev):
			if d--; d < 0 {
				c.Violate("nesting", "%s: an object or list in JSON ends that did not start", fnName(fn))
				d = 0
			}
		case isExit(c, ev) && d != 0:
			c.Violate("nesting", "%s: an object or list in JSON does not end", fnName(fn))
		}
		return d
	})
	o.Path(PathRule{Root: fn, From: calls("MarshalState.WriteObjectStart"), Via: end, Skip: fails, What: "an object in JSON does not end"})
	o.Path(PathRule{Root: fn, From: m.some, Via: calls("MarshalState.WriteObjectStart"), Until: anyField, What: "an object in JSON does not start"})
	o.Path(PathRule{Root: fn, From: lit(m.self + "==nil"), Via: calls("MarshalState.WriteNil"), What: "a nil message is not written to JSON"})
}

// wireEnumJSON: an enumeration is written by its name and read back from it.
func wireEnumJSON(o *Obl, rel, name string) {
	p := o.ck.P
	table := func(n string) Pred {
		return func(c *Ctx, ev *Event) bool {
			u, ok := ev.Instr.(*ssa.UnOp)
			if !ok || ev.Kind != KInstr {
				return false
			}
			g, ok := u.X.(*ssa.Global)
			return ok && g.Name() == name+n
		}
	}
	if fn := p.MethodOpt(rel, name, "MarshalProtoJSON"); fn != nil {
		o.SiteName(fnName(fn))
		w := callArgs("MarshalState.WriteEnumString|MarshalState.WriteEnum", "*", "*<"+name+">*")
		o.Path(PathRule{Root: fn, Via: w, What: "the value is not written to JSON"})
		o.Guard(GuardRule{Root: fn, Effect: calls("MarshalState.WriteEnumString"), Needs: []Pred{table("_name")}, What: "the value is written to JSON by another name"})
	}
	if fn := p.MethodOpt(rel, name, "UnmarshalProtoJSON"); fn != nil {
		o.SiteName(fnName(fn))
		store := func(c *Ctx, ev *Event) bool {
			st, ok := ev.Instr.(*ssa.Store)
			if !ok || ev.Kind != KInstr {
				return false
			}
			_, ok = c.Resolve(c.Val(st.Addr)).V.(*ssa.Parameter)
			return ok
		}
		set := allOf(store, func(c *Ctx, ev *Event) bool {
			return glob("*UnmarshalState.ReadEnum(*", c.StrV(ev.Instr.(*ssa.Store).Val))
		})
		o.Path(PathRule{Root: fn, Via: set, Skip: lit("!UnmarshalState.Err(*)==nil"), What: "the value read from JSON is dropped"})
		o.Never(fn, allOf(store, notP(set)), "another value than the one read from JSON is stored")
		o.Guard(GuardRule{Root: fn, Effect: set, Needs: []Pred{lit("UnmarshalState.Err(*)==nil"), table("_value")}, What: "a value that could not be read from JSON is stored"})
	}
}

func wireFromJSON(o *Obl, m *wireMsg, method *ssa.Function) {
	var fns []*ssa.Function
	var all func(f *ssa.Function)
	all = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			all(a)
		}
	}
	all(method)
	readNil := lit("UnmarshalState.ReadNil(*)")
	fails := calls("UnmarshalState.SetError", "UnmarshalState.SetErrorf")
	reads := map[string]string{"string": "ReadString", "bool": "ReadBool", "uint": "ReadUint*|ReadInt*", "strings": "ReadStringArray", "bytes": "ReadBytes"}
	for _, f := range m.fields {
		var vals []string
		for _, r := range strings.Split(reads[f.kind], "|") {
			vals = append(vals, "UnmarshalState."+r+"(*)")
		}
		var set Pred
		switch f.kind {
		case "bytes":
			set = storeTo(f.F, "*UnmarshalState.Read*", "UnmarshalState.SkipAndReturnBytes(*)")
		case "msg":
			set = callArgs(f.elem+".UnmarshalProtoJSON", f.F+"|new "+f.elem, "*")
			into := callArgs(f.elem+".UnmarshalProtoJSON", f.F, "*")
			for _, fn := range fns {
				if o.ck.reaches(fn, into) {
					o.Guard(GuardRule{Root: fn, Effect: into, Needs: []Pred{anyOf(storeTo(f.F, "new "+f.elem), lit("!"+f.F+"==nil"))}, Reset: anyOf(storeTo(f.F, "nil"), lit("!\"\"==*ReadObjectField(*)")), What: "JSON is decoded into a message that does not exist: " + f.F})
				}
			}
		case "enum":
			set = anyOf(callArgs(f.elem+".UnmarshalProtoJSON", f.F+"|*"+f.F+"*", "*"), storeTo(f.F, "*UnmarshalState.ReadEnum(*"))
		case "msgs":
			set = readsInto("UnmarshalState.ReadArray", f.F)
		case "map":
			set = readsInto("UnmarshalState.ReadStringMap", f.F)
		default:
			set = storeTo(f.F, vals...)
		}
		names := []string{f.name}
		if f.json != f.name {
			names = append(names, f.json)
		}
		var lits []string
		for _, n := range names {
			q := strconv.Quote(n)
			lits = append(lits, q+"==*")
			found := false
			for _, fn := range fns {
				if !o.ck.reaches(fn, lit(q+"==*")) {
					continue
				}
				found = true
				o.Path(PathRule{Root: fn, From: lit(q + "==*"), Via: anyOf(set, fails), Skip: anyOf(readNil), Until: lit("*ReadObjectField(*)"), What: "the field is not read from JSON: " + f.F})
			}
			if !found {
				o.Fail("nojson|"+f.F+"|"+n, method.Pos(), nil, "%s: the name %s of %s is not read from JSON", fnName(method), q, f.F)
			}
		}
		if f.F == "ControllerConfig.Rev" {
			lits = append(lits, "\"revision\"==*") // another name it is read under
		}
		for _, fn := range fns {
			if o.ck.reaches(fn, set) && o.ck.reaches(fn, readNil) && (f.kind == "msg" || f.list()) {
				o.Path(PathRule{Root: fn, Arm: lit(lits...), From: readNil, Via: storeTo(f.F, "nil"), Optional: true, Disarm: anyOf(storeTo(f.F, "nil"), lit("!\"\"==*ReadObjectField(*)")), What: "null in JSON does not clear " + f.F})
			}
			if f.kind == "map" && o.ck.reaches(fn, set) {
				o.Guard(GuardRule{Root: fn, Effect: set, Needs: []Pred{anyOf(storeTo(f.F, "makemap*"), lit("!"+f.F+"==nil"))}, What: "an entry is read from JSON into a map that may be nil"})
			}
			if o.ck.reaches(fn, set) {
				o.Guard(GuardRule{Root: fn, Effect: set, Needs: []Pred{lit(lits...)}, Reset: lit("!\"\"==*ReadObjectField(*)"), What: "something else is read from JSON into " + f.F})
			}
			inner := f.kind == "msgs" || f.kind == "map"
			ok := anyOf(set, storeTo(f.F, "nil", "new "+f.elem, "makemap*"))
			if inner {
				ok = anyOf(storeTo(f.F, "nil", "makemap*"), listAdd(f.F, "new "+f.elem), listAdd(f.F, "nil"))
			}
			o.Never(fn, allOf(storeTo(f.F), notP(ok)), "another value is read from JSON into "+f.F)
			if inner {
				elem := anyOf(listAdd(f.F, "new "+f.elem), mapPut(f.F, "*", "new "+f.elem))
				if o.ck.reaches(fn, anyOf(elem, callArgs(f.elem+".UnmarshalProtoJSON", "new "+f.elem, "*"))) {
					if f.kind == "msgs" && o.ck.reaches(fn, readNil) && !o.ck.reaches(fn, storeTo(f.F, "nil")) {
						o.Path(PathRule{Root: fn, From: readNil, Via: listAdd(f.F, "nil"), What: "an element that is null in JSON is dropped: " + f.F})
					}
					o.Guard(GuardRule{Root: fn, Effect: elem, Needs: []Pred{callArgs(f.elem+".UnmarshalProtoJSON", "new "+f.elem, "*")}, What: "an element is not read from JSON: " + f.F})
					o.Path(PathRule{Root: fn, From: callArgs(f.elem+".UnmarshalProtoJSON", "new "+f.elem, "*"), Via: elem, Skip: lit("!UnmarshalState.Err(*)==nil"), What: "an element read from JSON is dropped: " + f.F})
					if f.kind == "map" {
						o.Never(fn, allOf(mapPut(f.F, "*", "*"), notP(mapPut(f.F, "<string>", "new "+f.elem))), "an entry is read from JSON under another key: "+f.F)
					}
				}
			}
		}
	}
}

// readsInto: a list or map is read with a function that stores into the field.
func readsInto(callee, F string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		cc := execCall(ev)
		if cc == nil || !c.W.P.calleeIs(cc, []string{callee}) {
			return false
		}
		for _, a := range c.Args(cc) {
			mc, ok := c.Resolve(a).V.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for _, b := range mc.Fn.(*ssa.Function).Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldRender(fa) == F {
							return true
						}
					case *ssa.MapUpdate:
						if u, ok := x.Map.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldRender(fa) == F {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
}

func fieldRender(fa *ssa.FieldAddr) string {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return baseTypeName(p.Elem()) + "." + st.Field(fa.Field).Name()
}

// ---- definitions ----

var (
	reProtoMsg   = regexp.MustCompile(`^message\s+(\w+)\s*\{`)
	reProtoField = regexp.MustCompile(`^(repeated\s+)?(map<\s*\w+\s*,\s*[\w.]+\s*>|[\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(\[.*\])?;`)
)

// wireSchema compares the messages with the .proto files of their packages.
func wireSchema(o *Obl, msgs []*wireMsg, rels []string) {
	for _, rel := range rels {
		dir := filepath.Join(o.ck.P.Root, rel)
		ents, _ := filepath.Glob(filepath.Join(dir, "*.proto"))
		defs := map[string]map[string][3]string{} // message -> field name -> number, type, repeated
		for _, e := range ents {
			b, err := os.ReadFile(e)
			if err != nil {
				continue
			}
			cur := ""
			for _, l := range strings.Split(string(b), "\n") {
				l = strings.TrimSpace(l)
				if i := strings.Index(l, "//"); i >= 0 {
					l = strings.TrimSpace(l[:i])
				}
				if x := reProtoMsg.FindStringSubmatch(l); x != nil {
					cur = x[1]
					defs[cur] = map[string][3]string{}
					continue
				}
				if l == "}" {
					cur = ""
				}
				if cur == "" || strings.HasPrefix(l, "option") || strings.HasPrefix(l, "reserved") {
					continue
				}
				if x := reProtoField.FindStringSubmatch(l); x != nil {
					rep := ""
					if x[1] != "" || strings.HasPrefix(x[2], "map<") {
						rep = "rep"
					}
					defs[cur][x[3]] = [3]string{x[4], x[2], rep}
				}
			}
		}
		for _, m := range msgs {
			if m.rel != rel || m.entry {
				continue
			}
			pos := o.ck.P.Named(m.rel, m.name).Obj().Pos()
			d, ok := defs[m.name]
			if !ok {
				o.Fail("nodef|"+m.name, pos, nil, "%s: the message %s is in no .proto file of the package", rel, m.name)
				continue
			}
			have := map[string]bool{}
			nums := map[int]string{}
			for _, f := range m.fields {
				have[f.name] = true
				o.SiteName(f.F)
				if nums[f.num] != "" {
					o.Fail("dup|"+f.F, f.v.Pos(), nil, "%s and %s have the same number", f.F, nums[f.num])
				}
				nums[f.num] = f.F
				x, ok := d[f.name]
				if !ok {
					o.Fail("extra|"+f.F, f.v.Pos(), nil, "%s is not in the definition of the message", f.F)
					continue
				}
				if x[0] != strconv.Itoa(f.num) {
					o.Fail("num|"+f.F, f.v.Pos(), nil, "%s has the number %d, its definition says %s", f.F, f.num, x[0])
				}
				if (x[2] != "") != f.list() {
					o.Fail("rep|"+f.F, f.v.Pos(), nil, "%s is repeated in its definition or its type only", f.F)
				}
				want := map[string]string{"string": "string", "bool": "bool", "bytes": "bytes", "strings": "string"}[f.kind]
				if want != "" && want != x[1] {
					o.Fail("type|"+f.F, f.v.Pos(), nil, "%s is a %s, its definition says %s", f.F, want, x[1])
				}
				if f.kind == "uint" && x[1] != typeName(f.v.Type()) {
					o.Fail("type|"+f.F, f.v.Pos(), nil, "%s is a %s, its definition says %s", f.F, typeName(f.v.Type()), x[1])
				}
				if (f.wt == 0) != (f.kind == "bool" || f.kind == "uint" || f.kind == "enum") {
					o.Fail("wire|"+f.F, f.v.Pos(), nil, "%s has the wrong wire type", f.F)
				}
			}
			for n := range d {
				if !have[n] {
					o.Fail("lost|"+m.name+"."+n, pos, nil, "%s: the field %s of the definition of %s is not in the message", rel, n, m.name)
				}
			}
		}
	}
}

// wireEnums compares the two tables of an enumeration with its constants.
func wireEnums(o *Obl, rels []string) {
	n := 0
	for _, rel := range rels {
		sp := o.ck.P.pkg(rel)
		for _, mem := range sp.Members {
			g, ok := mem.(*ssa.Global)
			if !ok || !strings.HasSuffix(g.Name(), "_name") {
				continue
			}
			base := strings.TrimSuffix(g.Name(), "_name")
			vg, ok := sp.Members[base+"_value"].(*ssa.Global)
			tn, isT := sp.Pkg.Scope().Lookup(base).(*types.TypeName)
			if !ok || !isT {
				continue
			}
			n++
			o.SiteName(rel + "." + base)
			names, values := mapLiteral(sp, g), mapLiteral(sp, vg)
			for k, v := range names {
				if values[v] != k {
					o.Fail("enum|"+base+"|"+v, g.Pos(), nil, "%s.%s: %s is named %s, which stands for %s", rel, base, k, v, values[v])
				}
			}
			for v, k := range values {
				if names[k] != v {
					o.Fail("enum|"+base+"|"+v, vg.Pos(), nil, "%s.%s: %s stands for %s, which is named %s", rel, base, v, k, names[k])
				}
			}
			for _, cn := range sp.Pkg.Scope().Names() {
				k, ok := sp.Pkg.Scope().Lookup(cn).(*types.Const)
				if !ok || k.Type() != tn.Type() {
					continue
				}
				want := strconv.Quote(strings.TrimPrefix(cn, base+"_"))
				if got := names[k.Val().ExactString()]; got != want {
					o.Fail("enum|"+cn, k.Pos(), nil, "%s.%s is named %s", rel, cn, got)
				}
			}
		}
	}
	if n == 0 {
		anchorFail("no enumeration found")
	}
}

// wireEnumTypes lists the enumerations.
func wireEnumTypes(p *Prog, rels []string) (out [][2]string) {
	for _, rel := range rels {
		sp := p.pkg(rel)
		for _, n := range sp.Pkg.Scope().Names() {
			if tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok && sp.Members[n+"_name"] != nil && sp.Members[n+"_value"] != nil {
				out = append(out, [2]string{rel, tn.Name()})
			}
		}
	}
	return
}

// mapLiteral: what a package-level map is initialised with.
func mapLiteral(sp *ssa.Package, g *ssa.Global) map[string]string {
	out := map[string]string{}
	init := sp.Func("init")
	if init == nil {
		return out
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			mk, ok := st.Val.(*ssa.MakeMap)
			if !ok {
				continue
			}
			for _, r := range *mk.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok {
					k, ok1 := mu.Key.(*ssa.Const)
					v, ok2 := mu.Value.(*ssa.Const)
					if ok1 && ok2 {
						out[k.Value.ExactString()] = v.Value.ExactString()
					}
				}
			}
		}
	}
	return out
}

func init() {
	register("S02", "Typestate analysis of the encoders, decoders, copies and comparisons of every message field; the fields against their definitions", checkS02)
}

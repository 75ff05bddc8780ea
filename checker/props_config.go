package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// configParams are the parameters of the interface type config.Config.
func configParams(fn *ssa.Function) (out []*ssa.Parameter) {
	for _, q := range fn.Params {
		if isConfigIface(q.Type()) {
			out = append(out, q)
		}
	}
	return
}

func isConfigIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Config" && types.IsInterface(n) && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "controllerbus/config")
}

func methodsNamed(p *Prog, name string) (out []*ssa.Function) {
	for _, f := range p.repoFuncs() {
		if f.Name() == name && f.Signature.Recv() != nil && len(configParams(f)) == 1 {
			out = append(out, f)
		}
	}
	return
}

func ptrElem(t types.Type) types.Type {
	if q, ok := types.Unalias(t).(*types.Pointer); ok {
		return q.Elem()
	}
	return t
}

// constructedType is the concrete type of what the ConstructConfig method of the same receiver returns (nil: unknown).
func (p *Prog) constructedType(recv types.Type) types.Type {
	n := namedOf(recv)
	if n == nil {
		return nil
	}
	for _, m := range p.Methods(n) {
		if m.Name() != "ConstructConfig" {
			continue
		}
		for _, b := range m.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				if mi, ok := r.Results[0].(*ssa.MakeInterface); ok {
					return mi.X.Type()
				}
			}
		}
	}
	return nil
}

// constString evaluates a method without arguments that returns a constant on every path, also through other
// methods of the same receiver.
func (p *Prog) constString(n *types.Named, name string, d int) (string, bool) {
	for _, m := range p.Methods(n) {
		if m.Name() != name || d > 4 {
			continue
		}
		res, seen := "", false
		for _, b := range m.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			var s string
			switch v := r.Results[0].(type) {
			case *ssa.Const:
				if v.Value == nil || v.Value.Kind() != constant.String {
					return "", false
				}
				s = constant.StringVal(v.Value)
			case *ssa.Call:
				f := v.Call.StaticCallee()
				if f == nil || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != n {
					return "", false
				}
				if s, ok = p.constString(n, f.Name(), d+1); !ok {
					return "", false
				}
			default:
				return "", false
			}
			if seen && s != res {
				return "", false
			}
			res, seen = s, true
		}
		return res, seen
	}
	return "", false
}

// assertGuard walks a function that is given a configuration: it may not assert its type without looking at the
// result, may not call its methods unless it is known not to be nil, and may return success (accept) only where the
// type is known to be own, or where another function that is itself checked decided.
func (o *Obl) assertGuard(fn *ssa.Function, own types.Type, accept func(c *Ctx, res []Val) bool, delegate func(cc *ssa.CallCommon) bool) {
	param := configParams(fn)[0]
	t := trial{from: map[ssa.Instruction]bool{}, roots: []*ssa.Function{fn}}
	w := &Walker{P: o.ck.P, Root: fn, Init: 0, Interesting: func(in ssa.Instruction) bool { return true }}
	w.NoInline = func(f *ssa.Function) bool { return f.Name() == "EqualsConfig" || f.Name() == "Construct" }
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := st.(int)
		root := c.S.F
		for root.up != nil {
			root = root.up
		}
		pv := Val{root, param}
		isParam := func(v ssa.Value) bool {
			return c.W.resolveKeepIface(c.S.env, c.Val(v)) == pv || c.Resolve(c.Val(v)) == pv
		}
		switch ev.Kind {
		case KInstr:
			if ta, ok := ev.Instr.(*ssa.TypeAssert); ok && isParam(ta.X) {
				t.from[ta] = true
				if !ta.CommaOk && s&1 == 0 {
					c.Violate("panics", "%s: a type assertion on the configuration panics if it has another type", fnName(fn))
				}
			}
			if cc := execCall(ev); cc != nil {
				if cc.IsInvoke() && isParam(cc.Value) && s&1 == 0 && c.W.nilness(c.S.env, pv) != 2 {
					c.Violate("nilcall", "%s: calls a method of the configuration although it may be nil", fnName(fn))
				}
				if delegate != nil && delegate(cc) && !ev.Inlined {
					for _, a := range cc.Args {
						if isParam(a) {
							t.from[ev.Instr] = true
							s |= 2
						}
					}
				}
			}
		case KEdge:
			if ev.Lit.Op == "true" && ev.Lit.Truth {
				v := c.Resolve(ev.Lit.X)
				if ex, ok := v.V.(*ssa.Extract); ok && ex.Index == 1 {
					if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk {
						if c.Resolve(Val{v.F, ta.X}) == pv || c.W.resolveKeepIface(c.S.env, Val{v.F, ta.X}) == pv {
							if own == nil || types.Identical(ta.AssertedType, own) {
								s |= 1
							} else if !types.IsInterface(ta.AssertedType) {
								c.Violate("type", "%s: accepts a configuration of type %s, its own is %s", fnName(fn), ta.AssertedType, own)
							}
						}
					}
				}
			}
		case KExit:
			if s == 0 && accept(c, ev.Results) {
				c.Violate("accepts", "%s: accepts a configuration without having checked that it has its own type", fnName(fn))
			}
		}
		return s
	}
	t.viols = o.ck.walk(w)
	o.record(t)
	o.SiteName(fnName(fn))
}

func checkK01(ck *Check) {
	p := ck.P
	ck.Do("construct", "every factory checks that the configuration it is given has the type its ConstructConfig returns before it constructs from it, and fails otherwise", func(o *Obl) {
		fns := methodsNamed(p, "Construct")
		for _, fn := range fns {
			own := p.constructedType(fn.Signature.Recv().Type())
			o.assertGuard(fn, own, func(c *Ctx, res []Val) bool {
				return len(res) == 2 && c.W.nilness(c.S.env, res[1]) != 2
			}, func(cc *ssa.CallCommon) bool { return calleeName(cc) == "Construct" })
		}
		if len(fns) < 4 {
			o.Fail("few", 0, nil, "found only %d factories", len(fns))
		}
	})
	ck.Do("equals", "every configuration comparison reports inequality for a configuration of another type", func(o *Obl) {
		var fns []*ssa.Function
		for _, f := range p.repoFuncs() {
			if f.Name() == "EqualsConfig" && len(configParams(f)) == 1 {
				fns = append(fns, f)
			}
		}
		for _, fn := range fns {
			param := configParams(fn)[0]
			var own types.Type
			if r := fn.Signature.Recv(); r != nil {
				own = r.Type()
			}
			o.assertGuard(fn, own, func(c *Ctx, res []Val) bool {
				if len(res) != 1 {
					return false
				}
				if v, ok := c.known(res[0]); ok {
					return v
				}
				// the outcome of the type check itself
				r := c.Resolve(res[0])
				if ex, ok := r.V.(*ssa.Extract); ok && ex.Index == 1 {
					if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk && c.Resolve(Val{r.F, ta.X}).V == ssa.Value(param) && (own == nil || types.Identical(ta.AssertedType, own)) {
						return false
					}
				}
				return true
			}, func(cc *ssa.CallCommon) bool {
				// the generic comparison, for the receiver's own type
				f := cc.StaticCallee()
				if f == nil || origin(f).Name() != "EqualsConfig" || own == nil {
					return false
				}
				ta := f.TypeArgs()
				return len(ta) == 1 && types.Identical(ta[0], own)
			})
		}
		if len(fns) < 5 {
			o.Fail("few", 0, nil, "found only %d comparisons", len(fns))
		}
	})
	ck.Do("ids", "a factory constructs configurations that carry its own id", func(o *Obl) {
		n := 0
		for _, fn := range methodsNamed(p, "Construct") {
			fac := namedOf(fn.Signature.Recv().Type())
			id, ok := p.constString(fac, "GetConfigID", 0)
			own := p.constructedType(fn.Signature.Recv().Type())
			if !ok || own == nil {
				continue
			}
			cn := namedOf(ptrElem(own))
			if cn == nil {
				continue
			}
			cid, ok := p.constString(cn, "GetConfigID", 0)
			if !ok {
				continue
			}
			n++
			o.SiteName(fmt.Sprintf("%s.GetConfigID", fac))
			if id != cid {
				o.Fail("id|"+fac.String(), fn.Pos(), nil, "the factory %s has the id %q, the configuration it constructs %q", fac, id, cid)
			}
		}
		if n < 3 {
			o.Fail("few", 0, nil, "could evaluate only %d pairs of ids", n)
		}
	})
	ck.Do("constructs", "a factory constructs a configuration", func(o *Obl) {
		n := 0
		for _, f := range p.repoFuncs() {
			if f.Name() != "ConstructConfig" || f.Signature.Recv() == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || f.Synthetic != "" {
				continue
			}
			n++
			o.Never(f, exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) == 1 }), "no configuration is constructed")
		}
		if n < 4 {
			o.Fail("few", 0, nil, "found only %d constructors", n)
		}
	})
	ck.Do("assertions", "no type assertion on a configuration outside the factories can panic", func(o *Obl) {
		for _, fn := range p.repoFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && isConfigIface(ta.X.Type()) {
						o.Site(ta)
						ck.Funcs[fnName(fn)] = true
						if !ta.CommaOk {
							o.Fail("assert|"+fnName(fn), ta.Pos(), nil, "%s asserts the type of a configuration without looking at the result", fnName(fn))
						}
					}
				}
			}
		}
	})
}

func init() {
	register("K01", "Path-sensitive type-guard analysis of every factory and configuration comparison; constant evaluation of the ids", checkK01)
}

const staticPkg, configsetPkg, resolverPkg, loaderPkg = "controller/resolver/static", "controller/configset", "controller/resolver", "controller/loader"

// methodsSig lists the methods of the repository with a name and number of parameters and results.
func methodsSig(p *Prog, name string, params, results int) (out []*ssa.Function) {
	for _, f := range p.repoFuncs() {
		if f.Name() == name && f.Signature.Recv() != nil && f.Signature.Params().Len() == params && f.Signature.Results().Len() == results && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return
}

func isDirectiveParam(f *ssa.Function) bool {
	n := namedOf(f.Signature.Params().At(0).Type())
	return n != nil && n.Obj().Name() == "Directive"
}

func checkL04(ck *Check) {
	p := ck.P
	const other = "<Directive>"
	ck.Do("kind", "a directive is equivalent to, or supersedes, only a directive of the same kind", func(o *Obl) {
		n := 0
		for _, name := range []string{"IsEquivalent", "Superceeds"} {
			for _, fn := range methodsSig(p, name, 1, 1) {
				if !isDirectiveParam(fn) {
					continue
				}
				n++
				if name == "Superceeds" && neverTrue(fn) {
					o.SiteName(fnName(fn))
					continue
				}
				iface := namedOf(fn.Signature.Recv().Type()).Obj().Name()
				o.TrueOnlyIf(fn, "accepts a directive without having checked its kind", func(atom string, truth bool) bool {
					return truth && strings.HasPrefix(atom, "is("+other+",") && strings.EqualFold(strings.TrimSuffix(strings.TrimPrefix(atom, "is("+other+","), ")"), iface)
				})
			}
		}
		if n < 7 {
			o.Fail("few", 0, nil, "found only %d comparisons of directives", n)
		}
	})
	ck.Do("assertions", "no type assertion on a directive, configuration or factory of a request can panic", func(o *Obl) {
		for _, fn := range p.repoFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ta, ok := in.(*ssa.TypeAssert)
					if !ok {
						continue
					}
					n, _ := types.Unalias(ta.X.Type()).(*types.Named)
					if n == nil || n.Obj().Name() != "Directive" {
						continue
					}
					o.Site(ta)
					ck.Funcs[fnName(fn)] = true
					if !ta.CommaOk && !assertedBefore(ta) {
						o.Fail("assert|"+fnName(fn), ta.Pos(), nil, "%s asserts the type of a directive without looking at the result", fnName(fn))
					}
				}
			}
		}
	})
	ck.Do("parameters", "directives are equivalent only if every parameter that determines the result agrees", func(o *Obl) {
		for _, fn := range methodsSig(p, "IsEquivalent", 1, 1) {
			if !isDirectiveParam(fn) {
				continue
			}
			typ := namedOf(fn.Signature.Recv().Type()).Obj().Name()
			for _, f := range recvFields(fn) {
				own := typ + "." + f.Name()
				what := "directives that differ in " + own + " are considered equivalent"
				switch u := f.Type().Underlying().(type) {
				case *types.Slice:
					each := relates("*==*", own+"[", other, "[")
					o.Or(func(o *Obl) {
						o.TrueOnlyIf(fn, what+" (length)", orNeed(relates("len(*)==len(*)", "len("+own+")", other)))
						o.ForEach(ForEachRule{Root: fn, Coll: []string{own, "*" + other + "*"}, Must: each.pred(), Leave: exitWith(func(c *Ctx, r []Val) bool { v, ok := c.known(r[0]); return ok && !v }), What: what})
						o.TrueOnlyIf(fn, what+" (not compared)", orNeed(fact("!(~+1)<len("+own+")", "!(~+1)<len(*"+other+"*)", "len("+own+")==0", "len(*"+other+"*)==0", "!more("+own+")", "!more(*"+other+"*)", "!*<len("+own+")", "!*<len(*"+other+"*)")))
					}, func(o *Obl) {
						o.TrueOnlyIf(fn, what, relates("slices.Equal(*)", own, other))
					})
					_ = u
				case *types.Map:
					o.Or(func(o *Obl) {
						o.TrueOnlyIf(fn, what, fact("!more("+own+")", "len("+own+")==0"), fact("!more(*"+other+"*)", "len(*"+other+"*)==0"))
					}, func(o *Obl) {
						o.TrueOnlyIf(fn, what, relates("*Equal*", own, other))
					})
				case *types.Interface:
					if isConfigIface(f.Type()) {
						o.TrueOnlyIf(fn, what, relates("Config.EqualsConfig(*)", own, other))
						// comparing a missing configuration panics
						o.Guard(GuardRule{Root: fn, Effect: callArgs("Config.EqualsConfig", own), Needs: []Pred{lit("!" + own + "==nil")}, Optional: true, What: "a missing configuration is compared"})
						o.Guard(GuardRule{Root: fn, Effect: callArgs("Config.EqualsConfig", "*"+other+"*"), Needs: []Pred{lit("!*" + other + "*==nil")}, Optional: true, What: "a missing configuration is compared"})
						break
					}
					o.TrueOnlyIf(fn, what, relates("*==*", own, other))
				default:
					whole := func(n Need) Need { // not only the lengths
						return func(atom string, truth bool) bool { return !strings.Contains(atom, "len(") && n(atom, truth) }
					}
					o.TrueOnlyIf(fn, what, whole(orNeed(relates("*==*", own, other), relates("*==*", typ+".Get"+f.Name()+"(", other))))
				}
				o.SiteName(own)
			}
		}
	})
	ck.Do("supersedes", "a request to execute a controller supersedes an equivalent one only with a newer factory", func(o *Obl) {
		for _, fn := range methodsSig(p, "Superceeds", 1, 1) {
			if !isDirectiveParam(fn) || neverTrue(fn) {
				continue
			}
			typ := namedOf(fn.Signature.Recv().Type()).Obj().Name()
			newer := func(atom string, truth bool) bool {
				i, j := strings.Index(atom, typ+"."), strings.Index(atom, other)
				if i < 0 || j < 0 {
					return false
				}
				gt, lt := glob("Version.GT(*", atom), glob("Version.LT(*", atom)
				ge, le := glob("Version.GTE(*", atom) || glob("Version.GE(*", atom), glob("Version.LTE(*", atom) || glob("Version.LE(*", atom)
				if ownFirst := i < j; ownFirst {
					return gt && truth || le && !truth
				}
				return lt && truth || ge && !truth
			}
			o.TrueOnlyIf(fn, "supersedes without being newer", newer)
			o.ResultOnlyIf(fn, "does not supersede although it is newer", func(c *Ctx, res []Val) (bool, string, bool) {
				may, atom, truth := claimTrue(c, res)
				if !may {
					return true, "", true
				}
				if atom != "" {
					return !newer(atom, truth), "", true
				}
				return false, "", true
			}, func(atom string, truth bool) bool {
				return !truth && newer(atom, !truth) || truth && glob("*==nil", atom) || !truth && glob("is(*", atom)
			})
		}
	})
	validate := func(typ, rel string) *ssa.Function { return p.Method(rel, typ, "Validate") }
	ck.Do("validate", "validation rejects a missing or invalid parameter", func(o *Obl) {
		for _, rel := range []string{configsetPkg, resolverPkg, loaderPkg, "example/boilerplate/v1"} {
			for _, eq := range p.FuncsIn(rel) {
				if eq.Name() != "IsEquivalent" || eq.Signature.Recv() == nil {
					continue
				}
				typ := namedOf(eq.Signature.Recv().Type()).Obj().Name()
				fn := validate(typ, rel)
				for _, f := range recvFields(fn) {
					own := typ + "." + f.Name()
					switch f.Type().Underlying().(type) {
					case *types.Interface:
						o.NilErrOnlyIf(fn, "a request without "+own+" is valid", fact("!"+own+"==nil"))
						if isConfigIface(f.Type()) && !strings.Contains(typ, "Factory") { // looking up a factory only needs the id
							o.NilErrOnlyIf(fn, "a request with an invalid "+own+" is valid", fact("Config.Validate("+own+")==nil"))
						}
					case *types.Map:
						o.ForEach(ForEachRule{Root: fn, Coll: []string{own}, Must: lit("!ControllerConfig.GetConfig(*)==nil"), Leave: exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[0]) == 2 }), What: "an entry without configuration is valid"})
					case *types.Basic:
						o.NilErrOnlyIf(fn, "a request without "+own+" is valid", fact("!"+own+"==\"\"", "!\"\"=="+own, "!len("+own+")==0", "0<len("+own+")", "!"+typ+".Get"+f.Name()+"(*)==\"\"", "!\"\"=="+typ+".Get"+f.Name()+"(*)"))
					}
				}
			}
		}
	})
}

// assertedBefore: the asserted type was found on every path by a type switch or comma-ok assertion on the same value.
func assertedBefore(ta *ssa.TypeAssert) bool {
	for d := ta.Block().Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || !d.Succs[0].Dominates(ta.Block()) {
			continue
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 1 {
			if t2, ok := ex.Tuple.(*ssa.TypeAssert); ok && t2.X == ta.X && types.Identical(t2.AssertedType, ta.AssertedType) {
				return true
			}
		}
	}
	return false
}

// neverTrue: the function returns the constant false.
func neverTrue(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			k, ok := r.Results[0].(*ssa.Const)
			if !ok || k.Value == nil || constant.BoolVal(k.Value) {
				return false
			}
		}
	}
	return true
}

func init() {
	register("L04", "Path-sensitive analysis of what every comparison and validation of a request establishes before it accepts", checkL04)
}

func checkL03(ck *Check) {
	p := ck.P
	add := p.Method(staticPkg, "Resolver", "AddFactory")
	ctor := p.Method(staticPkg, "Resolver", "GetConfigCtorByID")
	match := p.Method(staticPkg, "Resolver", "GetFactoryMatchingConfig")
	all := p.Method(staticPkg, "Resolver", "GetFactories")
	fields := map[string]bool{"Resolver.factories": true}
	ck.Do("locked", "the registry is accessed only under its lock, which is paired on every path", func(o *Obl) {
		o.Lockset(LockRule{Pkg: staticPkg, Lock: callArgs("Mutex.Lock|RWMutex.Lock|RWMutex.RLock", "Resolver.*"), Unlock: callArgs("Mutex.Unlock|RWMutex.Unlock|RWMutex.RUnlock", "Resolver.*"), Fields: fields})
		o.NotShared(staticPkg, fields)
	})
	const reg, key, have = "Resolver.factories", "Factory.GetConfigID(<Factory>)", "Resolver.factories[Factory.GetConfigID(<Factory>)]"
	const ver, newVer = "Factory.GetVersion(" + have + ")", "Factory.GetVersion(<Factory>)"
	put := mapPut(reg, key, "<Factory>")
	vers := func(name, a, b string) string { return "Version." + name + "(" + a + "," + b + ")" }
	notNewer := lit(vers("GTE", ver, newVer), vers("GE", ver, newVer), vers("LTE", newVer, ver), vers("LE", newVer, ver), "!"+vers("LT", ver, newVer), "!"+vers("GT", newVer, ver), vers("GT", ver, newVer), vers("LT", newVer, ver), vers("EQ", ver, newVer), vers("Equals", ver, newVer))
	newer := lit("!"+vers("GTE", ver, newVer), "!"+vers("GE", ver, newVer), "!"+vers("LTE", newVer, ver), "!"+vers("LE", newVer, ver), vers("LT", ver, newVer), vers("GT", newVer, ver))
	absent := lit("!has("+reg+","+key+")", have+"==nil")
	ck.Do("add", "a factory is registered under its id unless one of at least its version is", func(o *Obl) {
		o.Path(PathRule{Root: add, Via: put, Skip: notNewer, What: "the factory is not registered"})
		o.Guard(GuardRule{Root: add, Effect: put, Needs: []Pred{anyOf(absent, newer)}, What: "the factory replaces one of the same or a higher version"})
		o.NeverIn(staticPkg, allOf(mapPut("Resolver.factories", "*", "*"), notP(put)), "a factory is registered under another id")
		o.NeverIn(staticPkg, callArgs("delete", reg), "a factory is removed")
	})
	ck.Do("constructor", "all factories given to the constructor are added", func(o *Obl) {
		if fn := p.Func(staticPkg, "NewResolver"); fn != nil {
			o.ForEach(ForEachRule{Root: fn, Coll: []string{"<[]Factory>"}, Must: anyOf(mapPut("*", "*", "<[]Factory>[]"), lit("Version.GTE(*)", "Version.GE(*)")), Reach: true, What: "a factory is not added"})
		}
	})
	found := "Resolver.factories[Config.GetConfigID(<Config>)]"
	ck.Do("match", "the factory for a configuration is the one with the configuration's id", func(o *Obl) {
		sameID := fact("has("+reg+",Config.GetConfigID(<Config>))", "!"+found+"==nil", "*Config.GetConfigID(<Config>)==*Factory.GetConfigID("+reg+"[])", "Factory.GetConfigID("+reg+"[])==Config.GetConfigID(<Config>)")
		gone := fact("!has("+reg+",Config.GetConfigID(<Config>))", found+"==nil", "!more("+reg+")")
		o.Guard(GuardRule{Root: match, Effect: exitWith(func(c *Ctx, r []Val) bool { s := c.Str(r[0]); return s != "nil" && s != found }), Needs: []Pred{sameID.pred()}, Reset: iter(reg), Optional: true, What: "returns a factory that does not have the id of the configuration"})
		o.Never(match, exitWith(func(c *Ctx, r []Val) bool {
			return len(r) != 2 || !globAny([]string{"nil", found, reg + "[]"}, c.Str(r[0])) || c.Str(r[1]) != "nil"
		}), "the result is not a registered factory")
		o.Guard(GuardRule{Root: match, Effect: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) == "nil" }), Needs: []Pred{gone.pred()}, Optional: true, What: "reports no factory although there may be one"})
	})
	ck.Do("by-id", "the constructor for an id is that of the factory with the id", func(o *Obl) {
		const fid, byKey = "Factory.GetConfigID(" + reg + "[])", reg + "[<string>]"
		sameID := fact("<string>=="+fid, fid+"==<string>", "has("+reg+",<string>)", "!"+byKey+"==nil")
		gone := fact("!more("+reg+")", "!has("+reg+",<string>)", byKey+"==nil")
		other := lit("!<string>=="+fid, "!"+fid+"==<string>")
		o.ForEach(ForEachRule{Root: ctor, Coll: []string{reg}, Must: other, Leave: isExit, Optional: true, What: "a factory with the id is passed over"})
		isNil := func(c *Ctx, r []Val) bool { return c.Str(r[0]) == "nil" }
		o.Guard(GuardRule{Root: ctor, Effect: exitWith(func(c *Ctx, r []Val) bool { return !isNil(c, r) }), Needs: []Pred{sameID.pred()}, Reset: iter(reg), What: "returns the constructor of a factory with another id"})
		o.Guard(GuardRule{Root: ctor, Effect: exitWith(isNil), Needs: []Pred{gone.pred()}, What: "reports no constructor although there may be one"})
		o.Path(PathRule{Root: ctor, Via: anyOf(storeTo("ConfigCtor.f", reg+"[]", byKey), exitWith(func(c *Ctx, r []Val) bool { return globAny([]string{reg + "[]", byKey}, c.Str(r[0])) })), Skip: gone.pred(), What: "the constructor does not use the factory found"})
		o.Never(ctor, allOf(storeTo("ConfigCtor.configID"), notP(storeTo("ConfigCtor.configID", fid, "<string>"))), "the constructor has another id than the one asked for")
	})
	ck.Do("ctor", "a constructor from the registry constructs the configuration of its factory", func(o *Obl) {
		cc := p.Method(staticPkg, "ConfigCtor", "ConstructConfig")
		o.Never(cc, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "Factory.ConstructConfig(ConfigCtor.f)" }), "constructs another configuration")
		gi := p.Method(staticPkg, "ConfigCtor", "GetConfigID")
		o.Never(gi, exitWith(func(c *Ctx, r []Val) bool {
			return c.Str(r[0]) != "ConfigCtor.configID" && c.Str(r[0]) != "Factory.GetConfigID(ConfigCtor.f)"
		}), "has another id than its factory")
	})
	ck.Do("list", "the list of factories has all of them", func(o *Obl) {
		o.Or(func(o *Obl) {
			o.Never(all, exitWith(func(c *Ctx, r []Val) bool {
				return !globAny([]string{"slices.Collect(maps.Values(" + reg + "))", "slices.Sorted*(maps.Values(" + reg + ")*)"}, c.Str(r[0]))
			}), "the list does not have all factories")
		}, func(o *Obl) {
			o.ForEach(ForEachRule{Root: all, Coll: []string{reg}, Must: adds(reg + "[]"), Reach: true, What: "a factory is missing in the list"})
		})
	})
}

// mapPut matches storing a value under a key of a map.
func mapPut(m, k, v string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		mu, ok := ev.Instr.(*ssa.MapUpdate)
		return ok && glob(m, c.StrV(mu.Map)) && glob(k, c.StrV(mu.Key)) && glob(v, c.StrV(mu.Value))
	}
}

func init() {
	register("L03", "Lockset analysis of the registry; guards and path obligations on what is registered and returned", checkL03)
}

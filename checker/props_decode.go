package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// okExit: a return whose error may be nil.
func okExit(c *Ctx, ev *Event) bool {
	return ev.Kind == KExit && len(ev.Results) > 0 && c.W.nilness(c.S.env, ev.Results[len(ev.Results)-1]) != 2
}

// okNil: a return of a nil value without an error.
func okNil(c *Ctx, ev *Event) bool {
	return ev.Kind == KExit && len(ev.Results) > 1 && c.W.nilness(c.S.env, ev.Results[0]) == 1 && c.W.nilness(c.S.env, ev.Results[len(ev.Results)-1]) == 1
}

// indexes: an element of one of the lists is addressed.
func indexes(lists ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if ev.Kind != KInstr {
			return false
		}
		switch x := ev.Instr.(type) {
		case *ssa.IndexAddr:
			return globAny(lists, c.StrV(x.X))
		case *ssa.Index:
			return globAny(lists, c.StrV(x.X))
		}
		return false
	}
}

// addsStr: a string is put into a list (not into the arguments of a formatting call).
func addsStr(pats ...string) Pred {
	return allOf(adds(pats...), func(c *Ctx, ev *Event) bool {
		st, ok := ev.Instr.(*ssa.Store)
		if !ok {
			return false
		}
		b, ok := st.Val.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	})
}

func alts(pre string, xs []string, post string) (out []string) {
	for _, x := range xs {
		out = append(out, pre+x+post)
	}
	return
}

// decodes: resolving an entry yields the configuration constructed for its id, filled from its contents, with its revision.
func (o *Obl) decodes(r *ssa.Function, id, rev, data []string) {
	const ctor = "*NewLoadConfigConstructorByID("
	var looked, ref []string
	for _, i := range id {
		looked = append(looked, "bus.*"+ctor+i+")*#3==nil")
		ref = append(ref, "bus.*"+ctor+i+")*#2")
	}
	made := "*ConstructConfig(*" // also: a field it is kept in
	filled := []string{"*.UnmarshalJSON(*)==nil", "*.UnmarshalVT(*)==nil"}
	for _, d := range data {
		filled = append(filled, "len("+d+")==0")
	}
	what := "an entry is decoded although "
	nonEmpty := append(alts("!len(", id, ")==0"), alts("!\"\"==", id, "")...)
	o.NilErrOnlyIf(r, what+"it has no id", fact(nonEmpty...))
	o.NilErrOnlyIf(r, what+"the constructor of its id was not found", fact(looked...))
	o.NilErrOnlyIf(r, what+"no constructor was found", fact("is(*,Constructor)", "bus.ExecOneOffTyped*"))
	o.NilErrOnlyIf(r, what+"no configuration was constructed", fact("!"+made+"==nil", "!Config.underlying==nil"))
	o.NilErrOnlyIf(r, what+"its contents could not be decoded", fact(filled...))
	o.Never(r, okNil, "an entry is decoded to nil without an error")
	o.Guard(GuardRule{Root: r, Effect: calls("Config.UnmarshalJSON", "Config.UnmarshalVT"), Needs: []Pred{lit("!"+made+"==nil", "!Config.underlying==nil")}, What: "contents are decoded into a configuration that may be nil"})
	o.Path(PathRule{Root: r, From: lit(looked...), Via: callArgs("Reference.Release", strings.Join(ref, "|")), What: "the constructor is not released"})
	for f, want := range map[string][]string{"controllerConfig.rev": rev, "controllerConfig.conf": {"*ConstructConfig(*", "Config.underlying"}} {
		o.Guard(GuardRule{Root: r, Effect: okExit, Needs: []Pred{storeTo(f, want...)}, What: "the decoded entry has no " + f[strings.Index(f, ".")+1:]})
		o.Never(r, allOf(storeTo(f), notP(storeTo(f, want...))), "the decoded entry has another "+f[strings.Index(f, ".")+1:])
	}
}

func checkS01(ck *Check) {
	p := ck.P
	ck.Inside = csProtoPkg + "|" + csJSONPkg + "|" + configsetPkg
	defer func() { ck.Inside = "" }()
	entry, jentry, jconf := p.Method(csProtoPkg, "ControllerConfig", "Resolve"), p.Method(csJSONPkg, "ControllerConfig", "Resolve"), p.Method(csJSONPkg, "Config", "Resolve")
	const cc = "<ControllerConfig>"
	id := []string{"ControllerConfig.GetId(" + cc + ")", "ControllerConfig.Id"}
	rev := []string{"ControllerConfig.GetRev(" + cc + ")", "ControllerConfig.Rev"}
	data := []string{"ControllerConfig.GetConfig(" + cc + ")", "ControllerConfig.Config"}
	unJSON, unVT := "*.UnmarshalJSON", "*.UnmarshalVT"
	ck.Do("entry", "an entry is decoded to the configuration constructed for its id and its revision, and every failure is an error", func(o *Obl) {
		o.decodes(entry, id, rev, data)
		o.decodes(jentry, id, rev, nil)
		// the contents
		first := alts("123==", data, "[0]")
		isObj, noObj := lit(first...), lit(alts("!", first, "")...)
		about := lit(append(append(append([]string{}, first...), alts("!", first, "")...), append(alts("*(", data, ",*"), alts("!*(", data, ",*")...)...)...)
		empty, some := lit(alts("len(", data, ")==0")...), lit(alts("!len(", data, ")==0")...)
		dec := anyOf(callArgs(unJSON, "*ConstructConfig(*", strings.Join(data, "|")), callArgs(unVT, "*ConstructConfig(*", strings.Join(data, "|")))
		anyDec := anyOf(calls("Config.UnmarshalJSON"), calls("Config.UnmarshalVT"))
		o.Path(PathRule{Root: entry, From: some, Via: dec, Skip: allOf(isExit, notP(okExit)), What: "the contents are not decoded"})
		o.Never(entry, allOf(anyDec, notP(dec)), "something else than the contents is decoded, or into another configuration")
		o.Guard(GuardRule{Root: entry, Effect: indexes(data...), Needs: []Pred{some}, What: "the first byte of empty contents is read"})
		o.Guard(GuardRule{Root: entry, Effect: anyDec, Needs: []Pred{anyOf(about, empty)}, What: "the format of the contents is not determined"})
		o.Path(PathRule{Root: entry, From: isObj, Via: anyOf(calls("Config.UnmarshalJSON"), isExit), Forbid: calls("Config.UnmarshalVT"), What: "JSON contents are decoded as binary"})
		o.Path(PathRule{Root: entry, From: noObj, Via: anyOf(calls("Config.UnmarshalVT"), isExit), Forbid: calls("Config.UnmarshalJSON"), What: "binary contents are decoded as JSON"})
		for _, r := range []*ssa.Function{jconf, jentry} {
			jd := callArgs("Config.UnmarshalJSON", "Config.underlying|*ConstructConfig(*", "*pendingParseData*")
			o.Never(r, allOf(calls("Config.UnmarshalJSON"), notP(jd)), "something else than the contents is decoded, or into another configuration")
			o.Never(r, allOf(storeTo("Config.underlying"), notP(storeTo("Config.underlying", "*ConstructConfig(*", "nil", "var:Config", "phi:Config"))), "another configuration is stored")
			o.Guard(GuardRule{Root: r, Effect: storeTo("Config.pendingParseData", "\"\""), Needs: []Pred{lit("Config.UnmarshalJSON(*)==nil")}, What: "the contents are dropped although they were not decoded", Optional: true})
		}
		for _, r := range []*ssa.Function{entry, jentry, jconf} {
			for _, e := range []string{"Config.UnmarshalJSON(*)", "Config.UnmarshalVT(*)"} {
				if ck.reaches(r, lit("!"+e+"==nil")) {
					o.Path(PathRule{Root: r, From: lit("!" + e + "==nil"), Via: isExit, Forbid: notReturning(e), What: "the error of decoding the contents is not returned"})
				}
			}
			o.Path(PathRule{Root: r, From: lit("!bus.*#3==nil"), Via: isExit, Forbid: notReturning("bus.*#3"), What: "the error of the lookup is not returned"})
		}
	})
	ck.Do("contents", "the contents of a JSON entry are kept until they are decoded", func(o *Obl) {
		un := p.Method(csJSONPkg, "Config", "UnmarshalJSON")
		o.Path(PathRule{Root: un, Via: storeTo("Config.pendingParseData", "<[]byte>"), Skip: notReturningNil, What: "the contents are not kept"})
		o.NilErrOnlyIf(un, "contents are accepted that are not JSON", fact("json.Unmarshal(<[]byte>,*)==nil", "json.Valid(<[]byte>)"))
		m := p.Method(csJSONPkg, "Config", "MarshalJSON")
		o.Path(PathRule{Root: m, From: lit("!Config.underlying==nil"), Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return !glob("Config.MarshalJSON(Config.underlying)#0", c.Str(r[0])) }), What: "the configuration is not encoded"})
		o.Path(PathRule{Root: m, From: lit("Config.underlying==nil"), Skip: lit("\"\"==Config.pendingParseData", "len(Config.pendingParseData)==0"), Via: isExit, Forbid: exitWith(func(c *Ctx, r []Val) bool { return !glob("*Config.pendingParseData*", c.Str(r[0])) }), What: "contents that are not decoded yet are not encoded"})
	})
	ck.Opaque = "*ControllerConfig).Resolve|*.NewControllerConfig|*ControllerConfig).Validate|*.UnmarshalJSON"
	ck.Do("sets", "decoding a set yields an entry for every entry of it, under the same key, or an error", func(o *Obl) {
		for _, s := range []struct {
			r    *ssa.Function
			coll string
		}{{p.Method(csJSONPkg, "ConfigSet", "Resolve"), "<ConfigSet>"}, {p.Method(csProtoPkg, "ConfigSetMap", "Resolve"), "<ConfigSetMap>"}} {
			ent := "ControllerConfig.Resolve(" + s.coll + "[],<Context>,<Bus>)"
			put := anyOf(mapPut("makemap*", "key("+s.coll+")", ent+"#0"), allOf(mapPut("makemap*", "key("+s.coll+")", "configset.NewControllerConfig(ControllerConfig.GetRev("+ent+"#0),ControllerConfig.GetConfig("+ent+"#0))")))
			o.ForEach(ForEachRule{Root: s.r, Coll: []string{s.coll}, Must: put, Leave: exitErrAny, Reach: true, ReachSkip: anyOf(exitErrAny, lit(s.coll+"==nil", "len("+s.coll+")==0")), What: "an entry is missing"})
			o.Never(s.r, allOf(mapPut("*", "*", "*"), notP(put)), "an entry is stored under another key, or is another entry")
			o.Path(PathRule{Root: s.r, From: lit("!" + ent + "#1==nil"), Via: isExit, Forbid: anyOf(notReturning(ent), iter(s.coll)), What: "the error of an entry is not returned"})
			o.Never(s.r, exitWith(func(c *Ctx, r []Val) bool {
				return c.W.nilness(c.S.env, r[1]) != 2 && c.Str(r[0]) != "nil" && !glob("*makemap*", c.Str(r[0])) && !glob("phi*", c.Str(r[0])) && !glob("var*", c.Str(r[0]))
			}), "another set is returned")
			o.Path(PathRule{Root: s.r, From: lit("!"+s.coll+"==nil", "more("+s.coll+")"), Via: isExit, Forbid: okNil, What: "no set is returned"})
		}
		o.Path(PathRule{Root: p.Method(csProtoPkg, "ConfigSet", "Resolve"), Via: callArgs("ConfigSetMap.Resolve", "ConfigSet.GetConfigs(<ConfigSet>)|ConfigSet.Configs", "<Context>", "<Bus>"), What: "the entries are not resolved"})
		v := p.Method(csProtoPkg, "ConfigSetMap", "Validate")
		ok := "ControllerConfig.Validate(<ConfigSetMap>[])"
		o.ForEach(ForEachRule{Root: v, Coll: []string{"<ConfigSetMap>"}, Must: callArgs("ControllerConfig.Validate", "<ConfigSetMap>[]"), Leave: exitErrAny, Reach: true, ReachSkip: anyOf(exitErrAny, lit("<ConfigSetMap>==nil", "len(<ConfigSetMap>)==0")), What: "an entry is not validated"})
		o.Path(PathRule{Root: v, From: lit("!" + ok + "==nil"), Via: isExit, Forbid: anyOf(notReturning(ok), iter("<ConfigSetMap>")), What: "an invalid entry is accepted"})
		sv := p.Method(csProtoPkg, "ConfigSet", "Validate")
		mv := "ConfigSetMap.Validate(ConfigSet.GetConfigs(<ConfigSet>))|ControllerConfig.Validate(ConfigSet.GetConfigs(<ConfigSet>)[])"
		o.Path(PathRule{Root: sv, Via: callArgs("ConfigSetMap.Validate|ControllerConfig.Validate", "ConfigSet.GetConfigs(<ConfigSet>)*"), Skip: done("ConfigSet.GetConfigs(<ConfigSet>)"), What: "the entries are not validated"})
		o.Path(PathRule{Root: sv, From: lit(alts("!", strings.Split(mv, "|"), "==nil")...), Via: isExit, Forbid: allOf(isExit, notP(notReturningNil)), What: "an invalid set is accepted"})
	})
	ck.Do("yaml", "every entry of a YAML document is decoded under its key, unless it exists and must not be overwritten, and reported as added", func(o *Obl) {
		y := p.Func(csJSONPkg, "UnmarshalYAML")
		coll := []string{"var:ConfigSet", "makemap:*", "makemap"}
		ent := "ControllerConfig.Resolve(*[],<Context>,<Bus>)"
		has, hasNot := lit("has(<ConfigSet>,key(*))"), lit("!has(<ConfigSet>,key(*))")
		put := mapPut("<ConfigSet>", "key(*)", ent+"#0")
		o.ForEach(ForEachRule{Root: y, Coll: coll, Must: put, SkipAll: []Pred{has, lit("!<bool>")}, Leave: exitErrAny, Reach: true, ReachSkip: exitErrAny, What: "an entry of the document is missing"})
		o.Never(y, allOf(mapPut("*", "*", "*"), notP(put)), "an entry is stored under another key, or is another entry")
		o.Guard(GuardRule{Root: y, Effect: mapPut("<ConfigSet>", "*", "*"), Needs: []Pred{anyOf(hasNot, lit("<bool>"))}, Reset: iter(coll...), What: "an existing entry is overwritten"})
		o.Path(PathRule{Root: y, From: put, Via: addsStr("key(*)"), Until: anyOf(isExit, iter(coll...), done(coll...)), What: "an added entry is not reported"})
		o.Guard(GuardRule{Root: y, Effect: addsStr("key(*)"), Needs: []Pred{put}, Reset: iter(coll...), What: "an entry is reported that was not added"})
		o.Path(PathRule{Root: y, From: lit("!" + ent + "#1==nil"), Via: isExit, Forbid: anyOf(notReturning(ent), iter(coll...)), What: "the error of an entry is not returned"})
		o.Path(PathRule{Root: y, From: lit("!yaml.Unmarshal(*)==nil"), Via: isExit, Forbid: notReturning("yaml.Unmarshal("), What: "a document that cannot be parsed is accepted"})
		o.Path(PathRule{Root: y, Via: callArgs("yaml.Unmarshal*", "<[]byte>", "new ConfigSet"), What: "the document is not parsed"})
		one := p.Func(csJSONPkg, "UnmarshalControllerConfigYAML")
		o.Path(PathRule{Root: one, Via: calls("yaml.Unmarshal*"), What: "the document is not parsed"})
		o.Path(PathRule{Root: one, From: lit("!yaml.Unmarshal*(*)==nil"), Via: isExit, Forbid: notReturning("yaml.Unmarshal"), What: "a document that cannot be parsed is accepted"})
		m := p.Func(csJSONPkg, "MarshalYAML")
		o.Path(PathRule{Root: m, Via: callArgs("json.Marshal", "*"), What: "the set is not encoded"})
		o.Path(PathRule{Root: m, From: lit("!json.Marshal(*)#1==nil"), Via: isExit, Forbid: notReturning("json.Marshal("), What: "the error of encoding is not returned"})
	})
	ck.Do("encode", "encoding a set writes every entry under its key", func(o *Obl) {
		j := p.Func(csJSONPkg, "NewConfigSet")
		o.ForEach(ForEachRule{Root: j, Coll: []string{"<ConfigSet>"}, Must: mapPut("makemap*", "key(<ConfigSet>)", "configset_json.NewControllerConfig(<ConfigSet>[])"), Reach: true, ReachSkip: lit("<ConfigSet>==nil", "len(<ConfigSet>)==0"), What: "an entry is not encoded"})
		m := p.Func(csProtoPkg, "NewConfigSetMap")
		ent := "configset_proto.NewControllerConfig(<ConfigSet>[],<bool>)"
		o.ForEach(ForEachRule{Root: m, Coll: []string{"<ConfigSet>"}, Must: mapPut("makemap*", "key(<ConfigSet>)", ent+"#0"), Leave: exitErrAny, Reach: true, ReachSkip: anyOf(exitErrAny, lit("<ConfigSet>==nil", "len(<ConfigSet>)==0")), What: "an entry is not encoded"})
		o.Path(PathRule{Root: m, From: lit("!" + ent + "#1==nil"), Via: isExit, Forbid: anyOf(notReturning(ent), iter("<ConfigSet>")), What: "the error of an entry is not returned"})
		for _, f := range []*ssa.Function{j, m} {
			o.Never(f, allOf(mapPut("*", "*", "*"), notP(mapPut("makemap*", "key(<ConfigSet>)", "*NewControllerConfig(<ConfigSet>[]*"))), "an entry is stored under another key, or is another entry")
			o.Path(PathRule{Root: f, From: lit("!<ConfigSet>==nil", "more(<ConfigSet>)"), Via: isExit, Forbid: allOf(isExit, exitWith(func(c *Ctx, r []Val) bool {
				return c.W.nilness(c.S.env, r[0]) == 1 && (len(r) == 1 || c.W.nilness(c.S.env, r[1]) == 1)
			})), What: "the set is dropped"})
		}
		s := p.Func(csProtoPkg, "NewConfigSet")
		o.Path(PathRule{Root: s, Via: storeTo("ConfigSet.Configs", "configset_proto.NewConfigSetMap(<ConfigSet>,<bool>)#0", "makemap*", "nil"), Skip: notReturningNil, What: "the entries are not part of the set"})
		a := p.Method(csProtoPkg, "ConfigSetMap", "ApplyConfig")
		of := "configset.NewControllerConfig(<uint64>,<Config>)"
		app := mapPut("<ConfigSetMap>", "<string>", "configset_proto.NewControllerConfig("+of+",<bool>)#0")
		o.Path(PathRule{Root: a, Via: app, Skip: notReturningNil, What: "the config is not applied"})
		o.Never(a, allOf(mapPut("*", "*", "*"), notP(app)), "another config is applied")
	})
	ck.Opaque = ""
	ck.Do("new", "an encoded entry has the id, the revision and the contents of the configuration", func(o *Obl) {
		n := p.Func(csProtoPkg, "NewControllerConfig")
		const conf = "ControllerConfig.GetConfig(<ControllerConfig>)"
		js, vt := "Config.MarshalJSON("+conf+")", "Config.MarshalVT("+conf+")"
		for f, want := range map[string][]string{
			"ControllerConfig.Id": {"Config.GetConfigID(" + conf + ")"}, "ControllerConfig.Rev": {"ControllerConfig.GetRev(<ControllerConfig>)"}, "ControllerConfig.Config": {js + "#0", vt + "#0", "var:*", "phi:*", "dyn:*"},
		} {
			o.Guard(GuardRule{Root: n, Effect: okExit, Needs: []Pred{storeTo(f, want...)}, What: f + " is not set"})
			o.Never(n, allOf(storeTo(f), notP(storeTo(f, want...))), f+" is set to something else")
		}
		o.Guard(GuardRule{Root: n, Effect: calls("Config.MarshalJSON"), Needs: []Pred{lit("<bool>")}, Optional: true, What: "JSON is written although it was not requested"})
		o.Guard(GuardRule{Root: n, Effect: calls("Config.MarshalVT"), Needs: []Pred{lit("!<bool>")}, Optional: true, What: "JSON is not written although it was requested"})
		o.NilErrOnlyIf(n, "an entry is returned although encoding its contents failed", fact(js+"#1==nil", vt+"#1==nil", "dyn:*#1==nil"))
		j := p.Func(csJSONPkg, "NewControllerConfig")
		for f, want := range map[string]string{"ControllerConfig.Id": "Config.GetConfigID(" + conf + ")", "ControllerConfig.Rev": "ControllerConfig.GetRev(<ControllerConfig>)", "Config.underlying": conf, "ControllerConfig.Config": "new Config"} {
			o.Path(PathRule{Root: j, Via: storeTo(f, want), What: f + " is not set"})
			o.Never(j, allOf(storeTo(f), notP(storeTo(f, want))), f+" is set to something else")
		}
		c := p.Func(configsetPkg, "NewControllerConfig")
		o.Path(PathRule{Root: c, Via: storeTo("controllerConfig.rev", "<uint64>"), What: "the revision is not set"})
		o.Path(PathRule{Root: c, Via: storeTo("controllerConfig.conf", "<Config>"), What: "the configuration is not set"})
		for m, f := range map[string]string{"GetRev": "controllerConfig.rev", "GetConfig": "controllerConfig.conf"} {
			o.Path(PathRule{Root: p.Method(configsetPkg, "controllerConfig", m), Via: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) == f }), What: f + " is not returned"})
		}
		o.Path(PathRule{Root: p.Method(csJSONPkg, "ControllerConfig", "GetRev"), Via: exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) == "ControllerConfig.Rev" }), What: "the revision is not returned"})
	})
	ck.Do("validate", "an entry without an id or with contents that start like JSON but are not is invalid", func(o *Obl) {
		v := p.Method(csProtoPkg, "ControllerConfig", "Validate")
		o.NilErrOnlyIf(v, "an entry without an id is valid", fact(append(alts("!len(", id, ")==0"), alts("!\"\"==", id, "")...)...))
		ok := append(append(alts("!123==", data, "[0]"), alts("len(", data, ")==0")...), append(alts("json.Valid(", data, ")"), alts("json.Unmarshal(", data, ",*)==nil")...)...)
		o.NilErrOnlyIf(v, "contents are valid that are not JSON", fact(ok...))
		o.Guard(GuardRule{Root: v, Effect: indexes(data...), Needs: []Pred{lit(alts("!len(", data, ")==0")...)}, What: "the first byte of empty contents is read", Optional: true})
	})
	ck.Do("names", "JSON documents name the fields of an entry alike in every encoding", func(o *Obl) {
		want := map[string]string{}
		st := structOf(ptrElem(p.Method(csJSONPkg, "ControllerConfig", "Resolve").Signature.Recv().Type()))
		seen := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			o.SiteName(f.Name())
			name := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			if name == "" {
				name = f.Name()
			}
			if !f.Exported() || name == "-" || seen[name] {
				o.Fail("tag|"+f.Name(), f.Pos(), nil, "field %s of an entry is not encoded and decoded", f.Name())
			}
			seen[name] = true
			want[f.Name()] = name
		}
		w, r := p.Method(csProtoPkg, "ControllerConfig", "MarshalProtoJSON"), p.Method(csProtoPkg, "ControllerConfig", "UnmarshalProtoJSON")
		var fields []string
		for f := range want {
			fields = append(fields, f)
		}
		sort.Strings(fields)
		next := calls("UnmarshalState.ReadObjectField")
		for _, f := range fields {
			field, key := "ControllerConfig."+f, "\""+want[f]+"\""
			name := callArgs("MarshalState.WriteObjectField", "*", key)
			set := lit("!\"\"=="+field, "!len("+field+")==0", "!"+field+"==0", "!0=="+field)
			o.Path(PathRule{Root: w, From: set, Once: true, Disarm: name, Via: name, What: "field " + f + " is not written"})
			o.Path(PathRule{Root: r, From: lit(key+"==UnmarshalState.ReadObjectField(*)", "UnmarshalState.ReadObjectField(*)=="+key), Skip: anyOf(lit("UnmarshalState.ReadNil(*)"), calls("UnmarshalState.SetError")), Via: storeTo(field, "*UnmarshalState.*"), Until: anyOf(next, isExit), What: "field " + f + " is not read"})
		}
		o.jsonPairs(w, want)
	})
	ck.Do("json", "the contents are written as they are only if they are JSON, otherwise as text that the decoder reads back", func(o *Obl) {
		w, r := p.Method(csProtoPkg, "ControllerConfig", "MarshalProtoJSON"), p.Method(csProtoPkg, "ControllerConfig", "UnmarshalProtoJSON")
		raw := callArgs("MarshalState.Write|MarshalState.WriteRaw*", "*", "ControllerConfig.Config")
		valid := lit("json.Valid(ControllerConfig.Config)", "json.Unmarshal(ControllerConfig.Config,*)==nil")
		o.Guard(GuardRule{Root: w, Effect: raw, Needs: []Pred{valid}, What: "contents are written as JSON that may not be"})
		o.Guard(GuardRule{Root: w, Effect: anyOf(indexes("ControllerConfig.Config"), subList("ControllerConfig.Config")), Needs: []Pred{lit("!len(ControllerConfig.Config)==0")}, What: "a byte of empty contents is read", Optional: true})
		o.Path(PathRule{Root: w, From: lit("!json.Valid(*)", "!json.Unmarshal(*)==nil"), Via: anyOf(calls("MarshalState.SetError"), calls("MarshalState.WriteString")), What: "contents that are not JSON are dropped without an error"})
		o.Path(PathRule{Root: w, From: lit("!MarshalState.Write(*)#1==nil"), Via: calls("MarshalState.SetError"), Optional: true, What: "an error of writing is dropped"})
		encs := map[string]map[string]bool{"w": {}, "r": {}}
		for k, f := range map[string]*ssa.Function{"w": w, "r": r} {
			o.Monitor(f, 0, func(c *Ctx, ev *Event, st any) any {
				if calls("Encoding.EncodeToString", "Encoding.DecodeString")(c, ev) {
					o.Site(ev.Instr)
					encs[k][c.StrV(execCall(ev).Args[0])] = true
				}
				return st
			})
		}
		if len(encs["w"]) != 1 || !reflect.DeepEqual(encs["w"], encs["r"]) {
			o.Fail("encoding", w.Pos(), nil, "the contents are written and read in different text encodings: %v, %v", encs["w"], encs["r"])
		}
		next := calls("UnmarshalState.ReadObjectField")
		o.Path(PathRule{Root: r, From: calls("UnmarshalState.WhatIsNext"), Via: anyOf(storeTo("ControllerConfig.Config"), calls("UnmarshalState.SetError")), Until: anyOf(next, isExit), What: "contents of an unexpected type are ignored"})
		o.Path(PathRule{Root: r, From: lit("!Encoding.DecodeString(*)#1==nil"), Via: calls("UnmarshalState.SetError"), Until: anyOf(next, isExit), What: "contents that cannot be decoded are accepted"})
		// only a JSON object is taken as it is: other contents would not be recognized as JSON later
		jsonType := func(name string) string {
			for _, pk := range p.SSA.AllPackages() {
				if strings.HasSuffix(pk.Pkg.Path(), "/json-iterator-lite") {
					if k, ok := pk.Members[name].(*ssa.NamedConst); ok {
						return k.Value.Value.ExactString()
					}
				}
			}
			return "unknown type " + name
		}
		for name, val := range map[string]string{"ObjectValue": "UnmarshalState.SkipAndReturnBytes(*)", "StringValue": "Encoding.DecodeString(*)#0"} {
			is := lit(jsonType(name) + "==UnmarshalState.WhatIsNext(*)")
			o.Guard(GuardRule{Root: r, Effect: storeTo("ControllerConfig.Config", val), Needs: []Pred{is}, Optional: true, What: "contents are accepted although they are not a JSON value of type " + name})
			if name == "StringValue" {
				o.Guard(GuardRule{Root: r, Effect: calls("Encoding.DecodeString"), Needs: []Pred{is}, What: "contents are decoded as text although they are not a JSON value of type " + name})
			} else {
				o.Guard(GuardRule{Root: r, Effect: calls("UnmarshalState.SkipAndReturnBytes"), Needs: []Pred{is}, What: "contents are accepted although they are not a JSON value of type " + name})
			}
		}
		// every value is consumed
		value := calls("UnmarshalState.Read*|UnmarshalState.Skip*", "UnmarshalState.ReadString", "UnmarshalState.ReadUint64", "UnmarshalState.ReadNil", "UnmarshalState.Skip", "UnmarshalState.SkipAndReturnBytes", "UnmarshalState.SetError", "UnmarshalState.Read*")
		o.Path(PathRule{Root: r, From: lit("!\"\"==UnmarshalState.ReadObjectField(*)"), Via: allOf(value, notP(next)), Until: next, What: "the value of a field is not consumed"})
		o.Never(r, allOf(storeTo("ControllerConfig.Config"), notP(storeTo("ControllerConfig.Config", "Encoding.DecodeString(*,UnmarshalState.ReadString(*))#0", "UnmarshalState.SkipAndReturnBytes(*)", "var:*", "phi:*", "nil"))), "the contents are changed")
		o.Path(PathRule{Root: r, From: lit("!UnmarshalState.ReadNil(*)"), Via: anyOf(calls("UnmarshalState.WhatIsNext"), storeTo("ControllerConfig.Config"), calls("UnmarshalState.SetError")), Until: anyOf(next, isExit), Optional: true, What: "the contents are not read"})
	})
}

// jsonPairs: after the name of a field its value is written, and no value without its name.
func (o *Obl) jsonPairs(w *ssa.Function, names map[string]string) {
	type st struct{ open string }
	typ := baseTypeName(ptrElem(w.Signature.Recv().Type()))
	o.Monitor(w, st{}, func(c *Ctx, ev *Event, x any) any {
		s := x.(st)
		if calls("MarshalState.SetError", "MarshalState.WriteNil")(c, ev) && s.open != "" {
			return st{}
		}
		if calls("MarshalState.WriteObjectEnd")(c, ev) && s.open != "" {
			c.Violate("novalue", "%s: no value is written for %s", fnName(w), s.open)
			return st{}
		}
		cc := execCall(ev)
		if cc == nil || !calls("MarshalState.*")(c, ev) {
			return s
		}
		if calls("MarshalState.WriteObjectField")(c, ev) {
			if s.open != "" {
				c.Violate("novalue", "%s: no value is written for %s", fnName(w), s.open)
			}
			o.Site(ev.Instr)
			return st{strings.Trim(c.StrV(cc.Args[len(cc.Args)-1]), "\"")}
		}
		if !calls("MarshalState.Write*")(c, ev) || calls("MarshalState.WriteMoreIf", "MarshalState.WriteObjectStart")(c, ev) {
			return s
		}
		val := c.StrV(cc.Args[len(cc.Args)-1])
		for f, n := range names {
			if n == s.open && !mentionsField(val, typ+"."+f) && mentionsOther(val, typ, f, names) {
				c.Violate("value", "%s: another field's value is written for %s: %s", fnName(w), s.open, val)
			}
		}
		if s.open == "" && mentionsOther(val, typ, "", names) {
			c.Violate("noname", "%s: a value is written without a name: %s", fnName(w), val)
		}
		return st{}
	})
}

func mentionsField(s, field string) bool {
	i := strings.Index(s, field)
	for i >= 0 {
		e := i + len(field)
		if e == len(s) || !(s[e] >= 'a' && s[e] <= 'z' || s[e] >= 'A' && s[e] <= 'Z' || s[e] >= '0' && s[e] <= '9' || s[e] == '_') {
			return true
		}
		j := strings.Index(s[e:], field)
		if j < 0 {
			break
		}
		i = e + j
	}
	return false
}

func mentionsOther(s, typ, not string, names map[string]string) bool {
	for f := range names {
		if f != not && mentionsField(s, typ+"."+f) {
			return true
		}
	}
	return false
}

func init() {
	register("S01", "Path, guard and loop analysis of decoding and encoding configuration sets, and a name comparison of their JSON encodings", checkS01)
}

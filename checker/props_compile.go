package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pcPkg  = "plugin/compiler"
	cliPkg = "plugin/cli"
)

// ofExisting: the store is to a field of an object that was not made in the same function.
func ofExisting(c *Ctx, ev *Event) bool {
	st, ok := ev.Instr.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, made := c.Resolve(Val{c.S.F, fa.X}).V.(*ssa.Alloc)
	return !made
}

var unused = regexp.MustCompile(`^(?:has\(makemap[^,\[]*,(.*)\)|makemap[^,\[]*\[(.*)\])$`)

// naming is the state of choosing the import names: the name last found not to be used, and a name chosen but not
// yet marked as used.
type naming struct{ free, chosen string }

func checkP03(ck *Check) {
	p := ck.P
	defer func() { ck.Inside, ck.Opaque = "", "" }()
	fns := append(p.FuncsIn(pcPkg), p.FuncsIn(cliPkg)...)
	analyze, gen := p.Func(pcPkg, "AnalyzePackages"), p.Func(pcPkg, "CodegenPluginWrapperFromAnalysis")
	mods, compile, format, build := p.Method(pcPkg, "ModuleCompiler", "GenerateModules"), p.Func(pcPkg, "CompilePluginFromFile"), p.Func(pcPkg, "FormatFile"), p.Func(pcPkg, "BuildPlugin")
	ck.Do("order", "nothing that is generated, returned or written depends on the order in which a map is iterated, on the time or on chance", func(o *Obl) {
		o.MapOrder(fns, orderedCalls...)
		for _, f := range fns {
			eachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok && p.calleeIs(c.Common(), []string{"time.Now", "rand.*", "uuid.*", "os.Getpid"}) {
					o.Fail("chance|"+fnName(f), instrPos(in), nil, "%s: what is generated depends on the time or on chance", fnName(f))
				}
			})
		}
	})
	ck.Do("errors", "no error of loading, formatting, writing or compiling is passed over", func(o *Obl) {
		o.Errors(ErrRule{Fns: fns, Ignore: errIgnored, Min: 40})
		o.ErrorsIgnored(fns, errIgnored)
	})
	failed := exitWith(func(c *Ctx, r []Val) bool { return c.W.nilness(c.S.env, r[len(r)-1]) == 2 })
	ck.Inside = pcPkg
	ck.Do("analyze", "every given package is loaded, checked and kept, with its module and its factory", func(o *Obl) {
		const load = "packages.Load(*,<[]string>)"
		all := []string{load + "#0"}
		o.Guard(GuardRule{Root: analyze, Effect: okExit, Needs: []Pred{lit(load + "#1==nil"), anyOf(done(all...), empty(all...))}, What: "an analysis is returned of packages that could not be loaded"})
		o.Never(analyze, func(c *Ctx, ev *Event) bool {
			if !calls("packages.Load")(c, ev) {
				return false
			}
			args := c.Args(ev.Instr.(*ssa.Call).Common())
			_, given := c.Resolve(args[len(args)-1]).V.(*ssa.Parameter)
			return !given
		}, "other packages than those given are loaded")
		o.Guard(GuardRule{Root: analyze, Effect: calls("packages.Load"), Needs: []Pred{storeTo("Config.Dir", "<string>")}, What: "the packages are looked up in another directory"})
		for _, good := range []string{"len(Package.Errors)==0", "!Package.IllTyped", "!Package.Types==nil"} {
			bad := strings.TrimPrefix("!"+good, "!!")
			o.ForEach(ForEachRule{Root: analyze, Coll: all, Must: lit(good), Leave: failed, What: "a package is not checked for errors"})
			o.Path(PathRule{Root: analyze, From: lit(bad), Via: isExit, Forbid: okExit, What: "a package with errors is accepted"})
		}
		path := "Package.Path(Package.Types)"
		keep := anyOf(mapPut("Analysis.packages", "Package.PkgPath", all[0]+"[]"), mapPut("Analysis.packages", path, all[0]+"[]"))
		no := lit("Scope.Lookup(Package.Scope(Package.Types),\"NewFactory\")==nil")
		for what, r := range map[string]ForEachRule{
			"a package is left out":                    {Must: keep},
			"the factory of a package is left out":     {Must: mapPut("Analysis.controllerFactories", path, all[0]+"[]"), Skip: no},
			"the package of a factory is not imported": {Must: mapPut("Analysis.imports", path, "Package.Types"), Skip: anyOf(no, lit("has(Analysis.imports,"+path+")", "!Analysis.imports["+path+"]==nil"))},
			"the module of a package is left out":      {Must: mapPut("Analysis.module", "Module.Path", "Package.Module"), Skip: lit("Package.Module==nil", "has(Analysis.module,Module.Path)", "!Analysis.module[Module.Path]==nil")},
		} {
			r.Root, r.Leave, r.What, r.Coll = analyze, failed, what, all
			o.ForEach(r)
			r.Reach, r.Until = true, okExit
			o.ForEach(r)
		}
		o.Never(analyze, allOf(mapPut("Analysis.controllerFactories", "*", "*"), notP(mapPut("Analysis.controllerFactories", path, all[0]+"[]"))), "a factory is recorded for another package")
	})
	ck.Do("code", "the generated code imports the package of every factory and constructs every factory, each package under a name of its own", func(o *Obl) {
		const facs, imps = "Analysis.controllerFactories", "Analysis.imports"
		lists := []string{"append(*", "slices.Sorted*(*", "makeslice", "nil"}
		one := callArgs("ast.NewIdent", `"NewFactory"`)
		for _, m := range []string{facs, imps} {
			o.ForEach(ForEachRule{Root: gen, Coll: []string{m}, Must: adds("key(" + m + ")"), Optional: true, What: "an element of " + m + " is left out"})
		}
		for what, r := range map[string]ForEachRule{
			"a factory is not constructed": {Must: one},
			"a package is not imported":    {Must: storeTo("ImportSpec.Path", "*")},
		} {
			r.Root, r.Leave, r.What, r.Coll = gen, failed, what, append([]string{facs, imps}, lists...)
			o.ForEach(r)
			r.Reach, r.Until = true, isExit
			o.ForEach(r)
		}
		// the names
		const name = "ast.NewIdent(makemap*[*])"
		o.Never(gen, allOf(storeTo("ImportSpec.Name"), notP(storeTo("ImportSpec.Name", "nil", name))), "a package is imported under a name that was not chosen for it")
		o.Path(PathRule{Root: gen, From: one, Via: storeTo("SelectorExpr.X", name), Forbid: storeTo("GenDecl.Tok"), What: "a factory is called under another name than that of its package"})
		// the packages which are imported without a name keep theirs
		o.ForEach(ForEachRule{Root: gen, Coll: append([]string{imps}, lists...), Must: mapPut("makemap*", "*", "path.Base(*)"), Skip: lit("!" + imps + "[*]==nil"), Reach: true, Until: lit("!has(makemap*,*)", "!makemap*[*]"), What: "a name may be chosen that a package imported without a name has"})
		o.Monitor(gen, naming{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(naming)
			if ev.Kind == KEdge {
				atom, truth := c.W.normLit(c.S.env, ev.Lit)
				if m := unused.FindStringSubmatch(atom); m != nil && !truth {
					s.free = m[1] + m[2]
				}
				return s
			}
			if isExit(c, ev) && s.chosen != "" {
				c.Violate("unmarked", "%s: a name is chosen and not marked as used", fnName(gen))
			}
			u, ok := ev.Instr.(*ssa.MapUpdate)
			if ev.Kind != KInstr || !ok {
				return s
			}
			v, k := c.StrV(u.Value), c.StrV(u.Key)
			if !glob("makemap*", c.StrV(u.Map)) {
				return s
			}
			b, ok := u.Map.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Basic)
			switch {
			case ok && b.Kind() == types.String:
				fixed := glob("path.Base(*)", v)
				switch {
				case s.chosen != "":
					c.Violate("unmarked", "%s: a name is chosen while the one before is not marked as used", fnName(gen))
				case !fixed && s.free != v:
					c.Violate("taken", "%s: a package is imported under a name that may be taken", fnName(gen))
				}
				s = naming{chosen: v}
			default:
				if k == s.chosen || glob("makemap*[*]", k) {
					s.chosen = ""
				}
			}
			return s
		})
	})
	ck.Do("modules", "every loaded package is copied, the copies import each other, and the analysis is left as it was", func(o *Obl) {
		const pkgs, files, imports = "Analysis.packages", "Package.Syntax", "File.Imports"
		write := calls("os.WriteFile")
		copied := callArgs("os.WriteFile", "filepath.Join(*)", "Buffer.Bytes(*)")
		for coll, must := range map[string]Pred{pkgs: anyOf(done(files), empty(files)), files: copied} {
			o.ForEach(ForEachRule{Root: mods, Coll: []string{coll}, Must: must, Leave: failed, What: "a package or a file of it is not copied"})
		}
		o.Path(PathRule{Root: mods, Via: anyOf(done(pkgs), empty(pkgs)), Until: okExit, Skip: exitErr("*"), What: "the packages are not copied"})
		o.ForEach(ForEachRule{Root: mods, Coll: []string{"Analysis.module", "append(*", "slices.Sorted*(*", "makeslice", "nil"}, Must: write, Leave: failed, What: "a module is not written"})
		for _, bad := range []string{"Package.IllTyped", "Package.Module==nil", "!has(makemap*,Module.Path)"} {
			o.Path(PathRule{Root: mods, From: lit(bad), Via: isExit, Forbid: anyOf(okExit, copied), What: "a package with errors or without a module is copied"})
		}
		rewrite := allOf(storeTo("BasicLit.Value", "fmt.Sprintf(\"%q\",*", "strconv.Quote(*"), ofExisting)
		in := lit("has("+pkgs+",*)", "!"+pkgs+"[*]==nil")
		out := lit("!has("+pkgs+",*)", pkgs+"[*]==nil", "len(BasicLit.Value)<2")
		o.ForEach(ForEachRule{Root: mods, Coll: []string{imports}, Must: rewrite, Skip: out, What: "a copy imports the original of a copied package"})
		o.Guard(GuardRule{Root: mods, Effect: rewrite, Needs: []Pred{in}, Reset: iter(imports), What: "the import of a package that is not copied is changed"})
		print := lit("printer.Fprint(*)==nil")
		rewritten := anyOf(done(imports), empty(imports))
		o.Guard(GuardRule{Root: mods, Effect: copied, Needs: []Pred{rewritten, print}, Reset: iter(files), What: "a file is copied without its imports being changed"})
		wrapper := calls("parser.ParseFile")
		o.Guard(GuardRule{Root: mods, Effect: okExit, Needs: []Pred{write, rewritten, print}, Reset: wrapper, What: "the code of the plugin is written without its imports being changed, or not written"})
		o.Guard(GuardRule{Root: mods, Effect: okExit, Needs: []Pred{callArgs("parser.ParseFile", "Analysis.fset", "*", "Buffer.Bytes(*)"), calls("plugin_compiler.CodegenPluginWrapperFromAnalysis")}, What: "the code of the plugin is not written"})
		// what was changed of the analysis is put back
		back := allOf(storeTo("BasicLit.Value"), ofExisting, notP(rewrite))
		saved := []string{"makemap*", "append(*"}
		o.ForEach(ForEachRule{Root: mods, Coll: saved, Must: back, What: "an import stays changed"})
		undone := anyOf(done(saved...), empty(saved...))
		o.Guard(GuardRule{Root: mods, Effect: callArgs("printer.Fprint", "*", "*", files+"[]"), Needs: []Pred{rewritten}, Reset: anyOf(iter(files), undone), What: "a file is copied without its imports being changed"})
		save := anyOf(mapPut("makemap*", "ImportSpec.Path", "BasicLit.Value"), adds("BasicLit.Value"), allOf(storeTo("*", "BasicLit.Value"), notP(storeTo("BasicLit.Value"))))
		o.Guard(GuardRule{Root: mods, Effect: rewrite, Needs: []Pred{save}, Reset: iter(imports), Free: wrapper, What: "an import is changed that cannot be put back"})
		restored := anyOf(back, done(saved...), empty(saved...))
		type state struct{ changed, own bool }
		o.Monitor(mods, state{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(state)
			switch {
			case wrapper(c, ev):
				s.own = true // not a file of the analysis
			case rewrite(c, ev):
				s.changed = !s.own
			case restored(c, ev):
				s.changed = false
			case s.changed && anyOf(isExit, iter(files), done(files))(c, ev):
				c.Violate("changed", "%s: the imports of an analyzed file stay changed", fnName(mods))
				s.changed = false
			}
			return s
		})
	})
	ck.Do("format", "a file is formatted or fails", func(o *Obl) {
		o.Guard(GuardRule{Root: format, Effect: okExit, Needs: []Pred{lit("format.Node(new Buffer,*,<File>)==nil")}, What: "code is returned that could not be formatted"})
		o.Never(format, allOf(okExit, notP(exitWith(func(c *Ctx, r []Val) bool { return glob("Buffer.Bytes(new Buffer)", c.Str(r[0])) }))), "something else than the formatted code is returned")
	})
	ck.Do("compile", "the compiled file has a build id of its own, and nothing is compiled from code that could not be generated", func(o *Obl) {
		tagged := callArgs("os.WriteFile", "<string>", "append(Buffer.Bytes(*),*HotPluginBuildUUID*Hash.Sum(*")
		run := calls("Cmd.Run")
		deliver := callArgs("io.Copy", "os.OpenFile(*")
		first := callArgs("os.WriteFile", "<string>", "Buffer.Bytes(*)")
		o.Guard(GuardRule{Root: compile, Effect: run, Needs: []Pred{anyOf(first, tagged)}, What: "something else is compiled"})
		o.Guard(GuardRule{Root: compile, Effect: tagged, Needs: []Pred{run, lit("Cmd.Run(*)==nil")}, What: "the build id does not follow from the code"})
		o.Guard(GuardRule{Root: compile, Effect: deliver, Needs: []Pred{run, lit("Cmd.Run(*)==nil")}, Reset: tagged, What: "what is delivered was compiled without the build id"})
		o.Guard(GuardRule{Root: compile, Effect: deliver, Needs: []Pred{tagged}, What: "what is delivered has no build id of its own"})
		type made struct {
			tagged bool
			given  string
		}
		o.Monitor(compile, made{}, func(c *Ctx, ev *Event, x any) any {
			s := x.(made)
			if tagged(c, ev) {
				return made{tagged: true}
			}
			if ev.Kind != KInstr || !s.tagged {
				return s
			}
			switch i := ev.Instr.(type) {
			case *ssa.Store:
				if _, ok := i.Addr.(*ssa.IndexAddr); ok {
					if v := c.Resolve(Val{c.S.F, i.Val}).V; instrOf(v) != nil {
						s.given += fmt.Sprint(instrOf(v).Pos()) + ";"
					}
				}
			case *ssa.Call:
				if calls("os.Open")(c, ev) {
					v := c.Resolve(c.Args(&i.Call)[0]).V
					if in := instrOf(v); in != nil && !strings.Contains(";"+s.given, ";"+fmt.Sprint(in.Pos())+";") {
						c.Violate("other", "%s: what is delivered is not what was compiled with the build id", fnName(compile))
					}
				}
			}
			return s
		})
		o.Path(PathRule{Root: compile, From: tagged, Via: deliver, Skip: exitErr("*"), What: "what was compiled is not delivered"})
		ck.Opaque = "*AnalyzePackages|*NewModuleCompiler|*GenerateModules|*ModuleCompiler).CompilePlugin"
		an, mc := "plugin_compiler.AnalyzePackages(*)", "plugin_compiler.NewModuleCompiler(*)"
		o.Guard(GuardRule{Root: build, Effect: callArgs("ModuleCompiler.GenerateModules", mc+"#0", an+"#0", "*"), Needs: []Pred{lit(an + "#1==nil"), lit(mc + "#1==nil")}, What: "code is generated from packages that could not be analyzed"})
		o.Guard(GuardRule{Root: build, Effect: callArgs("ModuleCompiler.CompilePlugin", mc+"#0", "*"), Needs: []Pred{lit("ModuleCompiler.GenerateModules(" + mc + "#0," + an + "#0,*)==nil")}, What: "what could not be generated is compiled"})
		compiled := "ModuleCompiler.CompilePlugin(*)"
		fails := exitWith(func(c *Ctx, r []Val) bool {
			return c.W.nilness(c.S.env, r[len(r)-1]) != 2 && !glob(compiled, c.Str(r[len(r)-1]))
		})
		o.Guard(GuardRule{Root: build, Effect: fails, Needs: []Pred{lit(compiled + "==nil")}, Optional: true, What: "it is not reported that nothing was compiled"})
		o.Guard(GuardRule{Root: build, Effect: okExit, Needs: []Pred{calls("ModuleCompiler.CompilePlugin")}, What: "nothing is compiled"})
		o.Never(build, allOf(calls("plugin_compiler.AnalyzePackages"), notP(callArgs("plugin_compiler.AnalyzePackages", "<Context>", "<Entry>", "filepath.Abs(<string>)#0", "<[]string>"))), "other packages are analyzed")
		ck.Opaque = ""
	})
	ck.Inside = cliPkg
	ck.Do("command", "what the plugin command leaves unset has a working default, and its commands do what they say", func(o *Obl) {
		const mc, an = "plugin_compiler.NewModuleCompiler", "plugin_compiler.AnalyzePackages"
		once, codegen := p.Method(cliPkg, "CompilerArgs", "runCompileOnce"), p.Method(cliPkg, "CompilerArgs", "runCodegenOnce")
		for _, r := range []*ssa.Function{once, codegen} {
			for i, f := range []string{2: "BuildPrefix", 4: "PluginBinaryID"} {
				if f == "" {
					continue
				}
				args := []string{"*", "*", "*", "*", "*"}
				o.Or(func(o *Obl) {
					args[i] = "CompilerArgs." + f
					o.Guard(GuardRule{Root: r, Effect: callArgs(mc, args...), Needs: []Pred{lit("!\"\"==CompilerArgs." + f)}, What: "the plugin is built with an empty " + f})
					o.Path(PathRule{Root: r, From: lit("!\"\"==CompilerArgs." + f), Via: callArgs(mc, args...), Skip: exitErr("*"), What: "the " + f + " that was set is not used"})
				}, func(o *Obl) {
					args[i] = "cmp.Or*(*"
					o.Path(PathRule{Root: r, Via: callArgs(mc, args...), Skip: failed, What: "the " + f + " that was set is not used"})
				})
			}
			genMods := callArgs("ModuleCompiler.GenerateModules", mc+"(*)#0", an+"(*)#0", "*")
			o.Guard(GuardRule{Root: r, Effect: genMods, Needs: []Pred{lit(an + "(*)#1==nil"), lit(mc + "(*)#1==nil")}, What: "code is generated from packages that could not be analyzed"})
			version := callArgs("ModuleCompiler.GenerateModules", "*", "*", "CompilerArgs.PluginBinaryVersion")
			o.Guard(GuardRule{Root: r, Effect: version, Needs: []Pred{lit("!\"\"==CompilerArgs.PluginBinaryVersion")}, What: "the plugin is built with an empty version"})
			o.Path(PathRule{Root: r, From: lit("!\"\"==CompilerArgs.PluginBinaryVersion"), Via: version, What: "the version that was set is not used"})
			o.Never(r, allOf(calls(an), notP(callArgs(an, "*", "*", "filepath.Abs(os.Getwd()#0)#0", "Args.Slice(*)"))), "other packages are analyzed")
			o.Never(r, allOf(calls(mc), notP(callArgs(mc, "*", "*", "*", "filepath.Abs(*)#0", "*"))), "the code is generated elsewhere")
			o.Guard(GuardRule{Root: r, Effect: okExit, Needs: []Pred{genMods}, What: "no code is generated"})
		}
		do := callArgs("ModuleCompiler.CompilePlugin", mc+"(*)#0", "filepath.Abs(CompilerArgs.OutputPath)#0")
		o.Guard(GuardRule{Root: once, Effect: do, Needs: []Pred{lit("ModuleCompiler.GenerateModules(*)==nil")}, What: "what could not be generated is compiled"})
		const compiled = "ModuleCompiler.CompilePlugin(*)"
		o.Guard(GuardRule{Root: once, Effect: allOf(okExit, exitWith(func(c *Ctx, r []Val) bool { return !glob(compiled, c.Str(r[0])) })), Needs: []Pred{lit(compiled + "==nil")}, Optional: true, What: "it is not reported that nothing was compiled"})
		generated := "ModuleCompiler.GenerateModules(*)"
		o.Guard(GuardRule{Root: codegen, Effect: allOf(okExit, exitWith(func(c *Ctx, r []Val) bool { return !glob(generated, c.Str(r[0])) })), Needs: []Pred{lit(generated + "==nil")}, Optional: true, What: "it is not reported that no code was generated"})
		o.Guard(GuardRule{Root: once, Effect: okExit, Needs: []Pred{do}, What: "nothing is compiled"})
	})
}

func init() {
	register("P03", "map-order dataflow, error dataflow and path-sensitive rules over the SSA form: analysis, code generation, copying of modules, compilation", checkP03)
}

// instrOf: the instruction that makes the value.
func instrOf(v ssa.Value) ssa.Instruction {
	in, _ := v.(ssa.Instruction)
	return in
}

package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pluginPkg = "plugin"
	soPkg     = "plugin/loader/shared-library"
	fsPkg     = "plugin/loader/shared-library/filesystem"
)

// hookAdded: a function is added to a list which always makes the call with these arguments.
func hookAdded(list, call string, pats ...string) Pred {
	return func(c *Ctx, ev *Event) bool {
		if !listStore(list, "append", "prepend")(c, ev) {
			return false
		}
		_, added := c.listOp(ev.Instr.(*ssa.Store))
		for _, v := range added {
			// a method value
			if r := c.Resolve(v); r.V != nil {
				if mc, ok := r.V.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 && len(pats) > 0 {
					raw := mc.Fn.(*ssa.Function)
					if fn := c.W.P.unwrap(raw); fn != raw && c.W.P.funcShort(fn) == call && glob(pats[0], c.Str(Val{r.F, mc.Bindings[0]})) {
						return true
					}
				}
			}
			for _, cc := range c.closureCalls(v, true) {
				if !c.W.P.calleeIs(cc.Call, []string{call}) {
					continue
				}
				var args []Val
				if cc.Call.IsInvoke() {
					args = append(args, Val{cc.F, cc.Call.Value})
				}
				for _, a := range cc.Call.Args {
					args = append(args, Val{cc.F, a})
				}
				ok := len(args) >= len(pats)
				for i, p := range pats {
					ok = ok && glob(p, c.Str(args[i]))
				}
				if ok {
					return true
				}
			}
		}
		return false
	}
}

// given: an exit with a value that may not be nil and an error that may be nil.
func given(c *Ctx, ev *Event) bool {
	return okExit(c, ev) && c.W.nilness(c.S.env, ev.Results[0]) != 1
}

// onlyOnce: the event only happens in the function given to a sync.Once, or after a flag was won.
func (o *Obl) onlyOnce(rel string, root *ssa.Function, ev Pred, what string) {
	p := o.ck.P
	single := map[*ssa.Function]bool{}
	for _, f := range append(p.closuresPassedTo(rel, 1, "Once.Do"), p.closuresPassedTo(rel, 0, "sync.OnceFunc")...) {
		single[f] = true
	}
	o.Monitor(root, false, func(c *Ctx, e *Event, x any) any {
		if lit("*CompareAndSwap(*)", "!*Swap(*)")(c, e) {
			return true
		}
		if !ev(c, e) || x.(bool) {
			return x
		}
		if e.Kind == KInstr {
			o.Site(e.Instr)
		}
		for f := c.S.F; f != nil; f = f.up {
			if single[p.unwrap(f.fn)] || single[f.fn] {
				return x
			}
		}
		c.Violate("twice", "%s: %s", fnName(root), what)
		return x
	})
}

func checkP01(ck *Check) {
	p := ck.P
	const res, fac, lp = "Resolver", "StaticPluginFactory", "LoadedPlugin"
	look := "Resolver.GetFactoryMatchingConfig(Resolver.staticResolver,<Context>,<Config>)"
	get, ctor, unload := p.Method(pluginPkg, res, "GetFactoryMatchingConfig"), p.Method(pluginPkg, res, "GetConfigCtorByID"), p.Method(pluginPkg, res, "PrePluginUnload")
	construct, cl := p.Method(pluginPkg, fac, "Construct"), p.Method(pluginPkg, fac, "Close")
	ck.Inside = pluginPkg
	defer func() { ck.Inside, ck.Opaque = "", "" }()
	ck.Do("served", "a factory is only served wrapped, and after its end was tied to the unloading of the plugin", func(o *Obl) {
		o.Never(get, allOf(given, exitWith(func(c *Ctx, r []Val) bool { return !glob("new StaticPluginFactory", c.Str(r[0])) })), "a factory is served that is not tied to the plugin")
		tied := hookAdded("Resolver.preUnload", "StaticPluginFactory.Close", "new StaticPluginFactory")
		alive := lit("Context.Err(Resolver.ctx)==nil")
		o.Guard(GuardRule{Root: get, Effect: given, Needs: []Pred{tied}, What: "a factory is served that is not closed when the plugin is unloaded"})
		o.Guard(GuardRule{Root: get, Effect: listStore("Resolver.preUnload", "append", "prepend"), Needs: []Pred{alive, callArgs("Context.Err", "Resolver.ctx")}, Reset: anyOf(locks("Resolver.mtx"), unlocks("Resolver.mtx")), What: "a factory is served after the plugin was unloaded"})
		for f, want := range map[string]string{"Factory": look + "#0", "ctx": "context.WithCancel*(Resolver.ctx)#0", "ctxCancel": "context.WithCancel*(Resolver.ctx)#1", "bus": "Resolver.bus"} {
			o.Guard(GuardRule{Root: get, Effect: given, Needs: []Pred{storeTo("StaticPluginFactory."+f, want)}, What: "the served factory has another " + f})
		}
		o.Path(PathRule{Root: get, From: lit("!" + look + "#0==nil"), Via: tied, Skip: anyOf(lit("!Context.Err(Resolver.ctx)==nil"), lit("!"+look+"#1==nil")), What: "a factory of the plugin is not served"})
		o.Lockset(LockRule{Pkg: pluginPkg, Lock: locks("Resolver.mtx"), Unlock: unlocks("Resolver.mtx"), Fields: fieldSet("Resolver.preUnload"), Taken: true})
	})
	ck.Do("unknown", "what no factory of the plugin has is passed on as not found, and errors are returned", func(o *Obl) {
		o.Path(PathRule{Root: get, From: lit(look + "#0==nil"), Via: isExit, Forbid: given, What: "a factory is served although none was found"})
		o.Path(PathRule{Root: get, From: lit("!" + look + "#1==nil"), Via: isExit, Forbid: notReturning(look + "#1"), What: "the error of the lookup is not returned"})
		const c = "Resolver.GetConfigCtorByID(Resolver.staticResolver,<Context>,<string>)"
		o.Never(ctor, exitWith(func(x *Ctx, r []Val) bool {
			return x.Str(r[0]) != c+"#0" && x.W.nilness(x.S.env, r[0]) != 1 || x.Str(r[1]) != c+"#1" && x.W.nilness(x.S.env, r[1]) != 1
		}), "something else than the constructor of the id is returned")
		o.Path(PathRule{Root: ctor, Via: callArgs("Resolver.GetConfigCtorByID", "Resolver.staticResolver", "<Context>", "<string>"), What: "the constructor is not looked up"})
		o.Path(PathRule{Root: get, Via: callArgs("Resolver.GetFactoryMatchingConfig", "Resolver.staticResolver", "<Context>", "<Config>"), Skip: lit("!Context.Err(*)==nil"), What: "the factory is not looked up"})
	})
	ck.Do("unload", "unloading a resolver closes every factory it served", func(o *Obl) {
		const list = "Resolver.preUnload"
		o.ForEach(ForEachRule{Root: unload, Coll: []string{list}, Must: dynCall(list + "[]"), What: "a factory is not closed"})
		o.Path(PathRule{Root: unload, Via: anyOf(done(list), empty(list)), What: "the factories are not closed"})
		o.Guard(GuardRule{Root: unload, Effect: listStore(list, "clear", "other", "delete"), Needs: []Pred{anyOf(done(list), empty(list), loads(list))}, Optional: true, What: "the factories are forgotten before they are closed"})
	})
	mk := "Factory.Construct(StaticPluginFactory.Factory,<Context>,<Config>,*)"
	ck.Do("constructed", "every controller constructed from a factory of the plugin is removed from the bus when the factory is closed", func(o *Obl) {
		const list = "StaticPluginFactory.preUnload"
		hook := hookAdded(list, "Bus.RemoveController", "StaticPluginFactory.bus", mk+"#0")
		o.Guard(GuardRule{Root: construct, Effect: given, Needs: []Pred{hook}, What: "a controller is not removed when the plugin is unloaded"})
		o.Guard(GuardRule{Root: construct, Effect: listStore(list, "append", "prepend"), Needs: []Pred{lit("Context.Err(StaticPluginFactory.ctx)==nil"), callArgs("Context.Err", "StaticPluginFactory.ctx")}, Reset: anyOf(locks("StaticPluginFactory.mtx"), unlocks("StaticPluginFactory.mtx")), What: "a controller is constructed after the plugin was unloaded"})
		o.Never(construct, allOf(given, exitWith(func(c *Ctx, r []Val) bool { return !glob(mk+"#0", c.Str(r[0])) })), "another controller is returned")
		o.Path(PathRule{Root: construct, Via: calls("Factory.Construct"), Skip: lit("!Context.Err(*)==nil"), What: "no controller is constructed"})
		o.Never(construct, allOf(calls("Factory.Construct"), notP(callArgs("Factory.Construct", "StaticPluginFactory.Factory", "<Context>", "<Config>"))), "another controller is constructed")
		o.Path(PathRule{Root: construct, From: lit("!" + mk + "#1==nil"), Via: isExit, Forbid: notReturning(mk + "#1"), What: "the error of the construction is not returned"})
		o.Path(PathRule{Root: construct, From: lit(mk + "#1==nil"), Via: anyOf(hook, callArgs("Controller.Close", mk+"#0")), Skip: lit(mk + "#0==nil"), What: "a controller that was constructed is neither tied to the plugin nor closed"})
		o.Lockset(LockRule{Pkg: pluginPkg, Lock: locks("StaticPluginFactory.mtx"), Unlock: unlocks("StaticPluginFactory.mtx"), Fields: fieldSet(list), Taken: true})
		// closing
		cancel := dynCall("StaticPluginFactory.ctxCancel")
		o.ForEach(ForEachRule{Root: cl, Coll: []string{list}, Must: dynCall(list + "[]"), What: "a controller is not removed"})
		o.Path(PathRule{Root: cl, Via: anyOf(done(list), empty(list)), What: "the controllers are not removed"})
		o.Path(PathRule{Root: cl, Via: cancel, Until: anyOf(dynCall(list+"[]"), unlocks("StaticPluginFactory.mtx")), What: "the context of the factory is not canceled before its controllers are removed"})
		// the context
		n := p.Func(pluginPkg, "NewStaticPluginFactory")
		for f, want := range map[string]string{"Factory": "<Factory>", "ctx": "context.WithCancel*(<Context>)#0", "ctxCancel": "context.WithCancel*(<Context>)#1", "bus": "<Bus>"} {
			o.Guard(GuardRule{Root: n, Effect: isExit, Needs: []Pred{storeTo("StaticPluginFactory."+f, want)}, What: "a factory has another " + f})
		}
		o.Never(p.Method(pluginPkg, fac, "GetFactoryContext"), exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "StaticPluginFactory.ctx" }), "another context is reported")
	})
	ck.Opaque = "plugin.NewResolver"
	ck.Do("plugin", "a plugin's resolver has its factories and the context and bus it was given", func(o *Obl) {
		np := p.Method(pluginPkg, "StaticPlugin", "NewPluginResolver")
		mk := callArgs("plugin.NewResolver", "<Context>", "<Bus>", "*StaticPlugin*", "*StaticPlugin*", "dyn:StaticPlugin.factories(<Bus>)")
		o.Guard(GuardRule{Root: np, Effect: okExit, Needs: []Pred{mk}, What: "the resolver is made with another context, bus or factories"})
		ck.Opaque = ""
		nr := p.Func(pluginPkg, "NewResolver")
		for f, want := range map[string]string{"ctx": "<Context>", "bus": "<Bus>", "staticResolver": "static.NewResolver(<[]Factory>)"} {
			o.Guard(GuardRule{Root: nr, Effect: isExit, Needs: []Pred{storeTo("Resolver."+f, want)}, What: "a resolver has another " + f})
		}
		sp := p.Func(pluginPkg, "NewStaticPlugin")
		o.Guard(GuardRule{Root: sp, Effect: isExit, Needs: []Pred{storeTo("StaticPlugin.factories", "<FactoryCtorSet>")}, What: "a plugin has other factories"})
	})
	ck.Inside = soPkg
	load, closeAll := p.Func(soPkg, "LoadPluginSharedLibrary"), p.Method(soPkg, lp, "Close")
	ck.Do("order", "unloading cancels the context, then unloads the resolver, then the plugin, once", func(o *Obl) {
		cancel, r, pl := dynCall("LoadedPlugin.ctxCancel"), callArgs("PluginResolver.PrePluginUnload", "LoadedPlugin.PluginResolver"), callArgs("Plugin.PrePluginUnload", "LoadedPlugin.Plugin")
		o.Guard(GuardRule{Root: closeAll, Effect: r, Needs: []Pred{cancel}, What: "the resolver is unloaded before the context is canceled"})
		o.Guard(GuardRule{Root: closeAll, Effect: pl, Needs: []Pred{cancel, anyOf(r, lit("LoadedPlugin.PluginResolver==nil"))}, What: "the plugin is unloaded before its resolver"})
		o.onlyOnce(soPkg, closeAll, anyOf(r, pl), "the plugin may be unloaded twice")
		// what runs once
		body := closeAll
		for _, f := range append(p.closuresPassedTo(soPkg, 1, "Once.Do"), p.closuresPassedTo(soPkg, 0, "sync.OnceFunc")...) {
			if ck.reaches(f, anyOf(r, pl)) {
				body = f
			}
		}
		won := lit("!*CompareAndSwap(*)", "*Swap(*)")
		o.Path(PathRule{Root: body, Via: cancel, Skip: won, What: "the context is not canceled"})
		o.Path(PathRule{Root: body, Via: r, Skip: anyOf(won, lit("LoadedPlugin.PluginResolver==nil")), What: "the resolver is not unloaded"})
		o.Path(PathRule{Root: body, Via: pl, Skip: anyOf(won, lit("LoadedPlugin.Plugin==nil")), What: "the plugin is not unloaded"})
		if body != closeAll {
			o.Path(PathRule{Root: closeAll, Via: calls("Once.Do"), What: "the plugin is not unloaded"})
		}
	})
	ck.Do("loaded", "a loaded plugin is made with a context that is canceled when it is unloaded, and its factories are on the bus until then", func(o *Obl) {
		const sub = "context.WithCancel*(<Context>)"
		made := "Plugin.NewPluginResolver(*," + sub + "#0,<Bus>)"
		o.Never(load, allOf(calls("Plugin.NewPluginResolver"), notP(callArgs("Plugin.NewPluginResolver", "*", sub+"#0", "<Bus>"))), "the context given to the plugin is not canceled when it is unloaded")
		for f, want := range map[string]string{"ctxCancel": sub + "#1", "PluginResolver": made + "#0", "Plugin": "*(Plugin)"} {
			o.Guard(GuardRule{Root: load, Effect: given, Needs: []Pred{storeTo("LoadedPlugin."+f, want)}, What: "a loaded plugin has another " + f})
		}
		o.Guard(GuardRule{Root: load, Effect: calls("Plugin.NewPluginResolver"), Needs: []Pred{lit("!*(Plugin)==nil")}, What: "a plugin is used that may be nil"})
		for _, e := range []string{"plugin.Open(<string>)#1", "Plugin.Lookup(*)#1", "Plugin.NewPluginResolver(*)#1", "*os.Stat(<string>)#1"} {
			o.NilErrOnlyIf(load, "a plugin is loaded although "+e+" failed", fact(e+"==nil"))
			o.Path(PathRule{Root: load, From: lit("!" + e + "==nil"), Via: isExit, Forbid: notReturning("plugin.Open", "Plugin.Lookup(", "Plugin.NewPluginResolver(", "os.Stat("), What: "an error of loading is not returned"})
		}
		o.Path(PathRule{Root: load, From: lit("!Plugin.NewPluginResolver(*)#1==nil"), Via: dynCall(sub + "#1"), What: "the context of a plugin that could not be loaded is not canceled"})
		o.Guard(GuardRule{Root: load, Effect: given, Needs: []Pred{goCall()}, What: "the factories are not put on the bus"})
		ctl := "resolver.NewController(<Entry>,<Bus>,Plugin.NewPluginResolver(*)#0)"
		n := 0
		for _, g := range p.goSites(soPkg) {
			f := p.goTarget(g)
			if f == nil || !ck.reaches(f, calls("Bus.ExecuteController", "Bus.AddController")) {
				continue
			}
			n++
			exec := callArgs("Bus.ExecuteController", "<Bus>", sub+"#0", ctl)
			ran := lit("Bus.ExecuteController(*)==nil")
			ended := recvFrom("Context.Done(" + sub + "#0)")
			remove := callArgs("Bus.RemoveController", "<Bus>", ctl)
			o.Path(PathRule{Root: f, Go: g, Via: exec, What: "the factories are not put on the bus"})
			o.Path(PathRule{Root: f, Go: g, From: ran, Via: ended, Until: anyOf(remove, calls("Controller.Close")), What: "the factories are withdrawn while the plugin is loaded"})
			o.Path(PathRule{Root: f, Go: g, From: ran, Via: remove, What: "the factories are not withdrawn from the bus"})
			o.Path(PathRule{Root: f, Go: g, From: ran, Via: callArgs("Controller.Close", ctl), What: "the resolver controller is not closed"})
			o.NeverG(f, g, uninterruptible("Context.Done("+sub+"#0)"), nil, "the factories stay on the bus when the plugin is unloaded")
		}
		if n != 1 {
			o.Fail("go", load.Pos(), nil, "%s starts %d goroutines that put the factories on the bus", fnName(load), n)
		}
	})
}

// changes is the state of the watch loop: whether a change was received for which nothing is scheduled yet, and whether
// a scan is scheduled.
type changes struct{ got, armed, closed bool }

func checkP02(ck *Check) {
	p := ck.P
	sync, exec := p.Method(fsPkg, "Watcher", "SyncPlugins"), p.Method(fsPkg, "Watcher", "Execute")
	unloadOne, unloadAll, loadOne := p.Method(fsPkg, "Watcher", "UnloadPlugin"), p.Method(fsPkg, "Watcher", "UnloadAll"), p.Method(fsPkg, "Watcher", "LoadPlugin")
	const (
		loaded = "Watcher.loadedPlugins"
		key    = "key(" + loaded + ")"
		found  = "makemap*"
		dir    = "os.ReadDir(<string>)"
		stat   = "plugin_shared_library.NewPluginStat(*)"
		load   = "plugin_shared_library.LoadPluginSharedLibrary"
	)
	ck.Inside = fsPkg
	defer func() { ck.Inside, ck.Opaque = "", "" }()
	scanned := anyOf(done(dir+"#0"), empty(dir+"#0"))
	put := mapPut(loaded, "*", load+"(*)#0")
	ck.Do("scan", "a scan finds every plugin file and only plugin files", func(o *Obl) {
		o.ForEach(ForEachRule{Root: sync, Coll: []string{dir + "#0"}, Must: mapPut(found, "*.Join(*)", stat+"#0"),
			Skip: lit("DirEntry.IsDir("+dir+"#0[])", "!FileMode.IsRegular(DirEntry.Type("+dir+"#0[]))", "!strings.HasSuffix(DirEntry.Name("+dir+"#0[]),\".cbus.so\")", "!"+stat+"#1==nil"),
			What: "a plugin file is passed over"})
		o.Guard(GuardRule{Root: sync, Effect: mapPut(found, "*", "*PluginStat*"), Needs: []Pred{lit("strings.HasSuffix(DirEntry.Name(" + dir + "#0[]),\".cbus.so\")"), lit("FileMode.IsRegular(DirEntry.Type(" + dir + "#0[]))"), lit(stat + "#1==nil")}, What: "something else than a plugin file is loaded"})
		o.Path(PathRule{Root: sync, Via: callArgs("os.ReadDir", "<string>"), Until: anyOf(calls("LoadedPlugin.Close", load), put), What: "the directory is not read"})
		o.Path(PathRule{Root: sync, From: lit("!" + dir + "#1==nil"), Via: isExit, Forbid: anyOf(notReturning(dir+"#1"), calls("LoadedPlugin.Close", load)), What: "a directory that could not be read is not reported, or taken as empty"})
	})
	ck.Do("gone", "a plugin whose file disappeared or changed is unloaded, and no other", func(o *Obl) {
		end := callArgs("LoadedPlugin.Close", loaded+"[]")
		same := lit("PluginStat.Equal(*)")
		for _, must := range []Pred{end, mapDel(loaded, key)} {
			o.ForEach(ForEachRule{Root: sync, Coll: []string{loaded}, Must: must, Skip: same, What: "a plugin whose file disappeared or changed stays loaded"})
		}
		o.Path(PathRule{Root: sync, From: scanned, Via: anyOf(done(loaded), empty(loaded)), What: "the loaded plugins are not compared with the files"})
		o.Guard(GuardRule{Root: sync, Effect: end, Needs: []Pred{scanned, lit("!has("+found+","+key+")", found+"["+key+"]==nil", "!PluginStat.Equal(*)")}, What: "a plugin is unloaded whose file is there and did not change"})
		o.Never(sync, allOf(calls("PluginStat.Equal"), notP(anyOf(callArgs("PluginStat.Equal", found+"["+key+"]", "LoadedPlugin.PluginStat"), callArgs("PluginStat.Equal", "LoadedPlugin.PluginStat", found+"["+key+"]")))), "the file is not compared with the loaded plugin")
		// what a change is
		st := p.Func(soPkg, "NewPluginStat")
		eq := p.Method(soPkg, "PluginStat", "Equal")
		ck.Inside = soPkg
		for f, want := range map[string]string{"binarySize": "FileInfo.Size(os.Stat(<string>)#0)", "mTime": "FileInfo.ModTime(os.Stat(<string>)#0)"} {
			o.Guard(GuardRule{Root: st, Effect: okExit, Needs: []Pred{storeTo("PluginStat."+f, want)}, What: "the " + f + " is not that of the file"})
			o.TrueOnlyIf(eq, "files with another "+f+" are taken for the same", orNeed(fact("<PluginStat#2>==<PluginStat>", "<PluginStat>==<PluginStat#2>"), relates("PluginStat."+f+"==*|Time.Equal(*", "PluginStat."+f+"", "PluginStat."+f)))
		}
		o.NilErrOnlyIf(st, "a file that could not be read is taken as read", fact("os.Stat(<string>)#1==nil"))
		ck.Inside = fsPkg
	})
	ck.Do("load", "every file found that is not loaded is loaded, and a broken one does not stop the others", func(o *Obl) {
		try := callArgs(load, "<Context>", "*", "Watcher.bus", "key("+found+")")
		has := lit("has("+loaded+",key("+found+"))", "!"+loaded+"[key("+found+")]==nil")
		o.ForEach(ForEachRule{Root: sync, Coll: []string{found}, Must: try, Skip: has, What: "a plugin file is not loaded"})
		o.Path(PathRule{Root: sync, From: scanned, Via: anyOf(done(found), empty(found)), What: "the plugin files are not loaded"})
		o.Guard(GuardRule{Root: sync, Effect: try, Needs: []Pred{anyOf(done(loaded), empty(loaded))}, What: "a file is loaded before the plugin it replaces is unloaded"})
		for _, r := range []*ssa.Function{sync, loadOne} {
			o.Guard(GuardRule{Root: r, Effect: calls(load), Needs: []Pred{lit("!has("+loaded+",*)", loaded+"[*]==nil")}, What: "a plugin is loaded that is loaded already"})
			o.Guard(GuardRule{Root: r, Effect: mapPut(loaded, "*", "*"), Needs: []Pred{lit(load + "(*)#1==nil")}, What: "a plugin that could not be loaded is kept as loaded"})
			o.Never(r, func(c *Ctx, e *Event) bool {
				if !mapPut(loaded, "*", "*")(c, e) {
					return false
				}
				u := e.Instr.(*ssa.MapUpdate)
				return !strings.HasSuffix(c.StrV(u.Value), ","+c.StrV(u.Key)+")#0")
			}, "a plugin is kept under another name than that of its file")
			o.Path(PathRule{Root: r, From: lit(load + "(*)#1==nil"), Via: put, What: "a loaded plugin is forgotten"})
		}
		o.Path(PathRule{Root: sync, From: lit("!" + load + "(*)#1==nil"), Via: isExit, Forbid: notReturningNil, What: "a broken plugin ends the watcher"})
		o.Path(PathRule{Root: loadOne, From: lit("!" + load + "(*)#1==nil"), Via: isExit, Forbid: notReturning(load + "(*)#1"), What: "the error of loading a plugin is not returned"})
		o.Never(loadOne, allOf(calls(load), notP(callArgs(load, "<Context>", "*", "Watcher.bus", "<string>"))), "another plugin is loaded")
		o.Path(PathRule{Root: loadOne, Via: calls(load), Skip: lit("has("+loaded+",<string>)", "!"+loaded+"[<string>]==nil"), What: "the plugin is not loaded"})
	})
	ck.Do("unload", "unloading a plugin closes and forgets it", func(o *Obl) {
		not := lit("!has("+loaded+",<string>)", loaded+"[<string>]==nil")
		o.Path(PathRule{Root: unloadOne, Via: callArgs("LoadedPlugin.Close", loaded+"[<string>]"), Skip: not, What: "the plugin is not closed"})
		o.Path(PathRule{Root: unloadOne, Via: mapDel(loaded, "<string>"), Skip: not, What: "the plugin is not forgotten"})
		o.ForEach(ForEachRule{Root: unloadAll, Coll: []string{loaded}, Must: callArgs("LoadedPlugin.Close", loaded+"[]"), What: "a plugin stays loaded"})
		o.Path(PathRule{Root: unloadAll, Via: anyOf(done(loaded), empty(loaded)), What: "the plugins are not unloaded"})
		o.Path(PathRule{Root: unloadAll, From: callArgs("LoadedPlugin.Close", loaded+"[]"), Via: anyOf(mapDel(loaded, "*"), storeTo(loaded, "make*"), storeTo(loaded, "nil")), What: "a plugin that was unloaded is kept as loaded"})
		o.Lockset(LockRule{Pkg: fsPkg, Lock: locks("Watcher.mtx"), Unlock: unlocks("Watcher.mtx"), Fields: fieldSet(loaded), Taken: true})
	})
	ck.Opaque = "*Watcher).UnloadAll"
	ck.Do("stop", "whatever ends the watcher, everything is unloaded and the file-system watch is closed", func(o *Obl) {
		const nw = "fsnotify.NewWatcher*()"
		o.Path(PathRule{Root: exec, Via: calls("Watcher.UnloadAll"), AtPanic: true, What: "the plugins stay loaded when the watcher ends"})
		o.Path(PathRule{Root: exec, From: calls("Watcher.UnloadAll"), Via: isExit, Forbid: calls(load), What: "plugins are loaded after all were unloaded"})
		o.Path(PathRule{Root: exec, From: lit(nw + "#1==nil"), Via: callArgs("Watcher.Close", nw+"#0"), AtPanic: true, What: "the file-system watch is not closed"})
		o.execErrors(exec, nw+"#1", "Watcher.Add("+nw+"#0,<string>)", dir+"#1")
		finished := anyOf(recvFrom("Context.Done(<Context>)"), lit("!Context.Err(<Context>)==nil"))
		fine := exitWith(func(c *Ctx, r []Val) bool {
			return c.W.nilness(c.S.env, r[0]) == 1 || glob("Context.Err(*)", c.Str(r[0]))
		})
		o.Guard(GuardRule{Root: exec, Effect: fine, Needs: []Pred{finished}, What: "the watcher ends, and unloads the plugins, without an error or being canceled"})
		o.Path(PathRule{Root: exec, From: recvFrom("Watcher.Errors"), Via: isExit, Until: blocks, Forbid: fine, What: "an error of the watch does not end it with an error"})
		o.Never(exec, uninterruptible("Context.Done(<Context>)"), "the watcher does not end when it is canceled")
	})
	ck.Opaque = ""
	ck.Do("changes", "every change is followed by a scan that starts after it", func(o *Obl) {
		const nw = "fsnotify.NewWatcher*()"
		read := callArgs("os.ReadDir", "<string>")
		add := callArgs("Watcher.Add", nw+"#0", "<string>")
		o.Guard(GuardRule{Root: exec, Effect: read, Needs: []Pred{anyOf(lit("Watcher.Add("+nw+"#0,<string>)==nil"), lit("!<bool>"))}, What: "a change between the first scan and the start of the watch is missed"})
		o.Guard(GuardRule{Root: exec, Effect: blocks, Needs: []Pred{read}, What: "the watcher waits without having scanned the directory"})
		o.Path(PathRule{Root: exec, From: lit("<bool>"), Via: add, Until: blocks, Skip: lit("!" + nw + "#1==nil"), What: "the directory is not watched"})
		timers := []string{"time.After(*)", "Timer.C", "time.Tick(*)", "Ticker.C", "*NewTimer(*).C"}
		arm := calls("time.After", "time.NewTimer", "Timer.Reset", "time.NewTicker", "Ticker.Reset", "time.Tick")
		ignore := lit("16==Event.Op", "Event.Op==16", "!*HasSuffix(*Event.Name*)")
		event, gone := recvFrom("Watcher.Events"), lit("!recvok")
		fired := recvFrom(timers...)
		n := 0
		o.Monitor(exec, changes{}, func(c *Ctx, e *Event, x any) any {
			s := x.(changes)
			switch {
			case event(c, e):
				n++
				s.got, s.closed = true, false
			case fired(c, e):
				s.got, s.armed = true, false
			case s.got && gone(c, e):
				s.closed = true
			case s.got && ignore(c, e):
				s.got = false
			case read(c, e):
				s.got, s.armed = false, false
			case arm(c, e):
				s.got, s.armed = false, true
			case isExit(c, e):
				return s
			case blocks(c, e):
				if s.closed {
					c.Violate("closed", "%s: the watcher goes on although its watch ended", fnName(exec))
				} else if s.got && !s.armed {
					c.Violate("missed", "%s: no scan is scheduled for a change", fnName(exec))
				} else if s.got = false; s.armed {
					for _, t := range timers {
						if selectsOn(t)(c, e) {
							return s
						}
					}
					c.Violate("lost", "%s: a scheduled scan is lost", fnName(exec))
				}
			}
			return s
		})
		if n == 0 {
			o.Fail("events", exec.Pos(), nil, "%s receives no file-system events", fnName(exec))
		}
	})
	ck.Opaque = "*Watcher).Execute|*filesystem.NewWatcher"
	ck.Do("controller", "the controller watches the configured directory with its context and bus", func(o *Obl) {
		ce, nc := p.Method(fsPkg, "Controller", "Execute"), p.Func(fsPkg, "NewController")
		const w = "Watcher.Execute(plugin_loader_filesystem.NewWatcher(Controller.le,Controller.bus),<Context>,Controller.dir,Controller.watch)"
		o.Never(ce, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != w && !glob("Context.Err(*)", c.Str(r[0])) }), "the controller executes something else than the watcher of its directory")
		for f, want := range map[string]string{"dir": "*Clean(Config.GetDir(<Config>))", "watch": "Config.GetWatch(<Config>)", "bus": "<Bus>"} {
			o.Guard(GuardRule{Root: nc, Effect: okExit, Needs: []Pred{anyOf(storeTo("Controller."+f, want), storeTo("Controller."+f, "Config.Get*(<Config>)"))}, What: "a controller has another " + f})
		}
		ck.Opaque = ""
		nw := p.Func(fsPkg, "NewWatcher")
		o.Guard(GuardRule{Root: nw, Effect: isExit, Needs: []Pred{storeTo("Watcher.bus", "<Bus>")}, What: "a watcher has another bus"})
		o.Guard(GuardRule{Root: nw, Effect: isExit, Needs: []Pred{storeTo(loaded, "makemap*")}, What: "a watcher has nowhere to keep its plugins"})
	})
}

func init() {
	register("P01", "path-sensitive typestate, lockset and call-argument rules over the SSA form: the wrapping of factories, the pre-unload hooks and the order of unloading", checkP01)
	register("P02", "path-sensitive typestate, lockset and loop-completeness rules over the SSA form: the scan, the comparison with the loaded plugins and the watch loop", checkP02)
}

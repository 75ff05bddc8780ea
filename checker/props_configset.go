package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const csCtrlPkg, csProtoPkg, csJSONPkg = "controller/configset/controller", "controller/configset/proto", "controller/configset/json"

// revLits: literals saying that the revision of a is lower than (or at most) that of b.
func revLower(a, b string) []string {
	return []string{"ControllerConfig.GetRev(" + a + ")<ControllerConfig.GetRev(" + b + ")", "ControllerConfig.Rev<ControllerConfig.Rev", "ControllerConfig.GetRev(" + a + ")<ControllerConfig.Rev", "ControllerConfig.Rev<ControllerConfig.GetRev(" + b + ")"}
}

func negated(ps []string) (out []string) {
	for _, p := range ps {
		out = append(out, "!"+p)
	}
	return
}

func checkG01(ck *Check) {
	p := ck.P
	type mg struct {
		fn        *ssa.Function
		sets, out string
	}
	merges := []mg{{p.Func(configsetPkg, "MergeConfigSets"), "<[]ConfigSet>", "makemap"}, {p.Func(csProtoPkg, "MergeConfigSetMaps"), "<[]ConfigSetMap>", "<ConfigSetMap>"}}
	ck.Do("all", "merging visits every entry of every set and keeps it unless one of a higher revision is kept already", func(o *Obl) {
		for _, m := range merges {
			set, elem := m.sets+"[]", m.sets+"[][]"
			kept := m.out + "[key(" + set + ")]"
			put := mapPut(m.out, "key("+set+")", elem)
			higher := lit(revLower(elem, kept)...)
			o.ForEach(ForEachRule{Root: m.fn, Coll: []string{m.sets}, Must: anyOf(done(set), empty(set), lit("len("+set+")==0")), Reach: true, ReachSkip: lit(m.out + "==nil"), What: "a set is not merged"})
			o.ForEach(ForEachRule{Root: m.fn, Coll: []string{set}, Must: put, Skip: anyOf(lit(elem+"==nil"), higher), What: "an entry is not merged although none of a higher revision is kept"})
			o.Guard(GuardRule{Root: m.fn, Effect: put, Needs: []Pred{anyOf(lit("!has("+m.out+",key("+set+"))", kept+"==nil"), lit(negated(revLower(elem, kept))...), lit(revLower(kept, elem)...))}, Reset: iter(set), What: "an entry replaces one of a higher revision"})
			o.Never(m.fn, allOf(mapPut("*", "*", "*"), notP(put)), "an entry is stored under another key, or in one of the inputs")
			o.Never(m.fn, calls("delete", "clear"), "entries are removed")
		}
		fn := p.Func(csProtoPkg, "MergeConfigSets")
		cfgs := "ConfigSet.GetConfigs(<[]*ConfigSet>[])"
		o.ForEach(ForEachRule{Root: fn, Coll: []string{"<[]*ConfigSet>"}, Must: anyOf(adds(cfgs), callArgs("configset_proto.MergeConfigSetMaps", "*", "*")), Skip: lit("len("+cfgs+")==0", cfgs+"==nil", "<[]*ConfigSet>[]==nil"), Reach: true, What: "a set is not merged"})
		o.Path(PathRule{Root: fn, Via: calls("configset_proto.MergeConfigSetMaps"), What: "the sets are not merged"})
	})
	ck.Do("result", "merging returns the merged set", func(o *Obl) {
		o.Never(merges[0].fn, exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != "makemap" }), "returns another set than the merged one")
		o.Never(p.Func(csProtoPkg, "MergeConfigSets"), allOf(callArgs("configset_proto.MergeConfigSetMaps", "*"), notP(callArgs("configset_proto.MergeConfigSetMaps", "ConfigSet.Configs|makemap|ConfigSet.GetConfigs(new ConfigSet)"))), "merges into another set than the one returned")
	})
	ck.Do("inputs", "merging does not modify the entries", func(o *Obl) {
		for _, m := range merges {
			o.Never(m.fn, storeTo("ControllerConfig.*|controllerConfig.*"), "an entry is modified")
		}
	})
	eq := p.Method(configsetPkg, "ConfigSet", "Equal")
	ck.Do("equal", "two sets are equal only if they have the same keys with equal revisions and configurations", func(o *Obl) {
		const a, b = "<ConfigSet>", "<ConfigSet#2>"
		no := exitWith(func(c *Ctx, r []Val) bool { v, ok := c.known(r[0]); return ok && !v })
		dir := func(x, y string) func(o *Obl) {
			return func(o *Obl) {
				xe, ye := x+"[]", y+"[key("+x+")]"
				two := func(pre, f string) Pred {
					return func(c *Ctx, ev *Event) bool {
						if ev.Kind != KEdge {
							return false
						}
						s, truth := c.W.normLit(c.S.env, ev.Lit)
						return truth && strings.HasPrefix(s, pre) && strings.Contains(s, f+"("+xe+")") && strings.Contains(s, f+"("+ye+")")
					}
				}
				o.ForEach(ForEachRule{Root: eq, Coll: []string{x}, Must: lit("has("+y+",key("+x+"))", "!"+ye+"==nil"), Leave: no, What: "an entry may be missing in the other set"})
				o.ForEach(ForEachRule{Root: eq, Coll: []string{x}, Must: two("Config.EqualsConfig(", "ControllerConfig.GetConfig"), Leave: no, What: "entries with different configurations are considered equal"})
				o.ForEach(ForEachRule{Root: eq, Coll: []string{x}, Must: anyOf(two("ControllerConfig.GetRev(", "ControllerConfig.GetRev")), Leave: no, What: "entries with different revisions are considered equal"})
				o.TrueOnlyIf(eq, "equal without having compared all entries", fact("!more("+x+")"))
				o.Or(func(o *Obl) {
					o.ForEach(ForEachRule{Root: eq, Coll: []string{y}, Must: lit("has("+x+",key("+y+"))", "!"+x+"[key("+y+")]==nil"), Leave: no, What: "the other set may have further entries"})
					o.TrueOnlyIf(eq, "equal without having looked for further entries", fact("!more("+y+")"))
				}, func(o *Obl) {
					o.TrueOnlyIf(eq, "equal without having compared the numbers of entries", eqOf("len("+a+")", "len("+b+")"))
				})
				for _, e := range []string{xe, ye} {
					o.Guard(GuardRule{Root: eq, Effect: callArgs("ControllerConfig.*", e), Needs: []Pred{lit("!" + e + "==nil")}, Reset: iter(x), What: "a missing entry is compared"})
					o.Guard(GuardRule{Root: eq, Effect: callArgs("Config.EqualsConfig", "ControllerConfig.GetConfig("+e+")"), Needs: []Pred{lit("!ControllerConfig.GetConfig(" + e + ")==nil")}, Reset: iter(x), Optional: true, What: "an entry without configuration is compared"})
				}
			}
		}
		o.Or(dir(a, b), dir(b, a))
	})
	apply := p.Method(csCtrlPkg, "runningController", "ApplyConfig")
	ck.Do("apply", "a configuration is applied to a running controller exactly if its revision is newer", func(o *Obl) {
		const have, conf = "runningController.conf", "<ControllerConfig>"
		set := storeTo(have, conf)
		newer := lit(revLower(have, conf)...)
		o.Guard(GuardRule{Root: apply, Effect: storeTo(have), Needs: []Pred{newer}, Reset: anyOf(locks("runningController.mtx"), unlocks("runningController.mtx")), What: "a configuration that is not newer is applied"})
		o.Guard(GuardRule{At: csCtrlPkg, Effect: allOf(storeTo(have), shared), Needs: []Pred{newer}, Reset: anyOf(locks("runningController.mtx"), unlocks("runningController.mtx")), What: "a configuration that is not newer is applied"})
		o.Never(apply, allOf(storeTo(have), notP(set)), "another configuration is applied")
		o.Path(PathRule{Root: apply, From: newer, Via: set, What: "a newer configuration is not applied"})
		o.Path(PathRule{Root: apply, Via: anyOf(newer, lit(negated(revLower(have, conf))...)), What: "the revisions are not compared"})
		o.Guard(GuardRule{Root: apply, Effect: exitWith(func(c *Ctx, r []Val) bool { v, ok := c.known(r[0]); return !ok || v }), Needs: []Pred{set}, What: "reports a configuration as applied that was not"})
		o.NeverIn(csCtrlPkg, allOf(storeTo(have), notP(storeTo(have, conf))), "the configuration of a running controller is replaced by another one")
	})
	pushedOnce := func(o *Obl) {
		push := p.Method(csCtrlPkg, "Controller", "PushControllerConfig")
		have, none := lit("has("+csCtrls+",<string>)", "!"+csCtrls+"[<string>]==nil"), lit("!has("+csCtrls+",<string>)", csCtrls+"[<string>]==nil")
		put := mapPut(csCtrls, "<string>", "new runningController")
		o.Path(PathRule{Root: push, From: have, Via: callArgs("runningController.ApplyConfig", csCtrls+"[<string>]", "<ControllerConfig>"), What: "the configuration is not applied to the running controller"})
		o.Guard(GuardRule{Root: push, Effect: put, Needs: []Pred{none}, Reset: anyOf(locks("Controller.mtx"), unlocks("Controller.mtx")), What: "a running controller is replaced, whatever its revision"})
		o.Guard(GuardRule{Root: push, Effect: put, Needs: []Pred{storeTo("runningController.conf", "<ControllerConfig>")}, What: "a new controller has another configuration"})
	}
	ck.Do("pushed", "a pushed configuration is compared with the one of the running controller of its key, which is not replaced", pushedOnce)
	ck.Do("wrap", "a wrapped configuration keeps the revision and configuration it is given", func(o *Obl) {
		fn := p.Func(configsetPkg, "NewControllerConfig")
		o.Path(PathRule{Root: fn, Via: storeTo("controllerConfig.rev", "<uint64>"), What: "the revision is not kept"})
		o.Path(PathRule{Root: fn, Via: storeTo("controllerConfig.conf", "<Config>"), What: "the configuration is not kept"})
		for _, g := range [][2]string{{"GetRev", "controllerConfig.rev"}, {"GetConfig", "controllerConfig.conf"}} {
			o.Never(p.Method(configsetPkg, "controllerConfig", g[0]), exitWith(func(c *Ctx, r []Val) bool { return c.Str(r[0]) != g[1] }), "returns something else")
		}
	})
}

const csCtrls = "Controller.controllers"

// shared: what is stored to may be known to another goroutine.
func shared(c *Ctx, ev *Event) bool {
	st, ok := ev.Instr.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := c.Resolve(Val{c.S.F, st.Addr}).V.(*ssa.FieldAddr)
	return !ok || !c.unshared(Val{c.Resolve(Val{c.S.F, st.Addr}).F, fa.X})
}

func checkG02(ck *Check) {
	p := ck.P
	exec := p.Method(csCtrlPkg, "Controller", "Execute")
	run := p.Method(csCtrlPkg, "runningController", "Execute")
	push := p.Method(csCtrlPkg, "Controller", "PushControllerConfig")
	addRef := p.Method(csCtrlPkg, "Controller", "AddConfigSetReference")
	rel := p.Method(csCtrlPkg, "runningControllerRef", "Release")
	const ctrls, running = csCtrls, "makemap"
	wake := sends("Controller.wakeCh")
	noRefs := lit("len(runningController.refs)==0", "!0<len(runningController.refs)")
	refsLeft := lit("!len(runningController.refs)==0", "0<len(runningController.refs)")
	ck.Do("locked", "the controllers, references and states are accessed only under their locks", func(o *Obl) {
		// other entries of the request, and the state, which is written whatever it was
		stale := []string{"Controller.persistentRefs>Controller.controllers", "Controller.controllers>Controller.persistentRef*", "*>runningController.state", "*>runningController.prevEmittedState", "runningControllerRef.cbs>runningControllerRef.rc", "runningControllerRef.rc>runningControllerRef.rel", "applyConfigSetResolver.refs>applyConfigSetResolver.refs", "lookupConfigSetResolver.refs>lookupConfigSetResolver.refs"}
		for _, l := range []struct {
			mtx    string
			fields []string
		}{
			{"Controller.mtx", []string{ctrls, "Controller.persistentRefs", "Controller.persistentRefCounter"}},
			{"runningController.mtx", []string{"runningController.conf", "runningController.state", "runningController.refs", "runningController.prevEmittedState"}},
			{"runningControllerRef.mtx", []string{"runningControllerRef.cbs", "runningControllerRef.rc", "runningControllerRef.rel"}},
			{"applyConfigSetResolver.refsMtx", []string{"applyConfigSetResolver.refs"}},
			{"lookupConfigSetResolver.refsMtx", []string{"lookupConfigSetResolver.refs"}},
		} {
			o.Lockset(LockRule{Pkg: csCtrlPkg, Lock: locks(l.mtx), Unlock: unlocks(l.mtx), Fields: fieldSet(l.fields...), Taken: true, Stale: stale})
		}
	})
	remove := callArgs("delete", ctrls, "key("+ctrls+")")
	ended := recvFrom("Context.Done(*)")
	ck.Do("collected", "a controller without references is removed, stopped, and no other one is", func(o *Obl) {
		woken := recvFrom("Controller.wakeCh")
		o.ForEach(ForEachRule{Root: exec, After: woken, Coll: []string{ctrls}, Must: remove, Skip: refsLeft, Optional: true, What: "a controller without references is not removed"})
		o.Path(PathRule{Root: exec, From: noRefs, Via: remove, What: "a controller without references is not removed"})
		o.Path(PathRule{Root: exec, From: woken, Via: anyOf(noRefs, refsLeft, empty(ctrls), done(ctrls)), What: "the references are not counted"})
		o.Guard(GuardRule{Root: exec, Effect: anyOf(remove, callArgs("delete", ctrls), callArgs("clear", ctrls), storeTo(ctrls)), Needs: []Pred{noRefs}, Reset: anyOf(iter(ctrls), woken), Free: ended, What: "a controller with references is removed"})
		o.NeverIn(csCtrlPkg, allOf(callArgs("delete", ctrls, "*"), notP(anyOf(remove, callArgs("delete", ctrls, "key(makemap)")))), "another controller is removed")
		gone := lit("!has("+ctrls+",key("+running+"))", "!has("+running+",key("+ctrls+"))")
		o.ForEach(ForEachRule{Root: exec, After: woken, Coll: []string{running}, Must: dynCall(running + "[]"), Skip: lit("has("+ctrls+",key("+running+"))", "!"+ctrls+"[key("+running+")]==nil"), Until: wake, What: "a removed controller is not stopped"})
		o.Path(PathRule{Root: exec, From: woken, Via: done(running), Skip: ended, Until: anyOf(recvFrom("Controller.wakeCh"), goCall()), What: "removed controllers are not stopped"})
		o.Guard(GuardRule{Root: exec, Effect: dynCall(running + "[]"), Needs: []Pred{gone}, Reset: anyOf(iter(running), woken), Free: ended, What: "a controller that is still referenced is stopped"})
		o.Path(PathRule{Root: exec, From: dynCall(running + "[]"), Via: callArgs("delete", running), Skip: ended, Optional: true, Until: anyOf(iter(running), done(running), isExit), What: "a stopped controller is still considered running"})
	})
	start := goCall()
	ck.Do("started", "every controller that is not running is started once, with a context canceled when it is removed", func(o *Obl) {
		o.ForEach(ForEachRule{Root: exec, After: recvFrom("Controller.wakeCh"), Coll: []string{ctrls}, Must: start, Skip: lit("has("+running+",key("+ctrls+"))", "!"+running+"[key("+ctrls+")]==nil"), What: "a controller is not started"})
		o.Path(PathRule{Root: exec, From: recvFrom("Controller.wakeCh"), Via: done(ctrls), Skip: ended, Until: anyOf(recvFrom("Controller.wakeCh")), What: "controllers are not started"})
		o.Guard(GuardRule{Root: exec, Effect: start, Needs: []Pred{lit("!has("+running+",key("+ctrls+"))", running+"[key("+ctrls+")]==nil"), mapPut(running, "key("+ctrls+")", "context.WithCancel(<Context>)#1")}, Reset: iter(ctrls), What: "a controller is started twice, or cannot be stopped"})
		o.Watch(csCtrlPkg, calls("runningController.Execute"), 0, func(c *Ctx, ev *Event, st any, hit bool) any {
			if hit && !callArgs("runningController.Execute", ctrls+"[]|<runningController>", "context.WithCancel(*)#0|<Context>")(c, ev) {
				c.Violate("ctx", "%s: a controller is executed with another context than the one canceled when it is removed", fnName(c.W.Root))
			}
			return st
		})
		for _, g := range p.goSites(csCtrlPkg) {
			if g.Parent() == exec {
				o.Site(g)
			}
		}
		o.Never(exec, func(c *Ctx, ev *Event) bool {
			g, ok := ev.Instr.(*ssa.Go)
			if !ok || ev.Kind != KInstr {
				return false
			}
			for _, a := range g.Call.Args {
				if isContext(a.Type()) && c.StrV(a) == "<Context>" {
					return true
				}
			}
			return false
		}, "a controller is executed with a context that is not canceled when it is removed")
	})
	ck.Do("ends", "all controllers are stopped when the controller ends", func(o *Obl) {
		o.ForEach(ForEachRule{Root: exec, After: ended, Coll: []string{ctrls, running}, Must: dynCall(running+"[]", running+"[key("+ctrls+")]"), Skip: lit("!has("+running+",key("+ctrls+"))", running+"[key("+ctrls+")]==nil"), Reach: true, What: "a controller keeps running"})
	})
	ck.Do("references", "a reference is counted from when it is taken until it is released, once", func(o *Obl) {
		o.Guard(GuardRule{Root: push, Effect: retOK, Needs: []Pred{listStore("runningController.refs", "append", "prepend")}, What: "a reference is returned that is not counted"})
		o.DeletesOne(csCtrlPkg, "runningController.refs")
		drop := listStore("runningController.refs", "delete")
		o.Guard(GuardRule{At: csCtrlPkg, Effect: anyOf(drop, listStore("runningController.refs", "clear", "other")), Needs: []Pred{lit("<runningControllerRef>==runningController.refs[]", "contains(runningController.refs,<runningControllerRef>)", "!index(runningController.refs,*)==-1", "!index(runningController.refs,*)<0")}, What: "another reference is dropped"})
		o.Path(PathRule{At: csCtrlPkg, From: drop, Via: wake, Skip: refsLeft, What: "the last reference is dropped without waking the controller"})
		o.Path(PathRule{Root: rel, From: lit("!runningControllerRef.rc==nil"), Via: anyOf(drop, done("runningController.refs"), empty("runningController.refs")), What: "a released reference stays counted"})
		o.Guard(GuardRule{Root: rel, Effect: unlocks("runningControllerRef.mtx"), Needs: []Pred{anyOf(storeTo("runningControllerRef.rel", "true"), lit("runningControllerRef.rel"))}, What: "a released reference is not marked released"})
		o.Path(PathRule{Root: rel, From: storeTo("runningControllerRef.rel", "true"), Via: anyOf(dynCall("runningControllerRef.relInternalCallback"), goCall(), lit("runningControllerRef.relInternalCallback==nil")), What: "a released persistent reference is still applied"})
		o.Path(PathRule{Root: rel, From: lit("!runningControllerRef.relInternalCallback==nil"), Via: anyOf(dynCall("runningControllerRef.relInternalCallback"), goCall()), What: "a released persistent reference is still applied"})
		o.Guard(GuardRule{Root: rel, Effect: calls("runningController.DelReference"), Needs: []Pred{anyOf(calls("Once.Do"), lit("!runningControllerRef.rel", "!swap(runningControllerRef.rel,true)"))}, What: "releasing twice drops the reference twice"})
		o.Guard(GuardRule{Root: rel, Effect: calls("runningController.DelReference"), Needs: []Pred{storeTo("runningControllerRef.rel", "true")}, What: "a reference may be applied while it is released"})
		// what is read to be dropped is read after it was marked released
		o.Guard(GuardRule{At: csCtrlPkg, Effect: allOf(storeTo("runningControllerRef.rc"), shared), Needs: []Pred{lit("!runningControllerRef.rel")}, Reset: unlocks("runningControllerRef.mtx"), Optional: true, What: "a released reference is applied"})
	})
	ck.Do("wakeable", "a wake-up is not lost while the controller is busy", func(o *Obl) {
		for _, ch := range []string{"Controller.wakeCh", "runningController.confRestartCh"} {
			n := 0
			o.Watch(csCtrlPkg, storeTo(ch), 0, func(c *Ctx, ev *Event, st any, hit bool) any {
				if hit {
					n++
					if !bufferedChan(c, ev) {
						c.Violate("unbuffered", "%s: %s is not buffered: what is sent while nobody waits is lost", fnName(c.W.Root), ch)
					}
				}
				return st
			})
			if n == 0 {
				o.Fail(ch, 0, nil, "nothing sets %s", ch)
			}
		}
	})
	ck.Do("attached", "a reference is attached only to a controller that is known not to have been removed", func(o *Obl) {
		for _, fn := range []*ssa.Function{push, addRef} {
			o.Guard(GuardRule{Root: fn, Effect: listStore("runningController.refs", "append", "prepend"), Needs: []Pred{locks("Controller.mtx")}, Reset: unlocks("Controller.mtx"), What: "a reference is attached to a controller that may have been removed"})
		}
		o.Guard(GuardRule{Root: addRef, Effect: listStore("runningController.refs", "append", "prepend"), Needs: []Pred{lit("!"+ctrls+"[<string>]==nil", "has("+ctrls+",<string>)")}, Reset: anyOf(locks("Controller.mtx"), unlocks("Controller.mtx")), What: "a reference is attached to a controller that may have been removed"})
	})
	ck.Do("persistent", "a persistent reference is applied to the running controller of its key, now and whenever one is started", func(o *Obl) {
		reg := mapPut("Controller.persistentRefs", "*", "new runningControllerRef")
		o.Path(PathRule{Root: addRef, Via: reg, What: "a persistent reference is not recorded"})
		apply := calls("runningController.ApplyReference")
		o.Path(PathRule{Root: addRef, Via: apply, Skip: lit("Controller.controllers[<string>]==nil", "!has(Controller.controllers,<string>)"), What: "a persistent reference is not applied to the running controller"})
		o.ForEach(ForEachRule{Root: push, After: mapPut(ctrls, "*", "*"), Coll: []string{"Controller.persistentRefs"}, Must: apply, Skip: lit("!<string>==runningControllerRef.id", "!runningControllerRef.id==<string>"), Reach: true, What: "a persistent reference is not applied to a new controller"})
		o.Guard(GuardRule{Root: push, Effect: apply, Needs: []Pred{lit("<string>==runningControllerRef.id", "runningControllerRef.id==<string>")}, Reset: iter("Controller.persistentRefs"), What: "a persistent reference is applied to another controller"})
		for _, cl := range addRef.AnonFuncs {
			o.Path(PathRule{Root: cl, Via: callArgs("delete", "Controller.persistentRefs"), What: "a released persistent reference stays recorded"})
			o.Never(cl, loads("Controller.persistentRefCounter"), "another persistent reference is dropped: the counter may have changed")
			o.Never(cl, allOf(callArgs("delete", "Controller.persistentRefs"), notP(callArgs("delete", "Controller.persistentRefs", "Controller.persistentRefCounter|<uint32>"))), "another persistent reference is dropped")
		}
		o.NeverIn(csCtrlPkg, allOf(storeTo("Controller.persistentRefCounter"), notP(storeTo("Controller.persistentRefCounter", "(Controller.persistentRefCounter+1)"))), "the ids of persistent references do not only count up")
		o.CountsUpKey(addRef, "Controller.persistentRefs", "Controller.persistentRefCounter", "two persistent references get the same id")
		o.Path(PathRule{Root: addRef, From: reg, Via: isExit, Forbid: callArgs("delete", "Controller.persistentRefs"), What: "the persistent reference is dropped"})
		set := p.Method(csCtrlPkg, "runningController", "ApplyReference")
		o.Path(PathRule{Root: set, From: storeTo("runningControllerRef.rc"), Via: listStore("runningController.refs", "append", "prepend"), What: "an applied reference is not counted"})
		o.Guard(GuardRule{Root: set, Effect: listStore("runningController.refs", "append", "prepend"), Needs: []Pred{storeTo("runningControllerRef.rc", "<runningController>")}, What: "a reference is counted that is not applied"})
		o.Path(PathRule{Root: set, Via: storeTo("runningControllerRef.rc", "<runningController>"), Skip: lit("runningControllerRef.rel", "<runningController>==runningControllerRef.rc", "runningControllerRef.rc==<runningController>"), What: "a reference is not applied"})
	})
	ck.Do("pushed", "pushing a configuration starts a controller for a new key and applies it to the one for an existing key", func(o *Obl) {
		have := lit("has("+ctrls+",<string>)", "!"+ctrls+"[<string>]==nil")
		o.Path(PathRule{Root: push, From: have, Via: callArgs("runningController.ApplyConfig", ctrls+"[<string>]", "<ControllerConfig>"), What: "the configuration is not applied"})
		put := mapPut(ctrls, "<string>", "new runningController")
		o.Path(PathRule{Root: push, From: lit("!has("+ctrls+",<string>)", ctrls+"[<string>]==nil"), Via: put, What: "no controller is started"})
		o.Path(PathRule{Root: push, From: put, Via: wake, What: "the new controller is not started"})
		o.Never(push, allOf(mapPut(ctrls, "*", "*"), notP(put)), "a controller is recorded under another key")
		o.Guard(GuardRule{Root: push, Effect: put, Needs: []Pred{lit("!has("+ctrls+",<string>)", ctrls+"[<string>]==nil")}, Reset: anyOf(locks("Controller.mtx"), unlocks("Controller.mtx")), What: "a running controller is replaced"})
		o.Guard(GuardRule{Root: push, Effect: put, Needs: []Pred{storeTo("runningController.conf", "<ControllerConfig>"), storeTo("runningController.key", "<string>")}, What: "the new controller has another key or configuration"})
	})
	const restart = "runningController.confRestartCh"
	ck.Do("restarted", "a newer configuration restarts the controller with that configuration", func(o *Obl) {
		o.Path(PathRule{Root: p.Method(csCtrlPkg, "runningController", "ApplyConfig"), From: storeTo("runningController.conf"), Via: sends(restart), What: "the controller is not told of its new configuration"})
		load := calls("resolver.NewLoadControllerWithConfig")
		o.Path(PathRule{Root: run, From: recvFrom(restart), Via: loads("runningController.conf"), Skip: recvFrom("Context.Done(*)"), Until: anyOf(load, isExit), What: "the controller goes on with the old configuration"})
		o.Path(PathRule{Root: run, From: recvFrom(restart), Via: load, Skip: anyOf(lit("!Context.Err(<Context>)==nil")), Until: recvFrom("Context.Done(*)"), What: "the controller is not started again"})
		o.Guard(GuardRule{Root: run, Effect: isExit, Needs: []Pred{anyOf(lit("!Context.Err(*)==nil"), recvFrom("Context.Done(*)"), lit("*#2==Canceled", "Canceled==*", "errors.Is(*)", "*==context.Canceled"))}, What: "the controller stops although it is referenced"})
		add := calls("Bus.AddDirective")
		o.Path(PathRule{Root: run, From: lit("Bus.AddDirective(*)#2==nil"), Via: calls("Reference.Release"), Skip: lit("Bus.AddDirective(*)#1==nil"), Until: anyOf(add, isExit), What: "the previous execution is not released before the next one starts"})
		fresh := calls("ControllerConfig.GetConfig")
		o.Guard(GuardRule{Root: run, Effect: load, Needs: []Pred{fresh}, Reset: load, What: "the configuration is not read again for the next execution"})
	})
	ck.Do("disposal", "the end of the execution is noticed by every wait after it started", func(o *Obl) {
		known := []string{restart, "Context.Done(<Context>)"}
		type st struct{ started bool }
		n := 0
		o.Watch(csCtrlPkg, calls("Instance.AddDisposeCallback"), st{}, func(c *Ctx, ev *Event, x any, hit bool) any {
			s := x.(st)
			if hit {
				s.started = true
				n++
			}
			if anyOf(calls("Reference.Release"), calls("resolver.NewLoadControllerWithConfig"))(c, ev) {
				s.started = false
			}
			if sel, ok := ev.Instr.(*ssa.Select); ok && ev.Kind == KInstr && sel.Blocking && s.started {
				own := false
				for _, st := range sel.States {
					name := c.StrV(st.Chan)
					own = own || !globAny(known, name) && isEmptyStruct(st.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				if !own {
					c.Violate("disposal", "%s: waits without noticing that the execution ended", fnName(run))
				}
			}
			return s
		})
		if n == 0 {
			o.Fail("callback", run.Pos(), nil, "nothing notices that the execution was disposed")
		}
	})
	ck.Do("waits", "a disposed or failed execution is started again, and the controller waits only for its context, a configuration, a value or the end of the execution", func(o *Obl) {
		for _, f := range []string{restart, "Context.Done(<Context>)"} {
			o.Never(run, func(c *Ctx, ev *Event) bool {
				s, ok := ev.Instr.(*ssa.Select)
				if !ok || ev.Kind != KInstr || !s.Blocking || c.S.F.fn != run {
					return false
				}
				for _, st := range s.States {
					if c.StrV(st.Chan) == f {
						return false
					}
				}
				return true
			}, "waits without watching for "+f)
			o.Never(run, func(c *Ctx, ev *Event) bool {
				u, ok := ev.Instr.(*ssa.UnOp)
				return ok && ev.Kind == KInstr && u.Op == token.ARROW && c.S.F.fn == run
			}, "waits without watching for "+f)
		}
	})
}

func checkG03(ck *Check) {
	p := ck.P
	const refKey = "Reference.GetConfigKey(key(*"
	for _, t := range []struct{ name, typ, entries, key, take string }{
		{"apply", "applyConfigSetResolver", "ApplyConfigSet.GetApplyConfigSet(applyConfigSetResolver.dir)", "key(ApplyConfigSet.GetApplyConfigSet(applyConfigSetResolver.dir))", "Controller.PushControllerConfig"},
		{"lookup", "lookupConfigSetResolver", "LookupConfigSet.GetLookupConfigSetControllerKeys(lookupConfigSetResolver.dir)", "LookupConfigSet.GetLookupConfigSetControllerKeys(lookupConfigSetResolver.dir)[]", "Controller.AddConfigSetReference"},
	} {
		refs := t.typ + ".refs"
		resolve := p.Method(csCtrlPkg, t.typ, "Resolve")
		ctxErr := "Context.Err(" + t.typ + ".ctx)"
		over := lit("!"+ctxErr+"==nil", "!Context.Err(<Context>)==nil")
		put := mapPut(refs, "*", "*")
		watch := calls("Reference.AddStateCallback", "runningControllerRef.AddStateCallback")
		failed := lit("!"+t.take+"(*)#1==nil", "!nil==nil")
		args := []string{"*", "*", t.key}
		if t.name == "apply" {
			args = append(args, t.entries+"[]")
		}
		take := callArgs(t.take, args...)
		have := lit("has(makemap,"+t.key+")", "!makemap["+t.key+"]==nil", "contains(*,"+t.key+")")
		ck.Do(t.name, "every entry of the request is referenced and its state watched", func(o *Obl) {
			o.ForEach(ForEachRule{Root: resolve, Coll: []string{t.entries}, Must: take, Skip: anyOf(lit(t.key+"==\"\"", "\"\"=="+t.key, "len("+t.key+")==0"), have), Leave: anyOf(over, failed), Reach: true, ReachSkip: anyOf(lit(t.entries+"==nil", "len("+t.entries+")==0"), over), What: "an entry of the request is not referenced"})
			o.Never(resolve, allOf(calls(t.take), notP(take)), "another controller is referenced, or another configuration applied")
			o.Path(PathRule{Root: resolve, From: take, Via: watch, Skip: anyOf(over, failed), Until: anyOf(iter(t.entries), done(t.entries), isExit), What: "the state of a referenced controller is not watched"})
			o.Path(PathRule{Root: resolve, From: take, Via: anyOf(put, calls("Reference.Release", "runningControllerRef.Release")), Skip: failed, Until: anyOf(iter(t.entries), done(t.entries), isExit), What: "a reference is leaked"})
			o.Guard(GuardRule{Root: resolve, Effect: watch, Needs: []Pred{put}, Reset: iter(t.entries), What: "a state is watched before its reference is recorded: the state is lost"})
			// refs is emptied once, after the context ended and under the lock: what is recorded later is never released
			o.Guard(GuardRule{Root: resolve, Effect: put, Needs: []Pred{lit(ctxErr + "==nil")}, Reset: anyOf(locks(t.typ+".refsMtx"), unlocks(t.typ+".refsMtx")), What: "a reference is recorded although the request may have ended: it is never released"})
			o.ForEach(ForEachRule{Root: resolve, Coll: []string{refs}, Must: mapPut("makemap", refKey, "*"), Optional: true, What: "an existing reference is taken again"})
		})
	}
	ck.Do("skipped", "an entry is passed over only if it is referenced already", func(o *Obl) {
		for _, t := range []string{"applyConfigSetResolver", "lookupConfigSetResolver"} {
			resolve := p.Method(csCtrlPkg, t, "Resolve")
			o.Never(resolve, allOf(mapPut("makemap", "*", "*"), notP(mapPut("makemap", "Reference.GetConfigKey(key("+t+".refs))", "*"))), "an entry is taken for referenced that is not")
		}
	})
	ck.Do("report", "every state is reported in place of the one reported before, unless the request ended", func(o *Obl) {
		for _, t := range []string{"applyConfigSetResolver", "lookupConfigSetResolver"} {
			// the callbacks of this resolver: the entry points that add a value and record its id
			roots := 0
			for _, e := range ck.entriesReaching(csCtrlPkg, calls("ResolverHandler.AddValue")) {
				fn := e.Fn
				if !ck.reaches(fn, mapPut(t+".refs", "*", "*")) || fn == p.Method(csCtrlPkg, t, "Resolve") {
					continue
				}
				roots++
				refs := t + ".refs"
				add := calls("ResolverHandler.AddValue")
				gone := lit("!has(" + refs + ",*)")
				old := refs + "[*]"
				acc := "ResolverHandler.AddValue(*)#1"
				o.Path(PathRule{Root: fn, Via: callArgs("ResolverHandler.AddValue", "*", "<State>*"), Skip: gone, What: "a state is not reported"})
				o.Never(fn, allOf(add, notP(callArgs("ResolverHandler.AddValue", "<ResolverHandler>", "<State>*"))), "another value is reported")
				o.Guard(GuardRule{Root: fn, Effect: add, Needs: []Pred{lit("has(" + refs + ",*)"), anyOf(callArgs("ResolverHandler.RemoveValue", "*", old), lit(old+"==0", "0=="+old, "!has("+refs+",*)"))}, Reset: unlocks(t + ".refsMtx"), What: "a state is reported after the request ended, or besides the previous one"})
				o.Path(PathRule{Root: fn, From: add, Via: mapPut(refs, "*", "*"), Until: anyOf(unlocks(t+".refsMtx"), isExit), What: "the id of the reported state is not recorded"})
				o.Path(PathRule{Root: fn, From: lit(acc), Via: mapPut(refs, "*", "ResolverHandler.AddValue(*)#0"), Optional: true, Until: anyOf(unlocks(t+".refsMtx"), isExit), What: "the id of the reported state is not recorded"})
				o.Path(PathRule{Root: fn, From: lit("!" + acc), Via: mapPut(refs, "*", "0"), Optional: true, Until: anyOf(unlocks(t+".refsMtx"), isExit), What: "an old id stays recorded"})
				o.Path(PathRule{Root: fn, From: add, Via: isExit, Forbid: add, What: "a state is reported twice"})
			}
			if roots == 0 {
				o.Fail("callbacks "+t, 0, nil, "no state callback of %s found", t)
			}
		}
	})
	ck.Do("released", "when the request ends every reference it recorded is released", func(o *Obl) {
		for _, t := range []string{"applyConfigSetResolver", "lookupConfigSetResolver"} {
			refs := t + ".refs"
			n := 0
			for _, g := range p.goSites(csCtrlPkg) {
				root := p.goTarget(g)
				if root == nil || !ck.reaches(root, loads(refs)) {
					continue
				}
				n++
				rel := callArgs("Reference.Release|runningControllerRef.Release", "key("+refs+")")
				o.ForEach(ForEachRule{Root: root, Go: g, Coll: []string{refs}, Must: rel, Reach: true, What: "a recorded reference is not released"})
				o.Guard(GuardRule{Root: root, Go: g, Effect: anyOf(loads(refs), rel), Needs: []Pred{recvFrom("Context.Done(*)")}, What: "references are released before the request ends"})
				o.Path(PathRule{Root: root, Go: g, From: loads(refs), Via: anyOf(storeTo(refs), listStore(refs, "clear")), Until: anyOf(unlocks(t+".refsMtx"), isExit), What: "states are still reported after the request ended"})
			}
			if n == 0 {
				o.Fail("cleanup "+t, 0, nil, "nothing waits for the end of a %s", t)
			}
		}
		for _, h := range []string{"resolveApplyConfigSet", "resolveLookupConfigSet"} {
			o.Path(PathRule{Root: p.Method(csCtrlPkg, "Controller", h), Via: goCall(), What: "nothing waits for the end of the request"})
		}
		hd := p.Method(csCtrlPkg, "Controller", "HandleDirective")
		o.Never(hd, func(c *Ctx, ev *Event) bool {
			g, ok := ev.Instr.(*ssa.Go)
			if !ok || ev.Kind != KInstr {
				return false
			}
			for _, a := range g.Call.Args {
				if isContext(a.Type()) && c.StrV(a) != "<Context>" {
					return true
				}
			}
			return false
		}, "the end of the request is not what is waited for")
		o.Never(hd, allOf(storeTo("applyConfigSetResolver.ctx|lookupConfigSetResolver.ctx"), notP(storeTo("*", "<Context>"))), "the end of the request is not what is waited for")
		for _, d := range []string{"ApplyConfigSet", "LookupConfigSet"} {
			o.Path(PathRule{Root: hd, From: lit("is(*,configset."+d+")", "is(*,"+d+")"), Via: goCall(), What: "nothing waits for the end of the request"})
		}
	})
	st := p.Method(csCtrlPkg, "runningController", "pushState")
	ck.Do("pushed", "every change of the state of a controller reaches every callback", func(o *Obl) {
		fields := []string{"id", "err", "conf", "ctrl"}
		o.Path(PathRule{At: csCtrlPkg, From: storeWithin("runningController.state"), Via: calls("runningController.pushState"), Until: anyOf(unlocks("runningController.mtx"), isExit), What: "the state changes without telling the references"})
		o.ForEach(ForEachRule{Root: st, Coll: []string{"runningController.refs"}, Must: anyOf(done("runningControllerRef.cbs"), empty("runningControllerRef.cbs"), lit("runningControllerRef.rel")), Reach: true, ReachSkip: equalState, What: "a reference is not told"})
		o.ForEach(ForEachRule{Root: st, Coll: []string{"runningControllerRef.cbs"}, Must: dynCall("runningControllerRef.cbs[]"), What: "a callback is not called"})
		const prev = "runningController.prevEmittedState"
		for _, f := range fields {
			o.Guard(GuardRule{Root: st, Effect: isExit, Needs: []Pred{anyOf(empty("runningController.refs"), done("runningController.refs"), lit("runningControllerState.Equals(*)", "*"+f+"==*"+f))}, What: "a state is not told although its " + f + " differs from the one told before"})
		}
		o.Path(PathRule{Root: st, From: loads(prev, prev+".*"), Via: anyOf(storeTo(prev), equalState), Optional: true, What: "a state is told that is not remembered: a later change back to the one before is not told"})
		o.Path(PathRule{Root: st, From: calls("runningControllerState.Equals"), Via: anyOf(storeTo(prev), equalState), Optional: true, What: "a state is told that is not remembered: a later change back to the one before is not told"})
		o.NeverIn(csCtrlPkg, allOf(storeTo(prev), notP(storeTo(prev, "*<runningControllerState>", "<runningControllerState>", "runningController.state"))), "another state is remembered than the one told")
		o.Never(st, allOf(dynCall("runningControllerRef.cbs[]"), func(c *Ctx, ev *Event) bool {
			a := c.Args(execCall(ev))
			return len(a) != 1 || c.Str(a[0]) != "<runningControllerState>"
		}), "another state is told")
		eq := p.Method(csCtrlPkg, "runningControllerState", "Equals")
		var needs []Need
		for _, f := range fields {
			needs = append(needs, eqOf("runningControllerState."+f, "runningControllerState."+f))
		}
		o.TrueOnlyIf(eq, "states that differ are considered equal", needs...)
		cb := p.Method(csCtrlPkg, "runningControllerRef", "AddStateCallback")
		reg := listStore("runningControllerRef.cbs", "append")
		o.Path(PathRule{Root: cb, Via: reg, What: "the callback is not registered"})
		o.Path(PathRule{Root: cb, From: reg, Via: dynCall("<func(State)>"), Until: anyOf(unlocks("runningControllerRef.mtx"), isExit), What: "the callback is not called with the current state, or only after a newer one"})
		o.Guard(GuardRule{Root: cb, Effect: dynCall("<func(State)>"), Needs: []Pred{anyOf(loads("runningController.state"), lit("runningControllerRef.rc==nil"))}, Reset: locks("runningControllerRef.mtx"), What: "the callback is not called with the current state"})
		set := p.Method(csCtrlPkg, "runningControllerRef", "setRunningController")
		o.ForEach(ForEachRule{Root: set, Coll: []string{"runningControllerRef.cbs"}, Must: dynCall("runningControllerRef.cbs[]"), What: "a callback is not told of the new controller"})
		o.Path(PathRule{Root: set, From: storeTo("runningControllerRef.rc"), Via: anyOf(done("runningControllerRef.cbs"), empty("runningControllerRef.cbs")), What: "the callbacks are not told of the new controller"})
		run := p.Method(csCtrlPkg, "runningController", "Execute")
		wait := func(c *Ctx, ev *Event) bool {
			_, ok := ev.Instr.(*ssa.Select)
			return ok && ev.Kind == KInstr && c.S.F.up == nil
		}
		value := calls("TypedAttachedValue.GetValue")
		for f, get := range map[string]string{"ctrl": "GetController", "err": "GetError"} {
			o.Path(PathRule{Root: run, From: value, Via: storeTo("runningControllerState."+f, "ExecControllerValue."+get+"(TypedAttachedValue.GetValue(*))"), Until: anyOf(wait, unlocks("runningController.mtx"), isExit), What: "a change of the executed controller is not reported"})
		}
		o.Path(PathRule{Root: run, From: value, Via: calls("runningController.pushState"), Until: anyOf(wait, unlocks("runningController.mtx"), isExit), What: "a change of the executed controller is not reported"})
		o.Path(PathRule{Root: run, From: lit("<-*==nil"), Via: storeTo("runningControllerState.ctrl", "nil"), Until: anyOf(wait, isExit), What: "the removal of the executed controller is not reported"})
		o.Path(PathRule{Root: run, From: lit("<-*==nil"), Via: storeTo("runningControllerState.err", "nil"), Until: anyOf(wait, isExit), What: "an error is reported after what failed was removed"})
		o.Guard(GuardRule{Root: run, Effect: calls("Bus.AddDirective"), Needs: []Pred{storeTo("runningControllerState.err", "nil")}, Reset: calls("Bus.AddDirective"), What: "an error of the previous execution is still reported"})
		o.Path(PathRule{Root: run, From: lit("<-*==nil"), Via: calls("runningController.pushState"), Until: anyOf(wait, isExit), What: "the removal of the executed controller is not reported"})
	})
}

// storeWithin: a structure held in a field is written, or one of its fields.
func storeWithin(field string) Pred {
	return func(c *Ctx, ev *Event) bool {
		st, ok := ev.Instr.(*ssa.Store)
		if !ok || ev.Kind != KInstr {
			return false
		}
		a := c.Resolve(Val{c.S.F, st.Addr})
		for {
			fa, ok := a.V.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			if c.Str(a) == field {
				return !c.unshared(Val{a.F, fa.X})
			}
			a = c.Resolve(Val{a.F, fa.X})
		}
	}
}

// equalState: the new state equals the one that was emitted last.
func equalState(c *Ctx, ev *Event) bool {
	return lit("runningControllerState.Equals(*)", "runningControllerState.ctrl==runningControllerState.ctrl")(c, ev)
}

func isContext(t interface{ String() string }) bool { return t.String() == "context.Context" }

func init() {
	register("G01", "Loop and guard analysis of merging, comparing and applying entries", checkG01)
	register("G03", "Loop, path and guard analysis of the requests' references, value ids and state callbacks", checkG03)
	register("G02", "Lockset analysis, path obligations and guards over the config-set controller's references and executions", checkG02)
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

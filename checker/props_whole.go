package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func acquireRef(p *Prog, cc *ssa.CallCommon) (int, int, string, bool) {
	ts := resultTypes(cc)
	for i, t := range ts {
		if isRefType(t) {
			return i, errIndex(ts), "reference of " + p.callName(cc), true
		}
	}
	return 0, 0, "", false
}

func acquireRel(p *Prog, cc *ssa.CallCommon) (int, int, string, bool) {
	ts := resultTypes(cc)
	if strings.HasPrefix(p.callName(cc), "context.") {
		return 0, 0, "", false
	}
	switch calleeName(cc) {
	case "AddValueRemovedCallback", "AddResolverRemovedCallback", "AddResolver",
		"addValueRemovedCallbackLocked", "addResolverRemovedCallbackLocked", "attachStartSubResolverLocked":
		// what these register ends by itself with the value or the resolver it was registered for
		return 0, 0, "", false
	}
	for _, t := range ts {
		if isRefType(t) {
			return 0, 0, "", false
		}
	}
	for i, t := range ts {
		if isRelFunc(t) {
			return i, errIndex(ts), "release function of " + p.callName(cc), true
		}
	}
	return 0, 0, "", false
}

func acquireCtx(p *Prog, cc *ssa.CallCommon) (int, int, string, bool) {
	switch p.callName(cc) {
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "context.WithTimeoutCause", "context.WithDeadlineCause":
		return 1, -1, "cancel function of a context", true
	}
	return 0, 0, "", false
}

// ownBus: a controller added to a bus that the function itself constructed lives as long as that bus.
func ownBus(p *Prog, cc *ssa.CallCommon) bool {
	if calleeName(cc) != "AddController" {
		return false
	}
	v := cc.Value
	if !cc.IsInvoke() {
		v = cc.Args[0]
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	return f != nil && f.Name() == "NewBus"
}

func checkW01(ck *Check) {
	ck.Assume("what ResolverHandler.AddValueRemovedCallback, AddResolverRemovedCallback and AddResolver register ends with the value or the resolver it belongs to (E08, E12); controllers added to a bus live as long as the bus their caller constructed for them")
	fns := ck.P.repoFuncs()
	ck.Do("references", "every reference taken is released, returned, stored or handed on along every path, never returned after its release or together with an error of the function's own, and not used before the error that came with it was looked at", func(o *Obl) {
		o.Resources(ResRule{Fns: fns, Acquire: acquireRef, Contract: true, UseChecked: true, What: "references", Min: 20})
	})
	ck.Do("release-functions", "every release function obtained (controllers, handlers, callbacks) is called, returned, stored or handed on along every path", func(o *Obl) {
		o.Resources(ResRule{Fns: fns, UseChecked: true, What: "release functions", Min: 10, Acquire: func(p *Prog, cc *ssa.CallCommon) (int, int, string, bool) {
			if f := cc.StaticCallee(); ownBus(p, cc) || f != nil && (fnPkg(f) == p.pkg(pcPkg) || fnPkg(f) == p.pkg(cliPkg)) {
				return 0, 0, "", false // (the functions of the plugin compiler which undo something: P03)
			}
			return acquireRel(p, cc)
		}})
	})
	ck.Do("stored", "what is stored for a later release is read again to release it", func(o *Obl) { o.StoredReleased(fns) })
}

func init() {
	register("W01", "Typestate analysis of every reference and release function from its acquisition to every return", checkW01)
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return origin(f).Name()
	}
	return ""
}

// errIgnored: the error of the call need not be looked at.
func errIgnored(p *Prog, cc *ssa.CallCommon) bool {
	n := p.callName(cc)
	switch n {
	case "Context.Err", "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "strconv.Unquote":
		return true
	// what happens to these is the subject of properties of their own (E04, R04, B01, L01)
	case "Resolver.Resolve", "Controller.Execute", "Factory.Construct":
		return true
	}
	switch calleeName(cc) {
	case "Close", "Write", "WriteString", "WriteByte", "WriteRune":
		return true
	}
	return false
}

func checkW02(ck *Check) {
	ignore := errIgnored
	fns := ck.P.repoFuncs()
	ck.Do("looked-at", "an error that is not nil is returned, passed on, stored or reported on every path before the function returns success, and no path leaves an error without having looked at it", func(o *Obl) {
		o.Errors(ErrRule{Fns: fns, Ignore: ignore, Min: 300})
	})
	ck.Do("ignored", "no call that returns an error is used as a statement or assigned to a variable that is not read", func(o *Obl) { o.ErrorsIgnored(fns, ignore) })
	ck.Do("contexts", "the cancel function of every derived context is called, stored or handed on along every path", func(o *Obl) {
		o.Resources(ResRule{Fns: fns, Acquire: acquireCtx, Lend: true, What: "contexts", Min: 8})
	})
	ck.Do("stored", "a stored cancel function is read again to cancel", func(o *Obl) { o.StoredReleased(fns) })
}

func init() {
	register("W02", "Dataflow of every error result and typestate of every cancel function from the call that produced it to every return", checkW02)
}

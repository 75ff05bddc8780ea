package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// findFunc finds a function for the -dump flag: "rel:Name" with Name a suffix of fnName.
func (p *Prog) findFuncs(spec string) []*ssa.Function {
	rel, name, _ := strings.Cut(spec, ":")
	var out []*ssa.Function
	for _, f := range p.FuncsIn(rel) {
		if strings.HasSuffix(fnName(f), name) {
			out = append(out, f)
		}
	}
	return out
}

// dumpFunc prints every event of a function as the rules see it.
func dumpFunc(p *Prog, fn *ssa.Function) {
	ck := &Check{P: p, Funcs: map[string]bool{}, Inside: os.Getenv("CHECKER_INSIDE")}
	lines := map[string]bool{}
	var order []string
	w := &Walker{P: p, Root: fn, Init: 0, Interesting: ck.interesting(fn)}
	w.Mon = func(c *Ctx, ev *Event, st any) any {
		s := c.evStr(ev)
		if s == "" {
			return st
		}
		s = fmt.Sprintf("%-34s %s", p.posStr(instrPos(ev.Instr)), s)
		if !lines[s] {
			lines[s] = true
			order = append(order, s)
		}
		return st
	}
	vs := ck.walk(w)
	fmt.Printf("== %s (%d states)\n", fnName(fn), w.NStates)
	sort.Strings(order)
	for _, l := range order {
		fmt.Println(l)
	}
	for _, v := range vs {
		fmt.Println("!!", v.Msg)
	}
}

func (c *Ctx) evStr(ev *Event) string {
	switch ev.Kind {
	case KEdge:
		s := "EDGE " + c.W.LitStr(c.S.env, ev.Lit)
		if l, m, ok := c.loopLit(ev); ok {
			s += fmt.Sprintf("   [loop %s more=%v cyc=%v]", l, m, inCycle(ev.Instr.Block()))
		}
		return s
	case KEnter:
		return "ENTER " + fnName(ev.Callee)
	case KExit:
		var r []string
		for _, v := range ev.Results {
			r = append(r, c.Str(v))
		}
		return "EXIT " + strings.Join(r, ", ")
	case KPanicExit:
		return "PANICEXIT"
	case KInstr:
		switch x := ev.Instr.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.FieldAddr); ok {
				op, _ := c.listOp(x)
				return "STORE " + c.StrV(x.Addr) + " := " + c.StrV(x.Val) + " (" + op + ")"
			}
			if a := c.cell(x.Addr); a != nil && isCaptured(a) {
				return "STORE " + c.W.P.cellName(a) + " := " + c.StrV(x.Val)
			}
		case *ssa.MapUpdate:
			return "MAPUPDATE " + c.StrV(x.Map) + "[" + c.StrV(x.Key) + "] = " + c.StrV(x.Value)
		case *ssa.Go:
			return "GO " + c.W.P.callName(&x.Call)
		case *ssa.Send:
			return "SEND " + c.StrV(x.Chan)
		case *ssa.Select:
			t := "SELECT"
			for _, st := range x.States {
				t += " " + c.StrV(st.Chan)
			}
			return t
		case *ssa.MakeClosure:
			var cs []string
			for _, cc := range c.closureCalls(Val{c.S.F, x}, true) {
				cs = append(cs, c.W.P.callName(cc.Call))
			}
			return "CLOSURE " + fnName(x.Fn.(*ssa.Function)) + " calls " + strings.Join(cs, ",")
		}
		if cc := execCall(ev); cc != nil {
			if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "append") {
				return ""
			}
			var a []string
			for _, v := range c.Args(cc) {
				a = append(a, c.Str(v))
			}
			n := c.W.P.callName(cc)
			if n == "" {
				n = "dyn:" + c.StrV(cc.Value)
			}
			d := ""
			if ev.Running {
				d = "(deferred) "
			}
			if ev.Inlined {
				d += "(inlined) "
			}
			return d + "CALL " + n + "(" + strings.Join(a, ", ") + ")"
		}
	}
	return ""
}

var _ = types.Typ

// Command checker decides the properties of /verif/properties.jsonl on the current source of the repository.
//
//	checker -repo /repo -verif /verif -property E01 [-tier quick|thorough]
//
// Exit status 0: every obligation of the property is discharged. Exit status 1: a line
// "VIOLATION property=<id> replay=<file>" names a report of the violated obligations.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var debugPanics = os.Getenv("CHECKER_DEBUG") != ""

// propCheck is a registered property check.
type propCheck struct {
	run   func(ck *Check)
	rule  string // the rule family applied, for the evidence
	floor int    // fewest obligations confirmed by hand on the pinned tree
}

var registry = map[string]propCheck{}

func register(id, rule string, run func(ck *Check)) { registry[id] = propCheck{run: run, rule: rule} }

type known struct {
	Prop, Key, Text string
}

// loadKnown reads the committed known-findings file: lines "KNOWN property=<id> key=<key> <text>" and
// "fixed: property=<id> <commit> <text>" (the latter suppress nothing).
func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 3 || !strings.HasPrefix(fs[1], "property=") || !strings.HasPrefix(fs[2], "key=") {
			continue
		}
		out = append(out, known{strings.TrimPrefix(fs[1], "property="), strings.TrimPrefix(fs[2], "key="), strings.Join(fs[3:], " ")})
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory for evidence and known findings")
	prop := flag.String("property", "", "property id (comma separated, or all)")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	dry := flag.Bool("dry", false, "do not write evidence")
	dump := flag.String("dump", "", "print the events of the functions rel:suffix, as the rules see them")
	only := flag.String("only", "", "run only this obligation")
	list := flag.Bool("list", false, "list the properties and their rules")
	names := flag.String("writenames", "", "write the names of the analysed tree to this file")
	flag.Parse()
	if *list {
		for _, id := range sortedIDs() {
			fmt.Printf("%s\t%s\n", id, registry[id].rule)
		}
		return
	}
	onlyObl = *only
	if *tier != "thorough" {
		*tier = "quick"
	}
	debug.SetGCPercent(400)
	var ids []string
	if *prop == "all" {
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	start := time.Now()
	p, lerr := loadSafe(*repo)
	loadT := time.Since(start)
	if *names != "" {
		if lerr == nil {
			lerr = writeNames(p.Pkgs, *names)
		}
		if lerr != nil {
			fmt.Println(lerr)
			os.Exit(2)
		}
		return
	}
	if *dump != "" {
		if lerr != nil {
			fmt.Println(lerr)
			os.Exit(2)
		}
		for _, f := range p.findFuncs(*dump) {
			dumpFunc(p, f)
		}
		return
	}
	bad := false
	for _, id := range ids {
		if !runProp(p, lerr, loadT, id, *repo, *verif, *tier, *verbose, *dry) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func loadSafe(repo string) (p *Prog, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("loading panicked: %v", r)
		}
	}()
	return loadProg(repo)
}

func runProp(p *Prog, lerr error, loadT time.Duration, id, repo, verif, tier string, verbose, dry bool) bool {
	start := time.Now()
	pc, ok := registry[id]
	ck := &Check{P: p, Prop: id, Tier: tier, Funcs: map[string]bool{}}
	if !ok {
		lerr = fmt.Errorf("no check registered for %s", id)
	}
	if lerr == nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if debugPanics {
						panic(r)
					}
					o := &Obl{ck: ck, ID: "internal", Text: "the analysis completes", Sites: map[string]bool{}}
					o.Fails = append(o.Fails, Fail{Key: "internal", Msg: fmt.Sprintf("the analysis failed: %v", r)})
					ck.Obls = append(ck.Obls, o)
				}
			}()
			pc.run(ck)
		}()
	} else {
		o := &Obl{ck: ck, ID: "load", Text: "the repository loads and type-checks", Sites: map[string]bool{}}
		o.Fails = append(o.Fails, Fail{Key: "load", Msg: lerr.Error()})
		ck.Obls = append(ck.Obls, o)
	}
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var viols []string
	var report strings.Builder
	nviol := 0
	sites := map[string]bool{}
	discharged := 0
	for _, o := range ck.Obls {
		for s := range o.Sites {
			sites[s] = true
		}
		okObl := true
		for _, f := range o.Fails {
			key := o.ID + "/" + f.Key
			isKnown := false
			for _, k := range kn {
				if k.Prop == id && k.Key == strings.ReplaceAll(key, " ", "_") {
					isKnown = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
				}
			}
			if isKnown {
				continue
			}
			okObl = false
			nviol++
			fmt.Fprintf(&report, "property %s, rule %s: %s\n  violated at %s: %s\n  key: %s\n", id, o.ID, o.Text, f.Pos, f.Msg, strings.ReplaceAll(key, " ", "_"))
			if len(f.Path) > 0 {
				fmt.Fprintf(&report, "  path:\n")
				for _, s := range f.Path {
					fmt.Fprintf(&report, "    %s\n", s)
				}
			}
			viols = append(viols, fmt.Sprintf("%s at %s: %s", o.ID, f.Pos, f.Msg))
		}
		if okObl {
			discharged++
		}
		if verbose {
			st := "ok"
			if !okObl {
				st = "VIOLATED"
			}
			fmt.Printf("  %-28s %-8s sites=%d %s\n", o.ID, st, len(o.Sites), o.Text)
		}
	}
	wall := time.Since(start) + loadT
	var oblList []string
	var samples []map[string]any
	for _, o := range ck.Obls {
		oblList = append(oblList, o.ID+": "+o.Text)
		if len(samples) < 6 {
			ss := sortedKeys(o.Sites)
			if len(ss) > 4 {
				ss = ss[:4]
			}
			samples = append(samples, map[string]any{"obligation": o.ID, "rule": o.Text, "constructs": ss})
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	npk, nfn := 0, 0
	if p != nil {
		npk, nfn = len(p.Pkgs), len(p.Funcs)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation": fmt.Sprintf("Static analysis of the type-checked SSA form of the current source (%d packages, %d functions loaded). %s. Every obligation below is decided for all paths of the inlined control-flow graphs of its entry points; loops are explored to a fixpoint of the abstract state.",
				npk, nfn, pc.rule),
			"obligations":        len(ck.Obls),
			"discharged":         discharged,
			"rules_applied":      oblList,
			"functions_analysed": sortedKeys(ck.Funcs),
			"constructs":         len(sites),
			"abstract_states":    ck.States,
			"samples":            samples,
		},
		"assumptions": ck.Assumed,
		"wall_s":      float64(int(wall.Seconds()*1000)) / 1000,
		"violations":  nviol,
	}
	if ck.Assumed == nil {
		ev["assumptions"] = []string{"external packages (standard library, aperturerobotics/util, starpc) behave as documented"}
	}
	if !dry {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d constructs, %d functions, %d abstract states, %.1fs\n", id, len(ck.Obls), discharged, len(sites), len(ck.Funcs), ck.States, wall.Seconds())
	if nviol > 0 {
		path := filepath.Join(verif, "evidence", "replay-"+id+".txt")
		if !dry {
			_ = os.WriteFile(path, []byte(report.String()), 0o644)
		}
		fmt.Print(report.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return false
	}
	return true
}

func sortedIDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

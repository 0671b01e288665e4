package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Prop is a registered property.
type Prop struct {
	id, name string
	run      func(*World, string) *Result
	floor    map[string]int // smallest plausible count of each unit; below it the analysis saw too little
	minOb    int
	assume   []string
}

var baseAssumptions = []string{
	"library calls (gonum, the standard library, golang.org/x/exp/rand) behave as the models in tool/models.go say: which operands they read, write and retain",
	"go/ssa's translation of the source is faithful; no unsafe, reflection or cgo changes memory behind it (the repository uses none on the analysed paths)",
	"interface values whose concrete type is not known are treated by their interface contract (tool/models.go, contract)",
}

func main() {
	prop := flag.String("prop", "", "property id or name")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository to analyse")
	dir := flag.String("dir", "/verif", "where evidence and the known findings live")
	dev := flag.String("dev", "", "print findings whose key contains this, with paths, and exit ('.' for all keys without paths)")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil && pprof.StartCPUProfile(f) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	var p *Prop
	for _, q := range registry {
		if q.id == *prop || q.name == *prop {
			p = q
		}
	}
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	t0 := time.Now()
	var w *World
	r := newResult()
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.broken(fmt.Sprintf("analysis failed: %v\n%s", x, debug.Stack()))
			}
		}()
		var err error
		w, err = loadWorld(*repo)
		if err != nil {
			r.broken("the repository does not load: " + err.Error())
			return
		}
		jobPanics = nil
		r = p.run(w, *tier)
		for _, m := range jobPanics {
			r.broken(m)
		}
		selfTest(p, r)
	}()
	if *dev != "" {
		for _, f := range sortedFindings(r.Findings) {
			fmt.Println("F", f.Key, "|", f.Rule, f.Pos, f.Msg)
			if *dev != "." && strings.Contains(f.Key, *dev) {
				for _, p := range f.Path {
					fmt.Println("    ", p)
				}
			}
		}
		fmt.Println(r.Obligations, r.Units, len(r.Funcs), r.Broken, time.Since(t0))
		return
	}
	os.Exit(report(p, w, r, *tier, *dir, t0))
}

type known struct{ prop, rule, key, what string }

// loadKnown reads the committed list of known findings. Lines starting with
// "fixed:" are a record only and suppress nothing.
func loadKnown(file string) ([]known, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		head, what := l, ""
		if i := strings.Index(l, " | "); i >= 0 {
			head, what = l[:i], l[i+3:]
		}
		k := known{what: what}
		for _, f := range strings.Fields(strings.TrimPrefix(head, "known:")) {
			kv := strings.SplitN(f, "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch kv[0] {
			case "property":
				k.prop = kv[1]
			case "rule":
				k.rule = kv[1]
			case "key":
				k.key = kv[1]
			}
		}
		out = append(out, k)
	}
	return out, sc.Err()
}

func report(p *Prop, w *World, r *Result, tier, dir string, t0 time.Time) int {
	kn, err := loadKnown(filepath.Join(dir, "KNOWN_FINDINGS.txt"))
	if err != nil && !os.IsNotExist(err) {
		r.broken("known findings: " + err.Error())
	}
	if len(r.Broken) == 0 {
		if r.Obligations < p.minOb {
			r.broken(fmt.Sprintf("only %d rule instances found, at least %d expected", r.Obligations, p.minOb))
		}
		for u, n := range p.floor {
			if r.Units[u] < n {
				r.broken(fmt.Sprintf("only %d %s analysed, at least %d expected", r.Units[u], u, n))
			}
		}
	}
	var open []*Finding
	var listed []string
	for _, f := range sortedFindings(r.Findings) {
		hit := false
		for _, k := range kn {
			if k.prop == p.id && k.rule == f.Rule && k.key == f.Key {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", p.id, f.Key, f.Msg, f.Pos)
				listed = append(listed, f.Rule+" "+f.Key+" at "+f.Pos)
				break
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	ev := filepath.Join(dir, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, p.id+".violation.txt")
	os.Remove(replay)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var viol []map[string]any
	var rep strings.Builder
	for _, f := range open {
		viol = append(viol, map[string]any{"rule": f.Rule, "construct": f.Key, "where": f.Pos, "message": f.Msg, "path": f.Path})
		fmt.Fprintf(&rep, "%s: [%s] %s\n", f.Pos, f.Rule, f.Msg)
		for _, s := range f.Path {
			fmt.Fprintf(&rep, "    %s\n", s)
		}
	}
	for _, b := range r.Broken {
		viol = append(viol, map[string]any{"rule": "analysis-complete", "construct": p.name, "where": "", "message": b})
		fmt.Fprintf(&rep, "analysis incomplete: %s\n", b)
	}
	if viol == nil {
		viol = []map[string]any{}
	}
	fns := make([]string, 0, len(r.Funcs))
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":        "Whole-program abstract interpretation of the repository's SSA (context-sensitive, flow-sensitive heap; every branch, loop and call chain of each scenario to a fixpoint). Each obligation is one (rule, construct) instance decided on every path; nothing is executed.",
		"rules":              r.Rules,
		"obligations":        r.Obligations,
		"discharged":         r.Obligations - len(open) - len(listed),
		"units":              r.Units,
		"functions_analysed": len(fns),
		"functions":          sample(fns, 40),
		"known_findings":     listed,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	if w != nil {
		cov["packages"] = len(w.spkgs)
	}
	b, _ := json.MarshalIndent(map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append(append([]string{}, baseAssumptions...), p.assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(viol), "violation_list": viol,
	}, "", " ")
	if err := os.WriteFile(filepath.Join(ev, p.id+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s %s: %d obligations over %d functions, %d open, %d known, %.1fs\n", p.id, p.name, r.Obligations, len(fns), len(open), len(listed), time.Since(t0).Seconds())
	if len(viol) > 0 {
		os.WriteFile(replay, []byte(rep.String()), 0o644)
		fmt.Print(rep.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, replay)
		return 1
	}
	return 0
}

func sample(s []string, n int) []string {
	if len(s) <= n {
		return s
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, s[i*len(s)/n])
	}
	return out
}

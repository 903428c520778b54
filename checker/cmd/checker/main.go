// Command checker decides the properties of chronos-tachyon/morehttp from its
// source, by abstract interpretation.  It never runs the code under analysis.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/ai"
	"verif/checker/check"
)

func main() {
	debug.SetGCPercent(400)
	dir := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where known-findings and evidence are")
	prop := flag.String("property", "", "property to decide")
	run := flag.String("run", "", "run one analysis and print everything (for development)")
	sum := flag.String("summary", "", "decide these properties and print only the outcome (for development)")
	analysis := flag.String("analysis", "", "with -part: run a part of this analysis and print its report")
	part := flag.String("part", "", "see -analysis")
	stack := flag.Bool("stack", false, "print stacks of internal errors")
	flag.BoolVar(&ai.Debug, "debug", false, "print the progress of fixpoints")
	prof := flag.String("cpuprofile", "", "write a profile (for development)")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if *analysis != "" {
		p, err := check.Load(*dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if err := json.NewEncoder(os.Stdout).Encode(p.RunPart(*analysis, *part)); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if *run != "" {
		develop(*dir, *run, *stack)
		return
	}
	if *sum != "" {
		os.Exit(summary(*dir, strings.Split(*sum, ",")))
	}
	if *prop == "" {
		fmt.Println("usage: checker -property ID")
		os.Exit(2)
	}
	os.Exit(decide(*dir, *verif, *prop))
}

func develop(dir, run string, stack bool) {
	t0 := time.Now()
	p, err := check.Load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0))
	var as []*check.Analysis
	for _, a := range check.Analyses {
		if run == "all" || strings.Contains(a.Name, run) {
			a.Parts = nil
			as = append(as, a)
		}
	}
	check.Analyses = as
	r, res := p.Decide("")
	for _, x := range res {
		for _, f := range x.Unknowns {
			fmt.Println("unknown:", f)
		}
		if x.Err != "" && stack {
			fmt.Println(x.Err, x.Stack)
		}
	}
	var ps []string
	for k := range r.Rules {
		ps = append(ps, k)
	}
	sort.Strings(ps)
	for _, k := range ps {
		x := r.Rules[k]
		if x.Name != "rule has instances" || x.Failed > 0 {
			fmt.Printf("%s %-50s %d/%d\n", x.Prop, x.Name, x.Failed, x.Checked)
		}
	}
	var fs []*check.Finding
	for _, f := range r.Findings {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Key() < fs[j].Key() })
	for _, f := range fs {
		fmt.Println(f)
	}
	fmt.Println(time.Since(t0))
}

func summary(dir string, props []string) int {
	p, err := check.Load(dir)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	r, _ := p.Decide("")
	code := 0
	for _, x := range props {
		fs := r.Props(x)
		if len(fs) == 0 {
			continue
		}
		code = 1
		fmt.Printf("VIOLATION property=%s %d findings, first: %s\n", x, len(fs), fs[0].Key())
	}
	return code
}

// known reads the known findings of a property: lines
// "finding: property=ID <key>".
func known(verif, prop string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	pre := "finding: property=" + prop + " "
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, pre) {
			out[strings.TrimSpace(strings.TrimPrefix(l, pre))] = true
		}
	}
	return out
}

func decide(dir, verif, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "other"}
	cov := map[string]interface{}{}
	ev["coverage"] = cov
	var lines []string
	var fresh []*check.Finding
	nKnown := 0

	p, err := check.Load(dir)
	if err != nil {
		fresh = append(fresh, &check.Finding{Prop: prop, Rule: "decided", Where: dir, Msg: err.Error()})
		cov["explanation"] = "the program could not be loaded"
	} else {
		r, res := p.Decide(prop)
		if len(res) == 0 {
			fmt.Println("unknown property", prop)
			return 2
		}
		kn := known(verif, prop)
		for _, f := range r.Props(prop) {
			if kn[f.Key()] {
				nKnown++
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.Key()))
				continue
			}
			fresh = append(fresh, f)
		}
		explain(cov, r, res, prop, p)
	}
	ev["violations"] = len(fresh)
	ev["assumptions"] = check.Assumptions(prop)
	ev["wall_s"] = time.Since(t0).Seconds()
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o777)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o666); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s\n", prop)
		return 0
	}
	replay := filepath.Join(verif, "evidence", prop+".violation.txt")
	var sb strings.Builder
	for _, f := range fresh {
		sb.WriteString(f.String() + "\n\n")
	}
	os.WriteFile(replay, []byte(sb.String()), 0o666)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}

func explain(cov map[string]interface{}, r *check.Report, res []*check.Result, prop string, p *check.Program) {
	var how []string
	fns, instrs, calls, loops := map[string]bool{}, 0, 0, 0
	unk := map[string]bool{}
	for _, x := range res {
		if h := x.A.Name + ": " + x.A.Note; len(how) == 0 || how[len(how)-1] != h {
			how = append(how, h)
		}
		for _, f := range x.Funcs {
			fns[f] = true
		}
		for _, u := range x.Unknowns {
			unk[u] = true
		}
		instrs += x.Instrs
		calls += x.Calls
		loops += x.Loops
	}
	total, failed := 0, 0
	rules := map[string]interface{}{}
	for _, x := range r.RulesOf(prop) {
		total += x.Checked
		failed += x.Failed
		rules[x.Name] = map[string]interface{}{"obligations": x.Checked, "failed": x.Failed, "sites": keys(x.Sites)}
	}
	cov["explanation"] = "Abstract interpretation of the SSA form of the current source; nothing is executed. " + strings.Join(how, " | ")
	cov["obligations"] = total
	cov["discharged"] = total - failed
	cov["rules"] = rules
	cov["functions_analysed"] = keysB(fns)
	cov["instructions_interpreted"] = instrs
	cov["calls_interpreted"] = calls
	cov["loop_iterations_to_fixpoint"] = loops
	cov["calls_treated_as_unknown"] = keysB(unk)
}

func keys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func keysB(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

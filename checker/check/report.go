// Package check decides the properties: it sets up abstract clients of the
// code under analysis, runs the abstract interpreter on them and checks
// obligations on every abstract state.
package check

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/checker/ai"
)

// Finding is an obligation that could not be discharged.
type Finding struct {
	Prop  string
	Rule  string // stable name of the rule
	Where string // the construct: entry point and function
	Msg   string
	Trace []string
}

// Key identifies the finding independently of line numbers.
func (f *Finding) Key() string { return f.Prop + " " + f.Rule + " @ " + f.Where }

// Rule counts the checks of one rule.
type Rule struct {
	Prop, Name string
	Checked    int
	Failed     int
	Sites      map[string]int
}

// Report collects the results of the checks.
type Report struct {
	Rules    map[string]*Rule
	Findings map[string]*Finding
	Notes    []string
}

// NewReport makes an empty report.
func NewReport() *Report {
	return &Report{Rules: map[string]*Rule{}, Findings: map[string]*Finding{}}
}

// Rule returns the counter of a rule.
func (r *Report) Rule(prop, name string) *Rule {
	k := prop + "/" + name
	x := r.Rules[k]
	if x == nil {
		x = &Rule{Prop: prop, Name: name, Sites: map[string]int{}}
		r.Rules[k] = x
	}
	return x
}

// merge adds the results of another report.
func (r *Report) merge(o *Report) {
	for _, x := range o.Rules {
		y := r.Rule(x.Prop, x.Name)
		y.Checked += x.Checked
		y.Failed += x.Failed
		for s, n := range x.Sites {
			y.Sites[s] += n
		}
	}
	for k, f := range o.Findings {
		if old := r.Findings[k]; old == nil || len(f.Trace) < len(old.Trace) {
			r.Findings[k] = f
		}
	}
}

// Ob records an obligation.
func (r *Report) Ob(in *ai.Interp, prop, rule, where string, ok bool, st *ai.State, f string, a ...interface{}) bool {
	ru := r.Rule(prop, rule)
	ru.Checked++
	ru.Sites[where]++
	if ok {
		return true
	}
	ru.Failed++
	if ai.Debug {
		fmt.Println("FAILED", prop, rule, where)
	}
	if d := os.Getenv("CHECKER_DUMP"); d != "" && d == rule && st != nil {
		fmt.Println("DUMP", rule, where)
		fmt.Println(st.Dump())
	}
	fd := &Finding{Prop: prop, Rule: rule, Where: where, Msg: fmt.Sprintf(f, a...)}
	old := r.Findings[fd.Key()]
	if st != nil {
		fd.Trace = TraceLines(in, st)
	}
	if old == nil || len(fd.Trace) < len(old.Trace) {
		r.Findings[fd.Key()] = fd
	}
	return false
}

// TraceLines renders the path to st.
func TraceLines(in *ai.Interp, st *ai.State) []string {
	var out []string
	for t := st.Trace; t != nil && len(out) < 80; t = t.Prev {
		out = append(out, in.Pos(t.Pos)+": "+t.Msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Props lists the findings of a property, sorted.
func (r *Report) Props(prop string) []*Finding {
	var out []*Finding
	for _, f := range r.Findings {
		if f.Prop == prop {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return out
}

// RulesOf lists the rules of a property.
func (r *Report) RulesOf(prop string) []*Rule {
	var out []*Rule
	for _, x := range r.Rules {
		if x.Prop == prop {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// String renders a finding.
func (f *Finding) String() string {
	return fmt.Sprintf("%s [%s] at %s: %s\n    %s", f.Prop, f.Rule, f.Where, f.Msg, strings.Join(f.Trace, "\n    "))
}

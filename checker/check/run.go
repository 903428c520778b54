package check

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/checker/ai"
	"verif/checker/num"
)

// Analysis is one abstract client; it decides several properties at once.
type Analysis struct {
	Name  string
	Props []string
	Run   func(p *Program, r *Report) *ai.Interp
	// Rules lists, per property, the rules that must have been checked at least
	// once: a rule without instances would pass vacuously.
	Rules map[string][]string
	Note  string
	// Parts can be analysed independently, each in a process of its own.
	Parts []string
	Part  func(p *Program, r *Report, part string) *ai.Interp
}

// Result of running an analysis.
type Result struct {
	A        *Analysis `json:"-"`
	Err      string
	Stack    string
	Problems []string
	Funcs    []string
	Unknowns []string
	Instrs   int
	Calls    int
	Loops    int
}

// take notes what the interpreter did.
func (x *Result) take(in *ai.Interp) {
	for s := range in.Problems {
		x.Problems = append(x.Problems, s)
	}
	sort.Strings(x.Problems)
	for s := range in.Unknowns {
		x.Unknowns = append(x.Unknowns, s)
	}
	x.Funcs = append(x.Funcs, in.FuncNames()...)
	x.Instrs += in.Stats.Instrs
	x.Calls += in.Stats.Calls
	x.Loops += in.Stats.Loops
}

// PartResult is what the process that analysed a part reports.
type PartResult struct {
	Report *Report
	Result *Result
}

// RunPart analyses one part of an analysis.
func (p *Program) RunPart(name, part string) *PartResult {
	for _, a := range Analyses {
		if a.Name == name {
			r := NewReport()
			return &PartResult{r, a.guarded(r, func() *ai.Interp { return a.Part(p, r, part) })}
		}
	}
	return nil
}

// guarded runs an analysis, turning every failure of it into a finding of all
// its properties.
func (a *Analysis) guarded(r *Report, run func() *ai.Interp) (res *Result) {
	res = &Result{A: a}
	defer func() {
		x := recover()
		switch x := x.(type) {
		case nil:
		case ai.TooHard:
			res.Err = "the code is beyond what the analysis can decide: " + x.Why
		case Anchor:
			res.Err = "the analysis cannot find " + x.What
		case num.Overflow:
			res.Err = "numbers too large for the analysis"
		default:
			res.Err = fmt.Sprint("internal error: ", x)
		}
		if x != nil {
			res.Stack = string(debug.Stack())
		}
	}()
	res.take(run())
	return res
}

// run runs an analysis and checks that it was able to decide its properties.
func (a *Analysis) run(p *Program, r *Report) []*Result {
	var all []*Result
	if a.Parts == nil {
		all = append(all, a.guarded(r, func() *ai.Interp { return a.Run(p, r) }))
	} else {
		all = a.parts(p, r)
	}
	var bad []string
	for _, x := range all {
		if x.Err != "" {
			bad = append(bad, x.Err)
		}
		if len(x.Problems) > 0 {
			bad = append(bad, "constructs that the analysis does not interpret: "+strings.Join(x.Problems, "; "))
		}
	}
	for _, pr := range a.Props {
		r.Ob(nil, pr, "decided", a.Name, len(bad) == 0, nil, "%s", strings.Join(bad, "; "))
		for _, ru := range a.Rules[pr] {
			r.Ob(nil, pr, "rule has instances", a.Name+": "+ru, r.Rule(pr, ru).Checked > 0, nil, "rule %q matched nothing", ru)
		}
	}
	return all
}

// parts runs the parts in processes of their own, as many at a time as there
// are processors.
func (a *Analysis) parts(p *Program, r *Report) []*Result {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	out := make([]*PartResult, len(a.Parts))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	var alone sync.Mutex
	for i, part := range a.Parts {
		wg.Add(1)
		go func(i int, part string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			var e strings.Builder
			var x *PartResult
			var err error
			for try := 0; try < 3; try++ {
				e.Reset()
				x = &PartResult{}
				cmd := exec.Command(exe, "-repo", p.Dir, "-analysis", a.Name, "-part", part)
				cmd.Stderr = &e
				var b []byte
				b, err = cmd.Output()
				if err == nil {
					err = json.Unmarshal(b, x)
				}
				if x, is := err.(*exec.ExitError); !is || x.Exited() {
					break
				}
				// killed, perhaps for lack of memory
				time.Sleep(time.Second)
				if try == 0 {
					alone.Lock()
					defer alone.Unlock()
				}
			}
			if err != nil {
				x = &PartResult{NewReport(), &Result{Err: "internal error in " + part + ": " + err.Error(), Stack: e.String()}}
			}
			out[i] = x
		}(i, part)
	}
	wg.Wait()
	var all []*Result
	for _, x := range out {
		x.Result.A = a
		all = append(all, x.Result)
		r.merge(x.Report)
	}
	return all
}

// Analyses lists all analyses.
var Analyses = []*Analysis{
	{
		Name: "response writer", Props: []string{"R01", "R02", "R03", "R04"},
		Run:  func(p *Program, r *Report) *ai.Interp { return p.Writer(r) },
		Note: "an arbitrary underlying writer is wrapped by NewWriter; then any sequence of the exported methods of the wrapper, with any arguments: the abstract states are closed under all operations and every operation is checked from every state",
		Rules: map[string][]string{
			"R01": {"status sent at most once", "status precedes body and flush", "an implicit 200 is sent", "second header call panics", "no status after the first", "the first header call sends its status", "wrapping sends nothing"},
			"R02": {"Status is the status sent", "BytesWritten counts the bytes accepted", "SawError tells failed writes and second headers", "the writer's result is returned"},
			"R03": {"no body bytes on bodiless responses", "data is passed through unchanged", "a bodiless Write claims success", "a bodiless ReadFrom drains its source", "all data is passed through"},
			"R04": {"an already wrapped writer is returned unchanged", "capabilities are those of the given writer", "no panic for lack of support", "the wrapper wraps the given writer", "the header map is the writer's", "push is forwarded unchanged", "push without support is refused", "Flush is forwarded", "Hijack is forwarded", "CloseNotify is forwarded"},
		},
	},
	{
		Name: "serve", Props: []string{"R08", "R09"},
		Run:  func(p *Program, r *Report) *ai.Interp { return p.Serve(r) },
		Note: "Response.Serve with an arbitrary response (identified through its accessors), an arbitrary body and an arbitrary writer, both opaque: every result allowed by their contracts and a panic of any of their methods; an arbitrary header name stands for all headers",
		Rules: map[string][]string{
			"R08": {"the body is closed on every way out", "the body is closed once", "nil means success", "the first error is returned", "no use after close"},
			"R09": {"every header is sent before the status", "the Push header is not sent", "the status is sent once", "the status is the response's", "every Push value is pushed before the status", "the Push values are pushed in order", "pushes before the status", "status and whole body are sent", "the body is sent unchanged", "body after status"},
		},
	},
	{
		Name: "bodies", Props: strings.Fields("B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11 B12 B13 B14 B15 B17"),
		Run:   func(p *Program, r *Report) *ai.Interp { return p.Body(r, "") },
		Part:  func(p *Program, r *Report, part string) *ai.Interp { return p.Body(r, part) },
		Parts: bodyParts(),
		Note:  "bodies made by FromBytes, FromString, Empty, AlreadyClosed, FromReader and FromReaderAndLength from arbitrary data or an arbitrary reader with any set of capabilities: the abstract states of one body and of what it shares with its copies are closed under all operations on it and on its copies, and every operation, with any arguments, is checked from every state; the reader and the destination may return anything the io contracts allow, fail or panic at any call",
		Rules: map[string][]string{
			"B01": {"conflicting accesses hold a common lock", "operations are atomic"},
			"B02": {"no lock is held at the end", "no lock is taken twice", "locks are taken in one order", "only locks that are held are unlocked"},
			"B03": {"a closed body changes nothing", "a closed body does not touch the source", "a closed body returns fs.ErrClosed", "results of a closed body"},
			"B04": {"closing another copy returns nil", "only Close closes the source", "the error of closing the source is returned", "the last open body closes the source", "the source is closed by the last open body", "the source is closed once", "the source is not used after it was closed"},
			"B05": {"a copy is a body", "a copy is another body", "a copy is of the same kind", "copying succeeds", "every copy has the same source", "the state afterwards is right"},
			"B06": {"a copy keeps the advanced interfaces", "the promised interfaces"},
			"B07": {"0 <= n <= len(p)", "nothing beyond the end", "the bytes are the content at the position"},
			"B08": {"exact", "never negative", "unknown only if the length is unknown"},
			"B09": {"a failure never looks like the end", "an error stays", "errors are those of the source", "failures of the source are returned", "io.EOF only at the end"},
			"B10": {"never beyond the end", "refused with NegativeComputedOffsetSeekError", "refused with NegativeStartOffsetSeekError", "refused with UnknownWhenceSeekError", "the requested position is set", "the state afterwards is right"},
			"B11": {"0 <= n <= len(p)", "io.EOF only at the end", "negative offsets are refused", "never silently short", "nothing beyond the end", "the bytes are the content at the offset"},
			"B12": {"everything that remains is written", "no error of its own", "the bytes written are the remaining content", "the count is what the destination accepted", "the destination is not used after it failed", "the destination's error is returned"},
			"B13": {"no panic"},
			"B14": {"reads stay within the length", "the source is read at the position that is served"},
			"B15": {"every byte after the position is delivered", "the state afterwards is right"},
			"B17": {"a body is returned unchanged", "a body or an error", "a measured reader is rewound", "construction neither reads nor closes the reader", "failures of measuring are reported", "the error wraps the reader's error", "what can be measured is measured"},
		},
	},
	{
		Name: "payload", Props: []string{"B16", "B06"},
		Run:  func(p *Program, r *Report) *ai.Interp { return p.Payload(r) },
		Note: "FromString, FromJSON, FromPrettyJSON, FromProto and FromProtoText with an arbitrary argument; the encoders return any encoding, fail or panic; pooled buffers carry an ownership typestate (taken, given back) and their memory is told apart from other memory",
		Rules: map[string][]string{
			"B16": {"pooled buffers are given back", "a panic of the encoder is passed on", "an encoding error is reported by a panic with that error", "the body owns its memory", "the body holds the complete encoding", "the body holds the encoding and nothing else", "the given value is encoded", "the value is encoded once", "the documented form of encoding", "the given options are used"},
			"B06": {"the promised interfaces"},
		},
	},
	{
		Name: "builder", Props: []string{"R05", "R06", "R07", "R10", "R11"},
		Run:  func(p *Program, r *Report) *ai.Interp { return p.Builder(r) },
		Note: "response.Builder with an arbitrary history: the abstract states of a builder, observed through its accessors only, are closed under all exported methods with arbitrary arguments, and every method is checked from every state; an arbitrary header name stands for all headers a method does not name; bodies, page generators and errors are opaque; then Response.Copy, and the initial default page generator with an arbitrary code and an arbitrary location or error, its strings being compared symbolically",
		Rules: map[string][]string{
			"R05": {"the status is unset or from 200 to 999", "a response has a status from 200 to 999", "the status is the one set last, or 200", "the status set last counts", "a refused status changes nothing", "what must be refused is refused"},
			"R06": {"building panics exactly without a body", "a refused Build changes nothing", "the builder is empty afterwards", "Build returns a response", "the response has what the builder had", "the header map is not shared", "headers that were present stay", "a missing Content-Type is filled in", "a missing Content-Length is filled in if it is known"},
			"R07": {"copying changes nothing", "a failure to copy the body is returned", "a copy or an error", "a copy is another builder", "a copy equals the original", "the body is copied once", "the header map is not shared", "lists of values are not shared", "lists of values do not share spare room", "the entries are those of the given map"},
			"R10": {"the page generator is asked once for the page", "exactly what is named is set", "the named header is set", "a refused call changes nothing", "Content-Length is the length of the body", "an error page depends on the code only", "the Location header is the given location", "the page contains the location only escaped", "the location is text or a quoted attribute value", "a page has headers of its own", "a page has bytes of its own", "a page names its media type", "an error page is not to be reused"},
			"R11": {"accessors change nothing", "exactly what is named is set", "the named header is set", "other headers stay", "a refused call changes nothing", "the builder itself is returned", "only what is documented is refused", "what must be refused is refused"},
		},
	},
	{
		Name: "mock", Props: []string{"M01"},
		Run:  func(p *Program, r *Report) *ai.Interp { return p.Mock(r) },
		Note: "mockreader.New with a script of any length, one element of which, anywhere in it, was made by an Expect function with arbitrary arguments; then any sequence of calls with any arguments; all wrapper types against an opaque reader",
		Rules: map[string][]string{
			"M01": {"expectations are compared by kind and arguments", "a script cannot return more bytes than it has", "an expectation can be made of any arguments", "a reader can be made", "a call is one critical section", "an exhausted script fails every call", "a matching call succeeds", "a failing call names its position", "a call that does not match panics", "the scripted results are returned", "the scripted bytes are delivered", "the position is accessed under the lock", "a nil reader can be marked", "a wrapper has the calls its name says", "a wrapper forwards its calls unchanged"},
		},
	},
	{
		Name: "adaptor", Props: []string{"H01", "H02"},
		Run:  func(p *Program, r *Report) *ai.Interp { return p.Adaptor(r) },
		Note: "Adaptor.ServeHTTP with an arbitrary handler, which returns an arbitrary response or panics with any value, and an arbitrary writer; any method of response body and writer may fail or panic",
		Rules: map[string][]string{
			"H01": {"no panic leaves the adaptor", "a status is always sent", "500 is sent when nothing else was", "the response's status is sent", "the hook is called exactly if something failed", "the hook gets the panic value or the error", "the hook is called after the reply", "the hook is called after the metrics", "the handler is called once with the request"},
			"H02": {"every metric is changed once", "the code label is the status that was sent", "the bytes counted are those the writer accepted", "a request counts as one", "panics are counted once"},
		},
	},
}

// Decide runs the analyses for a property (all for "").
func (p *Program) Decide(prop string) (*Report, []*Result) {
	r := NewReport()
	var res []*Result
	for _, a := range Analyses {
		for _, q := range a.Props {
			if q == prop || prop == "" {
				res = append(res, a.run(p, r)...)
				break
			}
		}
	}
	return r, res
}

package check

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/num"
)

type (
	// State, Val and so on are short names.
	State   = ai.State
	Val     = ai.Val
	Outcome = ai.Outcome
)

func ok(st *State, v Val) Outcome { return Outcome{St: st, Val: v} }

func panicking(st *State, v Val) Outcome { return Outcome{St: st, Panic: true, Val: v} }

func k(i int64) num.Lin { return num.Const(i) }

func vint(l num.Lin) Val { return ai.VInt{L: l} }

func vbool(b bool) Val { return ai.VBool{F: ai.B(b)} }

func ref(t *ai.Term) Val { return ai.VRef{T: t} }

// lin returns the integer v.
func lin(v Val) num.Lin {
	if i, is := v.(ai.VInt); is {
		return i.L
	}
	panic(ai.TooHard{Why: "integer expected"})
}

// tup returns component i of a result.
func tup(v Val, i int) Val {
	if s, is := v.(ai.VStruct); is && i < len(s.F) {
		return s.F[i]
	}
	return v
}

// G reads an integer ghost.
func G(st *State, name string) num.Lin { return lin(st.Ghost[name]) }

// bytesArg makes an arbitrary byte slice.
func bytesArg(st *State, name string) ai.VSlice {
	return st.FreshVal(name, types.NewSlice(types.Typ[types.Byte])).(ai.VSlice)
}

// errVal gives the two cases of an error result: nil, or any error.
type errCase struct {
	st  *State
	err Val
	nil bool
}

func errCases(st *State, name string) []errCase {
	b := st.Clone()
	return []errCase{{st, ai.VNil{}, true}, {b, b.NonNilErr(name), false}}
}

func sentinel(name string) Val {
	t := ai.MkTerm("sentinel", name, nil)
	return ai.VRef{T: t}
}

var eofVal = sentinel("io.EOF")

// fnName renders a function without the module path.
func fnName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), Mod+"/", "")
}

func short(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// forkNil splits st on whether v is nil.
func forkNil(st *State, v Val) (isNil, notNil []*State) {
	f := st.EqForm(v, ai.VNil{})
	b := st.Clone()
	return st.Assume(f, true), b.Assume(f, false)
}

// noPos is the unknown position.
const noPos = token.NoPos

// methodOf finds the method of the dynamic type of v.
func (p *Program) methodOf(v Val, name string) (*ssa.Function, []Val) {
	i, is := v.(ai.VIface)
	if !is {
		return nil, nil
	}
	m := p.Methods(i.T)[name]
	return m, []Val{i.V}
}

// genericArg makes an arbitrary value of a parameter type.
func genericArg(st *State, name string, t types.Type) Val {
	return st.FreshVal(name, t)
}

// isStdErr tells whether v is the named error variable of the standard library.
func isStdErr(st *State, v Val, name string) bool {
	if i, is := v.(ai.VIface); is {
		v = i.V
	}
	r, is := v.(ai.VRef)
	if !is {
		return false
	}
	t := st.Find(r.T)
	return t == ai.MkTerm("sentinel", name, nil) || t == ai.Named(name, nil)
}

// constOf renders a ghost if it is a constant.
func constOf(st *State, g string) string {
	switch v := st.Canon(st.Ghost[g]).(type) {
	case ai.VInt:
		if l := st.Num.Norm(v.L); l.IsConst() {
			return g + "=" + l.String() + ";"
		}
	case ai.VBool:
		return g + "=" + v.F.Op + ";"
	}
	return g + "=?;"
}

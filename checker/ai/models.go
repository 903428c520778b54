package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"html"
	"net/http"
	"net/textproto"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/num"
)

// model gives the meaning of functions outside the code under analysis.
func (in *Interp) model(st *State, fn *ssa.Function, args, bind []Val, pos token.Pos) ([]Outcome, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if fn.Name() == "init" && fn.Synthetic != "" && in.inInit && len(in.stack) > 0 {
		return ret(st, VStruct{}), true
	}
	if strings.HasPrefix(pkgOf(fn), in.Repo) {
		return nil, false
	}
	if m, ok := models[name]; ok {
		return m(in, st, fn, args, pos)
	}
	if pure[name] || purePkg(fn) {
		return in.pureCall(st, name, fn.Signature, args)
	}
	return nil, false
}

type modelFn func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool)

// functions of strings and numbers without effect
var pure = map[string]bool{
	"strconv.Quote": true, "strconv.FormatBool": true, "strconv.FormatFloat": true, "strconv.FormatUint": true,
	"html.EscapeString": true, "html.UnescapeString": true, "net/http.StatusText": true,
	"mime.ParseMediaType": true, "mime.FormatMediaType": true, "mime.TypeByExtension": true,
	"strconv.Atoi": true, "strconv.ParseInt": true, "net/url.Parse": true, "net/url.PathEscape": true, "net/url.QueryEscape": true,
	"text/template.HTMLEscapeString": true, "html/template.HTMLEscapeString": true,
	"path.Base": true, "path.Clean": true, "unicode/utf8.ValidString": true,
}

func purePkg(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p != "strings" || fn.Signature.Recv() != nil {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// termOf turns a scalar into a term.
func (st *State) termOf(v Val) *Term {
	switch x := st.Canon(v).(type) {
	case VRef:
		return st.Find(x.T)
	case VInt:
		return MkTerm("int", "", nil, st.Num.Norm(x.L))
	case VBool:
		if x.F.Op == "t" || x.F.Op == "f" {
			return MkTerm("bool", x.F.Op, nil)
		}
	case VNil:
		return MkTerm("nil", "", nil)
	}
	return nil
}

// pureCall makes the result a function of the arguments.
func (in *Interp) pureCall(st *State, name string, sig *types.Signature, args []Val) ([]Outcome, bool) {
	var ts []*Term
	konst := true
	for _, a := range args {
		t := st.termOf(a)
		if t == nil {
			return ret(st, st.FreshResults(name, sig)), true
		}
		if t.Op != "str" && !(t.Op == "int" && t.L[0].IsConst()) {
			konst = false
		}
		ts = append(ts, t)
	}
	if konst {
		if v, ok := foldPure(name, ts); ok {
			return ret(st, v), true
		}
	}
	if (name == "strings.TrimSpace" || name == "net/http.CanonicalHeaderKey") && ts[0].Op == "pure" && ts[0].S == name {
		return ret(st, args[0]), true
	}
	t := MkTerm("pure", name, ts)
	r := sig.Results()
	if r.Len() == 1 {
		if t.T == nil {
			t.T = r.At(0).Type()
		}
		return ret(st, st.ValOf(t, r.At(0).Type())), true
	}
	v := VStruct{}
	for i := 0; i < r.Len(); i++ {
		f := MkTerm("fld", fmt.Sprint(i), []*Term{t})
		if f.T == nil {
			f.T = r.At(i).Type()
		}
		v.F = append(v.F, st.ValOf(f, r.At(i).Type()))
	}
	return ret(st, v), true
}

func foldPure(name string, ts []*Term) (Val, bool) {
	str := func(s string) (Val, bool) { return VRef{StrConst(s)}, true }
	boolean := func(b bool) (Val, bool) { return VBool{B(b)}, true }
	switch name {
	case "strings.TrimSpace":
		return str(strings.TrimSpace(ts[0].S))
	case "strings.ToLower":
		return str(strings.ToLower(ts[0].S))
	case "strings.ToUpper":
		return str(strings.ToUpper(ts[0].S))
	case "strings.HasPrefix":
		return boolean(strings.HasPrefix(ts[0].S, ts[1].S))
	case "strings.HasSuffix":
		return boolean(strings.HasSuffix(ts[0].S, ts[1].S))
	case "strings.Contains":
		return boolean(strings.Contains(ts[0].S, ts[1].S))
	case "strings.EqualFold":
		return boolean(strings.EqualFold(ts[0].S, ts[1].S))
	case "html.EscapeString":
		return str(html.EscapeString(ts[0].S))
	case "net/http.StatusText":
		return str(http.StatusText(int(ts[0].L[0].K)))
	}
	return nil, false
}

// Itoa is the decimal representation of l.
func Itoa(st *State, l num.Lin) *Term {
	l = st.Num.Norm(l)
	if l.IsConst() {
		return StrConst(fmt.Sprint(l.K))
	}
	t := MkTerm("itoa", "", nil, l)
	t.T = types.Typ[types.String]
	return t
}

// CanonKey is the canonical form of a header name.
func CanonKey(st *State, t *Term) *Term {
	t = st.Find(t)
	if s, ok := t.IsStrConst(); ok {
		return StrConst(textproto.CanonicalMIMEHeaderKey(s))
	}
	if t.Op == "canon" {
		return t
	}
	c := MkTerm("canon", "", []*Term{t})
	c.T = types.Typ[types.String]
	return c
}

// NonNilErr makes an arbitrary error that is not nil and not a known value.
func (st *State) NonNilErr(name string) Val {
	t := FreshTerm(name, types.Universe.Lookup("error").Type())
	st.Facts[isNilAtom(t)] = false
	return VRef{t}
}

var models map[string]modelFn

func init() {
	models = map[string]modelFn{
		"(*sync.Mutex).Lock":      lockModel("Lock"),
		"(*sync.Mutex).Unlock":    lockModel("Unlock"),
		"(*sync.Mutex).TryLock":   lockModel("TryLock"),
		"(*sync.RWMutex).Lock":    lockModel("Lock"),
		"(*sync.RWMutex).Unlock":  lockModel("Unlock"),
		"(*sync.RWMutex).TryLock": lockModel("TryLock"),
		"(*sync.RWMutex).RLock":   lockModel("RLock"),
		"(*sync.RWMutex).RUnlock": lockModel("RUnlock"),

		"github.com/chronos-tachyon/assert.NotNil": notNilModel,

		"strconv.Itoa": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, VRef{Itoa(st, args[0].(VInt).L)}), true
		},
		"strconv.FormatInt": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			if b := st.Num.Norm(args[1].(VInt).L); b.Is(10) {
				return ret(st, VRef{Itoa(st, args[0].(VInt).L)}), true
			}
			return in.pureCall(st, "strconv.FormatInt", fn.Signature, args)
		},
		"strconv.AppendInt": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, st.FreshVal("appendint", fn.Signature.Results().At(0).Type())), true
		},
		"net/textproto.CanonicalMIMEHeaderKey": canonModel,
		"net/http.CanonicalHeaderKey":          canonModel,

		"fmt.Sprintf":  sprintfModel,
		"fmt.Sprint":   freshStr,
		"fmt.Sprintln": freshStr,
		"fmt.Errorf":   errorfModel,
		"errors.New": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, st.NonNilErr("errors.New")), true
		},
		"errors.Is":     errorsIs,
		"errors.Unwrap": errorsUnwrap,
		"errors.As": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			a := st.Clone()
			in.Havoc(a, args[1])
			return append(ret(st, VBool{False}), ret(a, VBool{True})...), true
		},

		"time.Now": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, VRef{FreshTerm("now", fn.Signature.Results().At(0).Type())}), true
		},
		"time.Since": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, VInt{st.FreshInt("elapsed", types.Typ[types.Int64])}), true
		},
		"(time.Time).Sub": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, VInt{st.FreshInt("elapsed", types.Typ[types.Int64])}), true
		},
		"(time.Duration).Seconds": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			if i, ok := args[0].(VInt); ok {
				t := MkTerm("fdiv", "", []*Term{MkTerm("i2f", "", nil, st.Num.Norm(i.L)), floatConst("1000000000")})
				t.T = types.Typ[types.Float64]
				return ret(st, VRef{t}), true
			}
			return nil, false
		},

		"bytes.Count": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			s, ok := in.asSlice(st, args[0], fn.Signature.Params().At(0).Type())
			n := st.FreshInt("count", types.Typ[types.Int])
			st.Num.AddLe(num.Const(0), n)
			if ok {
				st.Num.AddLe(n, s.Len.AddK(1))
			}
			return ret(st, VInt{n}), true
		},

		"bytes.IndexByte":       indexModel,
		"bytes.LastIndexByte":   indexModel,
		"bytes.Index":           indexModel,
		"bytes.LastIndex":       indexModel,
		"bytes.IndexAny":        indexModel,
		"bytes.IndexRune":       indexModel,
		"strings.IndexByte":     indexModel,
		"strings.LastIndexByte": indexModel,
		"strings.Index":         indexModel,
		"strings.LastIndex":     indexModel,
		"strings.IndexAny":      indexModel,
		"strings.IndexRune":     indexModel,
		"bytes.Replace":         replaceModel,
		"bytes.ReplaceAll":      replaceModel,

		"(*sync.Pool).Get": poolGet,
		"(*sync.Pool).Put": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, VStruct{}), true
		},
		"(*sync.Once).Do": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return nil, false
		},

		"runtime.KeepAlive": func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
			return ret(st, VStruct{}), true
		},
	}
}

// indexModel: the result is -1 or a valid index.
func indexModel(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	var l num.Lin
	var i num.Lin
	switch x := st.Canon(args[0]).(type) {
	case VSlice:
		l = x.Len
		if x.Arr == 0 {
			l = num.Const(0)
		}
		i = st.FreshInt("index", types.Typ[types.Int])
	case VNil:
		i = st.FreshInt("index", types.Typ[types.Int])
	case VRef:
		l = st.LenOf(x.T)
		outs, ok := in.pureCall(st, fn.String(), fn.Signature, args)
		if !ok || len(outs) != 1 {
			return outs, ok
		}
		v, ok := outs[0].Val.(VInt)
		if !ok {
			return outs, true
		}
		i = v.L
	default:
		return nil, false
	}
	// not found
	b := st.Clone()
	b.Num.AddEq(i, num.Const(-1))
	// found: an element, or the beginning of the pattern
	st.Num.AddLe(num.Const(0), i)
	m := num.Const(1)
	switch y := st.Canon(args[1]).(type) {
	case VSlice:
		m = num.Const(0)
		if y.Arr != 0 {
			m = y.Len
		}
	case VNil:
		m = num.Const(0)
	case VRef:
		m = num.Const(0)
		if fn.Name() == "Index" || fn.Name() == "LastIndex" {
			m = st.LenOf(y.T)
		}
	}
	st.Num.AddLe(i.Add(m), l)
	var outs []Outcome
	for _, s := range []*State{b, st} {
		if s.Num.Feasible() {
			outs = append(outs, ret(s, VInt{i})...)
		}
	}
	return outs, true
}

// replaceModel: a new slice, not shorter if the replacement is not.
func replaceModel(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	typ := fn.Signature.Params().At(0).Type()
	var l [3]num.Lin
	for i := range l {
		s, ok := in.asSlice(st, args[i], typ)
		if !ok {
			return nil, false
		}
		if s.Arr != 0 {
			l[i] = s.Len
		}
	}
	n := st.FreshInt("replaced", types.Typ[types.Int])
	st.Num.AddLe(num.Const(0), n)
	if st.Num.Le(l[1], l[2]) {
		st.Num.AddLe(l[0], n)
	}
	id := st.NewArray(typ.Underlying().(*types.Slice).Elem(), n, nil, "replaced", pos)
	return ret(st, VSlice{Arr: id, Len: n, Cap: n, Nil: Atom(FreshTerm("nil slice", nil))}), true
}

func freshStr(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	return ret(st, VRef{FreshTerm("sprint", types.Typ[types.String])}), true
}

func canonModel(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	r, ok := args[0].(VRef)
	if !ok {
		return ret(st, st.FreshResults("canon", fn.Signature)), true
	}
	return ret(st, VRef{CanonKey(st, r.T)}), true
}

// lock operations
func lockModel(op string) modelFn {
	return func(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
		p, ok := args[0].(VPtr)
		if !ok {
			r, is := args[0].(VRef)
			if !is {
				if in.H.RuntimePanic != nil {
					in.H.RuntimePanic(in, st, "nil dereference", pos)
				}
				return []Outcome{{St: st, Panic: true, Val: runtimeErr("nil dereference")}}, true
			}
			p = VPtr{Obj: st.Target(r.T, fn.Signature.Recv().Type())}
		}
		o := st.Heap[p.Obj]
		if o.Kind != "cells" {
			return nil, false
		}
		l, _ := st.Cell(o, p.Path).(VLock)
		note := func(s *State, what string) {
			s.Note(pos, what+" "+o.Name+FieldName(o.Type, p.Path))
			if in.H.Lock != nil {
				in.H.Lock(in, s, p, what, pos)
			}
		}
		switch op {
		case "Lock", "RLock":
			if l.Held {
				note(st, "self-lock")
				return nil, true // the goroutine blocks forever
			}
			note(st, op)
			st.WriteCells(p.Obj, p.Path, VLock{Held: true, R: op == "RLock"})
			return ret(st, VStruct{}), true
		case "TryLock":
			b := st.Clone()
			outs := ret(b, VBool{False})
			if !l.Held {
				note(st, "Lock")
				st.WriteCells(p.Obj, p.Path, VLock{Held: true})
				outs = append(outs, ret(st, VBool{True})...)
			}
			return outs, true
		}
		if !l.Held || l.R != (op == "RUnlock") {
			note(st, "unlock-unheld")
			st.Note(pos, "unlock of a mutex that is not locked")
			return nil, true // fatal error
		}
		note(st, op)
		st.WriteCells(p.Obj, p.Path, VLock{})
		return ret(st, VStruct{}), true
	}
}

// assert.NotNil(&x) panics if x is nil
func notNilModel(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	i, ok := args[0].(VIface)
	if !ok {
		return nil, false
	}
	pt, ok := i.T.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	v := in.LoadPtr(st, i.V, pt.Elem())
	f := st.EqForm(v, VNil{})
	g := st.Clone()
	var outs []Outcome
	for _, s := range st.Assume(f, true) {
		s.Note(pos, "assert.NotNil fails")
		e := VIface{T: errIfaceOf(in, "github.com/chronos-tachyon/assert", "Error"), V: VStruct{F: []Val{VRef{FreshTerm("text", types.Typ[types.String])}}}}
		if e.T == nil {
			outs = append(outs, Outcome{St: s, Panic: true, Val: s.NonNilErr("assert.Error")})
		} else {
			outs = append(outs, Outcome{St: s, Panic: true, Val: e})
		}
	}
	for _, s := range g.Assume(f, false) {
		outs = append(outs, Outcome{St: s, Val: VStruct{}})
	}
	return outs, true
}

func errIfaceOf(in *Interp, path, name string) types.Type {
	p := in.Prog.ImportedPackage(path)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// TypeOf looks up a named type.
func (in *Interp) TypeOf(path, name string) types.Type { return errIfaceOf(in, path, name) }

// varargs returns the elements of a variadic slice of known length.
func (in *Interp) varargs(st *State, v Val) ([]Val, bool) {
	switch x := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		n := st.Num.Norm(x.Len)
		if !n.IsConst() || n.K > 64 || x.Arr == 0 {
			return nil, x.Arr == 0 && n.Is(0)
		}
		var out []Val
		for i := int64(0); i < n.K; i++ {
			out = append(out, st.Elem(x.Arr, x.Off.AddK(i), st.Heap[x.Arr].Type))
		}
		return out, true
	}
	return nil, false
}

func sprintfModel(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	fresh := func() ([]Outcome, bool) {
		return ret(st, VRef{FreshTerm("sprintf", types.Typ[types.String])}), true
	}
	f, ok := args[0].(VRef)
	if !ok {
		return fresh()
	}
	format, ok := f.T.IsStrConst()
	vs, ok2 := in.varargs(st, args[1])
	if !ok || !ok2 {
		return fresh()
	}
	cur := StrConst("")
	n, reordered := 0, false
	for i := 0; i < len(format); i++ {
		k := strings.IndexByte(format[i:], '%')
		if k < 0 {
			cur = Cat(st, cur, StrConst(format[i:]))
			break
		}
		cur = Cat(st, cur, StrConst(format[i:i+k]))
		i += k + 1
		if i >= len(format) {
			return fresh()
		}
		if format[i] == '%' {
			cur = Cat(st, cur, StrConst("%"))
			continue
		}
		if format[i] == '[' {
			// an explicit argument index
			j := strings.IndexByte(format[i:], ']')
			k, err := 0, error(nil)
			if j > 0 {
				k, err = strconv.Atoi(format[i+1 : i+j])
			}
			if j < 0 || err != nil || k < 1 || i+j+1 >= len(format) {
				return fresh()
			}
			n, i, reordered = k-1, i+j+1, true
		}
		if n >= len(vs) {
			return fresh()
		}
		iv, ok := vs[n].(VIface)
		n++
		if !ok {
			return fresh()
		}
		switch x := st.Canon(iv.V).(type) {
		case VInt:
			if _, named := iv.T.(*types.Named); named || (format[i] != 'd' && format[i] != 'v') {
				// some other rendering of the number
				j := i
				for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
					j++
				}
				if j >= len(format) {
					return fresh()
				}
				t := MkTerm("fmt", format[i:j+1], nil, st.Num.Norm(x.L))
				t.T = types.Typ[types.String]
				cur = Cat(st, cur, t)
				i = j
				continue
			}
			cur = Cat(st, cur, Itoa(st, x.L))
		case VRef:
			if !isString(iv.T) {
				return fresh()
			}
			if _, named := iv.T.(*types.Named); named {
				return fresh()
			}
			switch format[i] {
			case 's', 'v':
				cur = Cat(st, cur, x.T)
			case 'q':
				t := MkTerm("pure", "strconv.Quote", []*Term{st.Find(x.T)})
				t.T = types.Typ[types.String]
				cur = Cat(st, cur, t)
			default:
				return fresh()
			}
		default:
			return fresh()
		}
	}
	if n != len(vs) && !reordered {
		return fresh()
	}
	return ret(st, VRef{cur}), true
}

// fmt.Errorf makes an error that wraps the arguments of its %w verbs
func errorfModel(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	f, ok := args[0].(VRef)
	vs, ok2 := in.varargs(st, args[1])
	t := FreshTerm("errorf", types.Universe.Lookup("error").Type())
	if ok && ok2 {
		if format, is := f.T.IsStrConst(); is {
			n := 0
			var inner []*Term
			for i := 0; i < len(format); i++ {
				if format[i] != '%' {
					continue
				}
				for i++; i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0; i++ {
				}
				if i >= len(format) || format[i] == '%' {
					continue
				}
				if n < len(vs) && format[i] == 'w' {
					inner = append(inner, st.errTerm(vs[n]))
				}
				n++
			}
			if len(inner) > 0 {
				t = MkTerm("wrap", t.S, inner)
				t.T = types.Universe.Lookup("error").Type()
				return ret(st, VRef{t}), true
			}
		}
	}
	m := MkTerm("made", t.S, nil)
	m.T = t.T
	return ret(st, VRef{m}), true
}

// errTerm gives a term for an error value.
func (st *State) errTerm(v Val) *Term {
	switch x := st.Canon(v).(type) {
	case VRef:
		return st.Find(x.T)
	case VNil:
		return MkTerm("nil", "", nil)
	case VIface:
		return MkTerm("boxed", types.TypeString(x.T, nil)+st.ShowVal(x.V), nil)
	}
	return FreshTerm("err", nil)
}

func errorsUnwrap(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	if r, ok := st.Canon(args[0]).(VRef); ok && r.T.Op == "wrap" && len(r.T.Args) == 1 {
		return ret(st, VRef{r.T.Args[0]}), true
	}
	return ret(st, st.FreshVal("unwrap", fn.Signature.Results().At(0).Type())), true
}

func errorsIs(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	return ret(st, VBool{st.IsForm(args[0], args[1])}), true
}

// IsForm is the condition errors.Is(err, target).
func (st *State) IsForm(err, target Val) *Form {
	err, target = st.Canon(err), st.Canon(target)
	eq := st.EqForm(err, target)
	switch x := err.(type) {
	case VNil:
		return eq
	case VRef:
		if x.T.Op == "sentinel" || x.T.Op == "nil" {
			return eq
		}
		if x.T.Op == "wrap" {
			f := eq
			for _, a := range x.T.Args {
				f = Or(f, st.IsForm(VRef{a}, target))
			}
			return f
		}
		tt := st.termOf(target)
		if tt == nil {
			return Or(eq, Atom(FreshTerm("is", nil)))
		}
		return Or(eq, And(Not(Atom(isNilAtom(x.T))), Atom(MkTerm("errors.Is", "", []*Term{x.T, tt}))))
	}
	return Or(eq, Atom(FreshTerm("is", nil)))
}

// a pool returns what its New function makes (or something put back earlier)
func poolGet(in *Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	p, ok := args[0].(VPtr)
	if !ok {
		return nil, false
	}
	o := st.Heap[p.Obj]
	if o == nil || o.Kind != "cells" {
		return nil, false
	}
	u, ok := typeAt(o.Type, p.Path).Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != "New" {
			continue
		}
		if f, ok := st.Cell(o, p.Path+fmt.Sprintf(".%d", i)).(VFunc); ok {
			return in.CallFn(st, f.Fn, nil, f.Bind, pos, -1), true
		}
	}
	return nil, false
}

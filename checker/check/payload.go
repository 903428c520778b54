package check

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/num"
)

// The client of the payload constructors (B16): an arbitrary value is encoded
// by encoders of which only the contract is known, in memory that may belong to
// a pool.
//
// Ghost state: enc.n (how often something was encoded), enc.err (the error of
// the encoder), enc.w (the writer of the JSON encoder), enc.indent (it indents), buf.i (the i-th pooled
// buffer) and buf.i.is (0: not taken, 1: taken, 2: given back), env (the
// environment panicked).
type payloadClient struct {
	p  *Program
	r  *Report
	in *ai.Interp

	op      string
	arg     Val
	content *ai.Term
	n       num.Lin
	json    bool
	str     bool
	pretty  bool
	opts    Val // the options given, if the constructor has any
}

const maxPooled = 3

// poolMemory is the name of arrays that belong to a pooled buffer.
const poolMemory = "memory of a pooled buffer"

// Payload runs the analysis of the payload constructors.
func (p *Program) Payload(r *Report) *ai.Interp {
	in := p.NewInterp()
	c := &payloadClient{p: p, r: r, in: in}
	in.H.Call = c.call
	in.H.Load = func(in *ai.Interp, st *State, x ai.VPtr, pos token.Pos) { c.used(st, x.Obj, pos) }
	in.H.Store = func(in *ai.Interp, st *State, x ai.VPtr, v Val, pos token.Pos) { c.used(st, x.Obj, pos) }
	in.H.ArrayAccess = func(in *ai.Interp, st *State, a ai.ObjID, write bool, pos token.Pos) { c.used(st, a, pos) }
	for _, name := range []string{"FromString", "FromJSON", "FromPrettyJSON", "FromProto", "FromProtoText"} {
		c.constructor(name)
	}
	return in
}

func (c *payloadClient) ob(st *State, prop, rule string, good bool, f string, a ...interface{}) bool {
	return c.r.Ob(c.in, prop, rule, "body."+c.op, good, st, f, a...)
}

// constructor analyses one constructor.
func (c *payloadClient) constructor(name string) {
	fn := c.p.Func("body", name)
	c.op = name
	c.json = strings.Contains(name, "JSON")
	c.pretty = name == "FromPrettyJSON"
	c.str = name == "FromString"
	st := ai.NewState()
	st.Ghost["enc.n"], st.Ghost["enc.err"], st.Ghost["enc.w"], st.Ghost["env"] = vint(k(0)), ai.VNil{}, ai.VNil{}, vint(k(0))
	st.Ghost["enc.indent"] = vint(k(0))
	for i := 0; i < maxPooled; i++ {
		st.Ghost[fmt.Sprintf("buf.%d", i)] = ai.VNil{}
		st.Ghost[fmt.Sprintf("buf.%d.is", i)] = vint(k(0))
	}
	var args []Val
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		t := fn.Signature.Params().At(i).Type()
		a := ai.Named(fmt.Sprintf("argument %d of %s", i, name), t)
		if i == 0 && !c.str && !c.json {
			st.Facts[ai.IsNilAtom(a)] = false // a message
		}
		args = append(args, st.ValOf(a, t))
	}
	c.arg, c.opts = args[0], nil
	if len(args) > 1 {
		c.opts = args[1]
	}
	if c.str {
		t := ai.Named("argument 0 of "+name, types.Typ[types.String])
		c.content, c.n = ai.MkTerm("strcontent", "", []*ai.Term{t}), st.LenOf(t)
	} else {
		c.content = ai.MkTerm("content", "", []*ai.Term{ai.Named("encoding of "+name, types.NewSlice(types.Typ[types.Byte]))})
		c.n = st.FreshInt("length of the encoding", types.Typ[types.Int])
		st.Num.AddLe(k(0), c.n)
		if c.json {
			st.Num.AddLe(k(1), c.n)
		}
	}
	st.Num.AddLe(c.n.Mul(4), num.Big)
	for _, o := range c.in.CallFn(st, fn, args, nil, noPos, -1) {
		c.result(o)
	}
}

// result checks one way out of a constructor.
func (c *payloadClient) result(o Outcome) {
	st := o.St
	for i := 0; i < maxPooled; i++ {
		is := fmt.Sprintf("buf.%d.is", i)
		c.ob(st, "B16", "pooled buffers are given back", !isOne(st, is), "a buffer is taken from the pool and not given back")
	}
	failed := !isNilV(st, "enc.err")
	if o.Panic {
		switch {
		case isOne(st, "env"):
			c.ob(st, "B16", "a panic of the encoder is passed on", st.Same(o.Val, ref(envPanic)), "the panic is %s", st.ShowVal(o.Val))
		case failed:
			c.ob(st, "B16", "an encoding error is reported by a panic with that error", st.Same(o.Val, st.Ghost["enc.err"]), "the panic is %s, the encoder's error %s", st.ShowVal(o.Val), st.ShowVal(st.Ghost["enc.err"]))
		default:
			c.ob(st, "B16", "a value that can be encoded is served", false, "%s panics with %s although the value was encoded", c.op, st.ShowVal(o.Val))
		}
		return
	}
	c.ob(st, "B16", "an encoding error is reported by a panic with that error", !failed, "a body is returned although the encoder failed")
	c.ob(st, "B16", "a panic of the encoder is passed on", !isOne(st, "env"), "a body is returned although the encoder panicked")
	if failed || isOne(st, "env") {
		return
	}
	v, is := o.Val.(ai.VIface)
	if !c.ob(st, "B16", "a body is returned", is, "the result is %s", st.ShowVal(o.Val)) {
		return
	}
	for _, t := range []string{"ReaderAt", "Seeker", "WriterTo"} {
		c.ob(st, "B06", "the promised interfaces", Impl(v.T, c.p.Std("io", t)), "%s does not implement io.%s", v.T, t)
	}
	c.owned(st, v)
	c.complete(st, v)
}

// owned checks that body v refers to no memory that somebody else may change.
func (c *payloadClient) owned(st *State, v Val) {
	seen := map[ai.ObjID]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := st.Canon(v).(type) {
		case ai.VPtr:
			o := st.Heap[x.Obj]
			if seen[x.Obj] || o == nil {
				return
			}
			seen[x.Obj] = true
			c.ob(st, "B16", "the body owns its memory", c.slotOf(st, x.Obj) < 0, "the body refers to a pooled buffer")
			if o.Kind == "cells" {
				for _, f := range ai.Leaves(o.Type, "") {
					walk(st.Cell(o, f))
				}
			}
		case ai.VSlice:
			if x.Arr != 0 {
				o := st.Heap[x.Arr]
				c.ob(st, "B16", "the body owns its memory", o.Fresh && o.Name != poolMemory, "the body refers to %s", o.Name)
			}
		case ai.VIface:
			walk(x.V)
		case ai.VStruct:
			for _, f := range x.F {
				walk(f)
			}
		case ai.VRef:
			t := st.Find(x.T)
			a, is := st.Canon(c.arg).(ai.VRef)
			c.ob(st, "B16", "the body owns its memory", c.str || !is || t != st.Find(a.T), "the body refers to the value it was made from")
		}
	}
	walk(v)
}

// complete checks that body v holds the whole encoding.
func (c *payloadClient) complete(st *State, v Val) {
	call := func(st *State, name string, args ...Val) []Outcome {
		m, recv := c.p.methodOf(v, name)
		if m == nil {
			panic(Anchor{"method " + name + " of the body"})
		}
		return c.in.CallFn(st, m, append(recv, args...), nil, noPos, -1)
	}
	for _, o := range call(st.Clone(), "BytesRemaining") {
		good := !o.Panic
		if good && c.pretty {
			good = o.St.Num.Le(c.n, lin(o.Val))
		} else if good {
			good = o.St.Num.Eq(c.n, lin(o.Val))
		}
		c.ob(o.St, "B16", "the body holds the complete encoding", good, "the encoding has %s bytes, the body %s", o.St.Num.Norm(c.n), o.St.ShowVal(o.Val))
	}
	st = st.Clone()
	arr := st.NewArray(types.Typ[types.Byte], c.n, nil, "p", noPos)
	p := ai.VSlice{Arr: arr, Len: c.n, Cap: c.n}
	for _, o := range call(st, "Read", p) {
		x := o.St
		n := k(-1)
		if !o.Panic {
			n = lin(tup(o.Val, 0))
		}
		c.ob(x, "B16", "the body holds the complete encoding", x.Num.Eq(n, c.n), "reading %s bytes gives %s", x.Num.Norm(c.n), x.ShowVal(o.Val))
		if !c.pretty {
			c.ob(x, "B16", "the body holds the encoding and nothing else", x.Holds(arr, k(0), c.n, c.content, k(0)), "reading does not give the bytes of the encoding")
		}
	}
}

// ---- pooled buffers

// slotOf finds the pooled buffer that is object id.
func (c *payloadClient) slotOf(st *State, id ai.ObjID) int {
	for i := 0; i < maxPooled; i++ {
		if b, is := st.Canon(st.Ghost[fmt.Sprintf("buf.%d", i)]).(ai.VPtr); is && b.Obj == id {
			return i
		}
	}
	return -1
}

func (c *payloadClient) get(st *State, typ types.Type, pos token.Pos) Val {
	for i := 0; i < maxPooled; i++ {
		is := fmt.Sprintf("buf.%d.is", i)
		if !isZero(st, is) {
			continue
		}
		id := st.NewCells(typ, fmt.Sprintf("pooled buffer %d", i), pos)
		st.Note(pos, "a buffer is taken from the pool")
		st.Ghost[is] = vint(k(1))
		st.Ghost[fmt.Sprintf("buf.%d", i)] = ai.VPtr{Obj: id}
		return ai.VPtr{Obj: id}
	}
	panic(ai.TooHard{Why: "too many pooled buffers"})
}

func (c *payloadClient) put(st *State, v Val, pos token.Pos) {
	if x, is := v.(ai.VIface); is {
		v = x.V
	}
	slot := -1
	if x, is := st.Canon(v).(ai.VPtr); is && x.Path == "" {
		slot = c.slotOf(st, x.Obj)
	}
	st.Note(pos, "a buffer is given back to the pool")
	if slot < 0 {
		c.ob(st, "B16", "only pooled buffers are given back", false, "%s is given to the pool", st.ShowVal(v))
		return
	}
	is := fmt.Sprintf("buf.%d.is", slot)
	c.ob(st, "B16", "only pooled buffers are given back", true, "")
	c.ob(st, "B16", "a pooled buffer is given back once", isOne(st, is), "the buffer is given back again")
	st.Ghost[is] = vint(k(2))
}

// used notes an access to an object.
func (c *payloadClient) used(st *State, id ai.ObjID, pos token.Pos) {
	o := st.Heap[id]
	if o == nil {
		return
	}
	if o.Name == poolMemory {
		held := false
		for i := 0; i < maxPooled; i++ {
			held = held || isOne(st, fmt.Sprintf("buf.%d.is", i))
		}
		c.ob(st, "B16", "a pooled buffer is not used after it was given back", held, "its memory is used at %s", c.in.Pos(pos))
		return
	}
	if i := c.slotOf(st, id); i >= 0 {
		c.ob(st, "B16", "a pooled buffer is not used after it was given back", isOne(st, fmt.Sprintf("buf.%d.is", i)), "it is used at %s", c.in.Pos(pos))
	}
}

// ---- models of what the constructors call

func (c *payloadClient) call(in *ai.Interp, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	switch fn.String() {
	case "github.com/chronos-tachyon/bufferpool.Get":
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return []Outcome{ok(st, c.get(st, t, pos))}, true
	case "github.com/chronos-tachyon/bufferpool.Put":
		c.put(st, args[0], pos)
		return []Outcome{ok(st, ai.VStruct{})}, true
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		n, l := c.writeBuffer(st, args[0], args[1], fn, pos)
		if !n {
			return nil, false
		}
		return []Outcome{ok(st, ai.Tup(vint(l), ai.VNil{}))}, true
	case "(*bytes.Buffer).WriteByte":
		b, is := args[0].(ai.VPtr)
		if !is {
			return nil, false
		}
		c.extend(st, b, k(1), nil, num.Lin{}, 0, num.Lin{}, pos)
		return []Outcome{ok(st, ai.VNil{})}, true
	case "(*bytes.Buffer).Grow":
		return []Outcome{ok(st, ai.VStruct{})}, true
	case "encoding/json.NewEncoder":
		if !isNilV(st, "enc.w") {
			panic(ai.TooHard{Why: "a second JSON encoder"})
		}
		st.Ghost["enc.w"] = args[0]
		t := ai.Named("JSON encoder", fn.Signature.Results().At(0).Type())
		st.Facts[ai.IsNilAtom(t)] = false
		return []Outcome{ok(st, ref(t))}, true
	case "(*encoding/json.Encoder).SetEscapeHTML":
		return []Outcome{ok(st, ai.VStruct{})}, true
	case "(*encoding/json.Encoder).SetIndent":
		c.indent(st, args[1], args[2])
		return []Outcome{ok(st, ai.VStruct{})}, true
	case "(*encoding/json.Encoder).Encode":
		c.form(st, "JSON")
		return c.encode(st, args[1], pos), true
	case "encoding/json.MarshalIndent":
		c.indent(st, args[1], args[2])
		c.form(st, "JSON")
		return c.marshal(st, args[0], pos), true
	case "encoding/json.Marshal":
		c.form(st, "JSON")
		return c.marshal(st, args[0], pos), true
	case "google.golang.org/protobuf/proto.Marshal":
		c.form(st, "Proto")
		return c.marshal(st, args[0], pos), true
	case "google.golang.org/protobuf/encoding/prototext.Marshal":
		c.form(st, "ProtoText")
		c.options(st, nil, fn.Signature)
		return c.marshal(st, args[0], pos), true
	case "(google.golang.org/protobuf/proto.MarshalOptions).Marshal":
		c.form(st, "Proto")
		c.options(st, args[0], fn.Signature)
		return c.marshal(st, args[1], pos), true
	case "(google.golang.org/protobuf/encoding/prototext.MarshalOptions).Marshal":
		c.form(st, "ProtoText")
		c.options(st, args[0], fn.Signature)
		return c.marshal(st, args[1], pos), true
	}
	return nil, false
}

// indent notes that the JSON encoder is told to indent with these strings.
func (c *payloadClient) indent(st *State, prefix, indent Val) {
	empty := ref(ai.StrConst(""))
	n := 1
	if st.Same(prefix, empty) && st.Same(indent, empty) {
		n = 0
	}
	st.Ghost["enc.indent"] = vint(k(int64(n)))
}

// form checks that the encoder is the one the constructor is named after.
func (c *payloadClient) form(st *State, enc string) {
	want := strings.TrimPrefix(c.op, "From")
	if c.json {
		want = "JSON"
		c.ob(st, "B16", "the documented form of encoding", isOne(st, "enc.indent") == c.pretty, "indentation is %s", st.ShowVal(st.Ghost["enc.indent"]))
	}
	c.ob(st, "B16", "the documented form of encoding", enc == want, "the value is encoded as %s", enc)
}

// options checks the options o of a protobuf encoder (nil: the defaults).
func (c *payloadClient) options(st *State, o Val, sig *types.Signature) {
	partial := Val(vbool(false))
	good := true
	if o != nil {
		s, is := st.Canon(o).(ai.VStruct)
		u := sig.Recv().Type().Underlying().(*types.Struct)
		if !is {
			panic(ai.TooHard{Why: "options of an encoder"})
		}
		p := ai.Val(ai.VNil{})
		if c.opts != nil {
			p = st.Canon(c.opts)
		}
		var given *ai.Obj
		switch x := p.(type) {
		case ai.VRef:
			if st.IsNil(x) < 0 {
				given = st.Heap[st.Target(x.T, c.p.Func("body", c.op).Signature.Params().At(1).Type())]
			} else if st.IsNil(x) == 0 {
				c.ob(st, "B16", "the given options are used", false, "the message is encoded before it is known whether there are options")
				return
			}
		case ai.VPtr:
			given = st.Heap[x.Obj]
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "AllowPartial" {
				partial = s.F[i]
			}
			if _, isStruct := u.Field(i).Type().Underlying().(*types.Struct); !isStruct && given != nil {
				v := st.Cell(given, fmt.Sprintf(".%d", i))
				x, is1 := v.(ai.VBool)
				y, is2 := s.F[i].(ai.VBool)
				same := st.Same(v, s.F[i])
				if is1 && is2 {
					a, b := st.Decide(x.F), st.Decide(y.F)
					same = x.F.String() == y.F.String() || a != 0 && a == b
				}
				if !same {
					good = false
				}
			}
		}
		if given != nil {
			c.ob(st, "B16", "the given options are used", good, "the message is encoded with other options")
			return
		}
	} else if c.opts != nil {
		c.ob(st, "B16", "the given options are used", st.IsNil(c.opts) > 0, "the message is encoded with the default options")
	}
	c.ob(st, "B16", "a value that cannot be encoded is refused", st.Same(partial, vbool(false)), "incomplete messages are encoded")
}

// outcomes of encoding: failure and a panic of the value's own methods; the
// remaining state is that of success.
func (c *payloadClient) encodes(st *State, v Val, pos token.Pos) (fails, panics *State) {
	c.ob(st, "B16", "the given value is encoded", st.Same(v, c.arg), "%s is encoded", st.ShowVal(v))
	c.ob(st, "B16", "the value is encoded once", isZero(st, "enc.n"), "the value is encoded again")
	bump(st, "enc.n")
	fails, panics = st.Clone(), st.Clone()
	fails.Note(pos, "the encoder fails")
	fails.Ghost["enc.err"] = fails.NonNilErr("encoding error")
	panics.Note(pos, "the encoder panics")
	panics.Ghost["env"] = vint(k(1))
	return
}

func (c *payloadClient) encode(st *State, v Val, pos token.Pos) []Outcome {
	w, is := st.Canon(st.Ghost["enc.w"]).(ai.VIface)
	var buf ai.VPtr
	if is {
		buf, is = st.Canon(w.V).(ai.VPtr)
	}
	if !is || types.TypeString(w.T, nil) != "*bytes.Buffer" {
		panic(ai.TooHard{Why: "a JSON encoder that writes to something other than a bytes.Buffer"})
	}
	c.used(st, buf.Obj, pos)
	fails, panics := c.encodes(st, v, pos)
	c.extend(st, buf, c.n, c.content, k(0), 0, num.Lin{}, pos)
	return []Outcome{ok(st, ai.VNil{}), ok(fails, fails.Ghost["enc.err"]), panicking(panics, ref(envPanic))}
}

func (c *payloadClient) marshal(st *State, v Val, pos token.Pos) []Outcome {
	fails, panics := c.encodes(st, v, pos)
	id := st.NewArray(types.Typ[types.Byte], c.n, []ai.Seg{{Lo: k(0), Hi: c.n, Src: c.content, D: k(0)}}, "encoding", pos)
	part := bytesArg(fails, "part of the encoding")
	return []Outcome{ok(st, ai.Tup(ai.VSlice{Arr: id, Len: c.n, Cap: c.n}, ai.VNil{})),
		ok(fails, ai.Tup(part, fails.Ghost["enc.err"])), panicking(panics, ref(envPanic))}
}

// extend appends n bytes to a bytes.Buffer: elements [d, d+n) of src, or n
// elements of array from beginning at off.
func (c *payloadClient) extend(st *State, buf ai.VPtr, n num.Lin, src *ai.Term, d num.Lin, from ai.ObjID, off num.Lin, pos token.Pos) {
	if st.Heap[buf.Obj] == nil || buf.Path != "" {
		panic(ai.TooHard{Why: "a bytes.Buffer inside another object"})
	}
	old := k(0)
	s, is := st.Canon(st.Cell(st.Heap[buf.Obj], ".0")).(ai.VSlice)
	if is {
		old = s.Len
	}
	l := st.Num.Norm(old.Add(n))
	name := "memory of a buffer"
	if c.slotOf(st, buf.Obj) >= 0 {
		name = poolMemory
	}
	id := st.NewArray(types.Typ[types.Byte], l, nil, name, pos)
	if is && s.Arr != 0 {
		st.CopyRange(id, k(0), s.Arr, s.Off, old)
	}
	switch {
	case src != nil:
		st.SetRange(id, old, l, src, d.Sub(old), nil)
	case from != 0:
		st.CopyRange(id, old, from, off, n)
	}
	st.WriteCells(buf.Obj, ".0", ai.VSlice{Arr: id, Len: l, Cap: l})
}

// writeBuffer is Write and WriteString of a bytes.Buffer.
func (c *payloadClient) writeBuffer(st *State, b, v Val, fn *ssa.Function, pos token.Pos) (bool, num.Lin) {
	buf, is := b.(ai.VPtr)
	if !is {
		return false, num.Lin{}
	}
	c.used(st, buf.Obj, pos)
	switch x := st.Canon(v).(type) {
	case ai.VSlice:
		if x.Arr == 0 {
			return true, k(0)
		}
		c.used(st, x.Arr, pos)
		c.extend(st, buf, x.Len, nil, num.Lin{}, x.Arr, x.Off, pos)
		return true, x.Len
	case ai.VNil:
		return true, k(0)
	case ai.VRef:
		n := st.LenOf(x.T)
		c.extend(st, buf, n, ai.MkTerm("strcontent", "", []*ai.Term{st.Find(x.T)}), k(0), 0, num.Lin{}, pos)
		return true, n
	}
	return false, num.Lin{}
}

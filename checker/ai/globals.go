package ai

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/num"
)

// globalObj returns the object of a global variable.
func (in *Interp) globalObj(st *State, g *ssa.Global) ObjID {
	if id, ok := st.Glob[g]; ok {
		return id
	}
	typ := g.Type().Underlying().(*types.Pointer).Elem()
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	name := path + "." + g.Name()
	id := NewObjID()
	o := &Obj{ID: id, Kind: "cells", Type: typ, Cells: map[string]Val{}, Name: name, Root: Named("global:"+name, nil)}
	if at, ok := typ.Underlying().(*types.Array); ok {
		n := num.Const(at.Len())
		o = &Obj{ID: id, Kind: "array", Type: at.Elem(), ALen: n, Name: name,
			Segs: []Seg{{Lo: num.Const(0), Hi: n, Src: MkTerm("content", "", []*Term{Named("global:"+name, nil)})}}}
	}
	st.Glob[g] = id
	st.Heap[id] = o
	if o.Kind == "array" {
		if in.inInit || !strings.HasPrefix(path, in.Repo) || g.Object() != nil && g.Object().Exported() || in.mutable(g) {
			return id
		}
		if is := in.packageInit(g.Pkg); is != nil && is.Glob[g] != 0 {
			o.Segs = is.Heap[is.Glob[g]].Segs
			o.Glob = true
			for _, s := range o.Segs {
				if s.V != nil {
					importVal(st, is, s.V, map[ObjID]bool{})
				}
			}
		}
		return id
	}
	set := func(v Val) { st.WriteCells(id, "", v) }
	if in.H.Global != nil && !in.inInit {
		if v, ok := in.H.Global(in, st, g); ok {
			set(v)
			return id
		}
	}
	if strings.HasPrefix(path, in.Repo) || path == "io" {
		if v, ok := in.initValue(st, g); ok {
			set(v)
			st.Mut(id).Glob = !in.inInit
			return id
		}
	}
	if path == "os" && strings.HasPrefix(g.Name(), "Err") {
		name = "io/fs." + g.Name()
	}
	switch typ.Underlying().(type) {
	case *types.Interface:
		if types.Implements(typ, errorType) && !strings.HasPrefix(path, in.Repo) {
			t := MkTerm("sentinel", name, nil)
			t.T = typ
			set(VRef{t})
			return id
		}
		if !strings.HasPrefix(path, in.Repo) {
			t := Named(name, typ)
			st.Facts[isNilAtom(t)] = false
			set(VRef{t})
		}
	case *types.Pointer:
		if !strings.HasPrefix(path, in.Repo) {
			t := Named(name, typ)
			if types.Implements(typ, errorType) {
				t = MkTerm("sentinel", name, nil)
				t.T = typ
			}
			st.Facts[isNilAtom(t)] = false
			set(VRef{t})
		}
	}
	return id
}

var errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// initValue returns the initial value of a global that cannot change
// afterwards: it is not exported (or is an error value of the standard
// library) and only the package initialisation stores to it.
func (in *Interp) initValue(st *State, g *ssa.Global) (Val, bool) {
	path := g.Pkg.Pkg.Path()
	typ := g.Type().Underlying().(*types.Pointer).Elem()
	if path == "io" && types.Identical(typ.Underlying(), errorType) {
		return nil, false
	}
	if g.Object() != nil && g.Object().Exported() && path != "io" {
		return nil, false
	}
	if in.mutable(g) {
		return nil, false
	}
	is := in.packageInit(g.Pkg)
	if is == nil {
		return nil, false
	}
	id, ok := is.Glob[g]
	if !ok {
		return Zero(typ), true
	}
	v := is.ReadCells(is.Heap[id], "")
	importVal(st, is, v, map[ObjID]bool{})
	return v, true
}

// InitValueOf returns the value a global has after package initialisation,
// whether or not it can change later.
func (in *Interp) InitValueOf(st *State, g *ssa.Global) (Val, bool) {
	is := in.packageInit(g.Pkg)
	if is == nil {
		return nil, false
	}
	id, ok := is.Glob[g]
	if !ok {
		return nil, false
	}
	v := is.ReadCells(is.Heap[id], "")
	importVal(st, is, v, map[ObjID]bool{})
	return v, true
}

// importVal copies the objects v refers to.
func importVal(st, from *State, v Val, seen map[ObjID]bool) {
	switch x := v.(type) {
	case VPtr:
		importObj(st, from, x.Obj, seen)
	case VSlice:
		importObj(st, from, x.Arr, seen)
	case VIface:
		importVal(st, from, x.V, seen)
	case VStruct:
		for _, f := range x.F {
			importVal(st, from, f, seen)
		}
	case VFunc:
		for _, f := range x.Bind {
			importVal(st, from, f, seen)
		}
	case VRef:
		if n, ok := from.Facts[isNilAtom(x.T)]; ok {
			st.Facts[isNilAtom(x.T)] = n
		}
		if id, ok := from.PtrObj[x.T]; ok {
			st.PtrObj[x.T] = id
			importObj(st, from, id, seen)
		}
	}
}

func importObj(st, from *State, id ObjID, seen map[ObjID]bool) {
	o := from.Heap[id]
	if o == nil || seen[id] || st.Heap[id] != nil {
		return
	}
	seen[id] = true
	c := *o
	c.Fresh = false
	c.Glob = true
	st.Heap[id] = &c
	for _, v := range o.Cells {
		importVal(st, from, v, seen)
	}
	for _, s := range o.Segs {
		if s.V != nil {
			importVal(st, from, s.V, seen)
		}
	}
	if o.Map != nil {
		for _, e := range o.Map.Ents {
			importVal(st, from, e.K, seen)
			importVal(st, from, e.V, seen)
		}
	}
}

// changes reports a change of package-level state: every analysis starts from
// the state the package initialisation leaves, so it covers later calls only
// if no call changes that state.
func (in *Interp) changes(st *State, id ObjID, pos token.Pos) {
	if o := st.Heap[id]; o != nil && o.Glob && !in.inInit {
		in.Problem(pos, "change of package-level state")
	}
}

// mutable tells whether g may change after initialisation.
func (in *Interp) mutable(g *ssa.Global) bool {
	if in.globMut == nil {
		in.globMut = map[*ssa.Global]bool{}
		for fn := range allFunctions(in.Prog, in.Repo) {
			if fn.Name() == "init" && fn.Parent() == nil && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						gg, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						// only loads are harmless; so is taking the address of
						// a field or element to load from it
						if !onlyLoads(ins, gg, 0) {
							in.globMut[gg] = true
						}
					}
				}
			}
		}
	}
	return in.globMut[g]
}

func onlyLoads(ins ssa.Instruction, v ssa.Value, depth int) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		// nor may anything be stored into what the loaded value refers to
		return !storedInto(x, 0)
	case *ssa.DebugRef:
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi:
		if depth > 4 {
			return false
		}
		val := x.(ssa.Value)
		for _, r := range *val.Referrers() {
			if !onlyLoads(r, val, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// storedInto tells whether an instruction stores into the memory v refers to
// directly: a map or slice element, or a field of the object pointed to.
func storedInto(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi:
			if storedInto(x.(ssa.Value), depth+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
				switch b.Name() {
				case "delete", "clear", "copy", "append":
					return true
				}
			}
		}
	}
	return false
}

func allFunctions(prog *ssa.Program, repo string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range prog.AllPackages() {
		if p.Pkg == nil || !strings.HasPrefix(p.Pkg.Path(), repo) {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	return out
}

// packageInit interprets the initialisation of a package.
func (in *Interp) packageInit(p *ssa.Package) *State {
	if in.pkgInit == nil {
		in.pkgInit = map[*ssa.Package]*State{}
	}
	if s, ok := in.pkgInit[p]; ok {
		return s
	}
	in.pkgInit[p] = nil
	fn := p.Func("init")
	if fn == nil {
		return nil
	}
	save, saveStack, saveProb, saveFuncs, saveUnk := in.H, in.stack, in.Problems, in.Funcs, in.Unknowns
	in.H, in.stack, in.Problems, in.Funcs, in.Unknowns = Hooks{}, nil, map[string]int{}, map[*ssa.Function]bool{}, map[string]int{}
	in.inInit = true
	defer func() {
		in.H, in.stack, in.Problems, in.Funcs, in.Unknowns = save, saveStack, saveProb, saveFuncs, saveUnk
		in.inInit = false
		if r := recover(); r != nil {
			if _, ok := r.(TooHard); !ok {
				panic(r)
			}
		}
	}()
	st := NewState()
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			typ := g.Type().Underlying().(*types.Pointer).Elem()
			if at, isArr := typ.Underlying().(*types.Array); isArr {
				n := num.Const(at.Len())
				st.Glob[g] = st.NewArray(at.Elem(), n, []Seg{{Lo: num.Const(0), Hi: n, V: Zero(at.Elem())}}, g.Name(), g.Pos())
				continue
			}
			st.Glob[g] = st.NewCells(typ, g.Name(), g.Pos())
		}
	}
	outs := in.Call(st, fn, nil, nil, -1)
	for _, o := range outs {
		if !o.Panic {
			in.pkgInit[p] = o.St
			break
		}
	}
	return in.pkgInit[p]
}

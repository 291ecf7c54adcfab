package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

type VK int

const (
	VScalar VK = iota // t
	VSlice            // t=id, off, n, cap
	VStruct           // f
	VPtr              // t (ref) or loc
	VArr              // t = array term (fixed-size array)
	VFunc             // fn
	VTuple            // f
	VNil              // untyped nil
)

type Val struct {
	K           VK
	T           types.Type
	t           *Term
	off, n, cap *Term
	f           []Val
	loc         *Loc
	fn          *Closure
}

type Closure struct {
	lit    *ast.FuncLit
	pkg    *Pkg
	fobj   *types.Func // named function / method value
	recv   *Val
	opaque string
}

type LocKind int

const (
	LLocal LocKind = iota
	LHeap
	LElem
)

type Loc struct {
	kind LocKind
	obj  types.Object // local
	ref  *Term        // heap object / slice backing id
	idx  *Term        // element index (absolute)
	key  string       // heap key prefix ("f:build.CallExpr.X" or "m:build.Expr")
	path []int        // struct path for locals
	typ  types.Type
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	return typeKey(n) == name
}

func typeKey(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return shortPkg(t.Obj().Pkg().Path()) + "." + t.Obj().Name()
	case *types.Pointer:
		return "*" + typeKey(t.Elem())
	case *types.Slice:
		return "[]" + typeKey(t.Elem())
	case *types.Map:
		return "map[" + typeKey(t.Key()) + "]" + typeKey(t.Elem())
	case *types.Basic:
		switch t.Name() {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return t.Name()
	case *types.Signature:
		return "func"
	}
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) }), " ", "_")
}

// strings.Builder and bytes.Buffer are modelled as a struct with one string.
func isBuffer(t types.Type) bool {
	k := typeKey(t)
	return k == "bytes.Buffer" || k == "strings.Builder"
}

type sfield struct {
	name string
	typ  types.Type
	emb  bool
}

func structFields(t types.Type) ([]sfield, bool) {
	if isBuffer(t) {
		return []sfield{{"$data", types.Typ[types.String], false}}, true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	// opaque foreign structs
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return []sfield{{"$opaque", types.Typ[types.Int], false}}, true
	}
	var out []sfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		out = append(out, sfield{f.Name(), f.Type(), f.Embedded()})
	}
	return out, true
}

func scalarSort(t types.Type) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool", true
		case u.Info()&types.IsInteger != 0:
			return "Int", true
		case u.Info()&types.IsString != 0:
			return "String", true
		case u.Info()&types.IsFloat != 0:
			return "Real", true
		}
		return "Int", true
	case *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return "Int", true
	case *types.Pointer:
		return "Int", true
	case *types.TypeParam:
		return "Int", true
	}
	return "", false
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func sliceElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	unsup("sliceElem of %s", t)
	return nil
}

// freshVal makes an unconstrained value of type t; facts are appended to st.pc.
func (st *State) freshVal(name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		id, n, c := Fresh(name+".id", "Int"), Fresh(name+".len", "Int"), Fresh(name+".cap", "Int")
		v := Val{K: VSlice, T: t, t: id, off: I(0), n: n, cap: c}
		st.wf(v)
		return v
	case *types.Array:
		es, ok := scalarSort(u.Elem())
		if !ok {
			unsup("array of %s", u.Elem())
		}
		return Val{K: VArr, T: t, t: Fresh(name, ArrSort("Int", es))}
	case *types.Signature:
		return Val{K: VFunc, T: t, fn: &Closure{opaque: name}, t: Fresh(name, "Int")}
	case *types.Pointer:
		v := Val{K: VPtr, T: t, t: Fresh(name, "Int")}
		st.wf(v)
		return v
	case *types.Tuple:
		v := Val{K: VTuple, T: t}
		for i := 0; i < u.Len(); i++ {
			v.f = append(v.f, st.freshVal(fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return v
	}
	if fs, ok := structFields(t); ok {
		v := Val{K: VStruct, T: t}
		for _, f := range fs {
			v.f = append(v.f, st.freshVal(name+"."+f.name, f.typ))
		}
		return v
	}
	s, ok := scalarSort(t)
	if !ok {
		unsup("freshVal %s", t)
	}
	v := Val{K: VScalar, T: t, t: Fresh(name, s)}
	st.wf(v)
	return v
}

// wf assumes the type invariants of a value obtained from outside.
func (st *State) wf(v Val) {
	switch v.K {
	case VSlice:
		if v.t.kind == kInt && v.n.kind == kInt {
			return
		}
		st.assume(And(Le(I(0), v.n), Le(v.n, v.cap), Le(I(0), v.t), st.allocated(v.t), Implies(Eq(v.t, I(0)), Eq(v.cap, I(0)))))
		if v.off != I(0) {
			st.assume(Le(I(0), v.off))
		}
	case VPtr:
		if v.loc != nil || v.t.kind == kInt {
			return
		}
		el := v.T.Underlying().(*types.Pointer).Elem()
		st.assume(st.allocated(v.t))
		if n, ok := types.Unalias(el).(*types.Named); ok {
			if typeKey(n) != "build.Comments" && typeKey(n) != "build.End" {
				st.assume(And(Le(I(0), v.t), Implies(Not(Eq(v.t, I(0))), Eq(mk("Int", "typeof", v.t), st.x.w.Tag(n)))))
			}
		} else {
			st.assume(Le(I(0), v.t))
		}
	case VScalar:
		if v.t.kind == kInt || v.t.sort != "Int" {
			return
		}
		switch u := v.T.Underlying().(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.Uint8:
				st.assume(And(Le(I(0), v.t), Le(v.t, I(255))))
			case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
				st.assume(Le(I(0), v.t))
			}
		case *types.Interface, *types.Map:
			st.assume(And(Le(I(0), v.t), st.allocated(v.t)))
		}
	case VStruct:
		for _, f := range v.f {
			st.wf(f)
		}
	}
}

// allocated says that a reference read from the heap exists. One read from a part of the heap that has not
// changed since entry existed at entry.
func (st *State) allocated(t *Term) *Term {
	now := Lt(t, st.alloc)
	a0 := Var("alloc0", "Int")
	if st.alloc == a0 {
		return now
	}
	var path []*Term
	r := t
	for r.kind == kApp && (r.op == "select" || r.op == "store") {
		if r.op == "select" {
			path = append(path, r.args[1])
		}
		r = r.args[0]
	}
	if r.kind != kVar || len(path) == 0 {
		return now
	}
	if !strings.HasPrefix(r.op, "H$") {
		// a part of the heap that a loop or call may have changed: speak of the same place at entry (which is known to
		// be unchanged where a frame says so)
		var r0 *Term
		for k, h := range st.heap {
			for h.kind == kApp && h.op == "store" {
				h = h.args[0]
			}
			if h == r {
				r0 = st.x.initHeap[k]
			}
		}
		if r0 == nil || r0.sort != r.sort || !strings.HasPrefix(r0.op, "H$") {
			return now
		}
		r = r0
	}
	base, dom := r, tTrue
	for i := len(path) - 1; i >= 0; i-- {
		if base.sort == r.sort && path[i].sort == "Int" {
			dom = Lt(path[i], a0)
		}
		base = Select(base, path[i])
	}
	if base.sort != "Int" {
		return now
	}
	return And(now, Implies(dom, Lt(base, a0)))
}

func (st *State) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return Val{K: VSlice, T: t, t: I(0), off: I(0), n: I(0), cap: I(0)}
	case *types.Array:
		es, ok := scalarSort(u.Elem())
		if !ok {
			unsup("array of %s", u.Elem())
		}
		return Val{K: VArr, T: t, t: ConstArr(ArrSort("Int", es), zeroScalar(es))}
	case *types.Signature:
		return Val{K: VFunc, T: t, fn: nil, t: I(0)}
	case *types.Pointer:
		return Val{K: VPtr, T: t, t: I(0)}
	}
	if fs, ok := structFields(t); ok {
		v := Val{K: VStruct, T: t}
		for _, f := range fs {
			v.f = append(v.f, st.zero(f.typ))
		}
		return v
	}
	s, ok := scalarSort(t)
	if !ok {
		unsup("zero %s", t)
	}
	return Val{K: VScalar, T: t, t: zeroScalar(s)}
}

func zeroScalar(s string) *Term {
	switch s {
	case "Int":
		return I(0)
	case "Bool":
		return tFalse
	case "String":
		return S("")
	case "Real":
		return mk("Real", "0.0")
	}
	unsup("zeroScalar %s", s)
	return nil
}

// terms of a value (leaf list) in canonical order.
func (v Val) leaves() []*Term {
	switch v.K {
	case VScalar, VArr, VFunc:
		if v.t == nil {
			return []*Term{I(0)}
		}
		return []*Term{v.t}
	case VPtr:
		if v.loc != nil {
			unsup("interior pointer stored")
		}
		return []*Term{v.t}
	case VSlice:
		return []*Term{v.t, v.off, v.n, v.cap}
	case VStruct, VTuple:
		var out []*Term
		for _, f := range v.f {
			out = append(out, f.leaves()...)
		}
		return out
	case VNil:
		return []*Term{I(0)}
	}
	unsup("leaves %d", v.K)
	return nil
}

// ---- heap locations -------------------------------------------------------

func isEmbeddable(t types.Type) bool {
	k := typeKey(t)
	return k == "build.Comments" || k == "build.End"
}

func heapArr(st *State, key, idxSort, sort string) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	var h *Term
	if strings.HasSuffix(key, ".off") && (strings.HasPrefix(key, "f:") || strings.HasPrefix(key, "c:")) {
		h = ConstArr(sort, I(0))
	} else if strings.HasSuffix(key, ".off") {
		h = ConstArr(sort, ConstArr(elemSort(sort), I(0)))
	} else {
		gen := st.gen
		if strings.HasPrefix(key, "g:") {
			gen = "" // ghost variables survive what code may do to the heap
		}
		h = Var("H"+gen+"$"+key, sort)
	}
	// the initial heap is shared by all states
	st.x.initHeap[key] = h
	st.heap[key] = h
	return h
}

// rd reads a scalar leaf from the heap.
func (st *State) rd(l *Loc, suffix, sort string) *Term {
	key := l.key + suffix
	if l.kind == LHeap {
		return Select(heapArr(st, key, "Int", ArrSort("Int", sort)), l.ref)
	}
	return Select(Select(heapArr(st, key, "Int", ArrSort("Int", ArrSort("Int", sort))), l.ref), l.idx)
}

func (st *State) wr(l *Loc, suffix, sort string, v *Term) {
	key := l.key + suffix
	st.touched(key)
	if l.kind == LHeap {
		h := heapArr(st, key, "Int", ArrSort("Int", sort))
		st.heap[key] = Store(h, l.ref, v)
		return
	}
	h := heapArr(st, key, "Int", ArrSort("Int", ArrSort("Int", sort)))
	st.heap[key] = Store(h, l.ref, Store(Select(h, l.ref), l.idx, v))
}

// field steps from a heap/elem/local location into field i.
func (st *State) field(l *Loc, i int) *Loc {
	fs, ok := structFields(l.typ)
	if !ok {
		unsup("field of %s", l.typ)
	}
	f := fs[i]
	n := *l
	n.typ = f.typ
	switch l.kind {
	case LLocal:
		n.path = append(append([]int{}, l.path...), i)
	case LHeap:
		if f.emb && isEmbeddable(f.typ) {
			root := typeKey(l.typ)
			n.key = "f:" + typeKey(f.typ)
			if strings.Count(l.key, ".") == strings.Count("f:"+root, ".") && l.key == "f:"+root && !isEmbeddable(l.typ) {
				// same reference
			} else {
				n.ref = mk("Int", "emb", S(l.key), l.ref)
				st.assume(And(Lt(n.ref, I(0)), Eq(mk("Int", "embinv", n.ref), l.ref)))
			}
			return &n
		}
		n.key = l.key + "." + f.name
	case LElem:
		n.key = l.key + "." + f.name
	}
	return &n
}

func (st *State) load(l *Loc) Val {
	if l.kind == LLocal {
		v, ok := st.env[l.obj]
		if !ok {
			unsup("unbound variable %s", l.obj.Name())
		}
		for _, i := range l.path {
			v = v.f[i]
		}
		return v
	}
	t := l.typ
	switch t.Underlying().(type) {
	case *types.Slice:
		v := Val{K: VSlice, T: t, t: st.rd(l, ".id", "Int"), off: st.rd(l, ".off", "Int"), n: st.rd(l, ".len", "Int"), cap: st.rd(l, ".cap", "Int")}
		st.wf(v)
		return v
	case *types.Array:
		unsup("array in heap")
	case *types.Pointer:
		v := Val{K: VPtr, T: t, t: st.rd(l, "", "Int")}
		st.wf(v)
		return v
	case *types.Signature:
		r := st.rd(l, "", "Int")
		if r.kind == kApp && strings.HasPrefix(strings.Trim(r.op, "|"), "fn$") {
			if fd := st.x.w.ByName[strings.TrimPrefix(strings.Trim(r.op, "|"), "fn$")]; fd != nil {
				return Val{K: VFunc, T: t, fn: &Closure{fobj: fd.Obj}, t: r}
			}
		}
		return Val{K: VFunc, T: t, fn: &Closure{opaque: l.key}, t: r}
	}
	if fs, ok := structFields(t); ok {
		v := Val{K: VStruct, T: t}
		for i := range fs {
			v.f = append(v.f, st.load(st.field(l, i)))
		}
		return v
	}
	s, ok := scalarSort(t)
	if !ok {
		unsup("load %s", t)
	}
	v := Val{K: VScalar, T: t, t: st.rd(l, "", s)}
	st.wf(v)
	return v
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	r := v
	r.f = append([]Val{}, v.f...)
	r.f[path[0]] = setPath(v.f[path[0]], path[1:], nv)
	return r
}

func (st *State) store(l *Loc, v Val) {
	if l.kind == LLocal {
		if len(l.path) == 0 {
			st.env[l.obj] = v
			return
		}
		st.env[l.obj] = setPath(st.env[l.obj], l.path, v)
		return
	}
	switch v.K {
	case VSlice:
		st.wr(l, ".id", "Int", v.t)
		st.wr(l, ".off", "Int", v.off)
		st.wr(l, ".len", "Int", v.n)
		st.wr(l, ".cap", "Int", v.cap)
		return
	case VStruct:
		for i := range v.f {
			st.store(st.field(l, i), v.f[i])
		}
		return
	case VPtr:
		if v.loc != nil {
			unsup("storing interior pointer in heap")
		}
	case VFunc:
		t := v.t
		if t == nil {
			t = Fresh("fn", "Int")
		}
		st.wr(l, "", "Int", t)
		return
	case VArr:
		unsup("array in heap")
	}
	st.wr(l, "", v.t.sort, v.t)
}

// heapKeys lists the heap keys (with sorts) of a location type.
func leafKeys(prefix string, t types.Type, elem bool, f func(key, sort string)) {
	switch t.Underlying().(type) {
	case *types.Slice:
		for _, s := range []string{".id", ".off", ".len", ".cap"} {
			f(prefix+s, "Int")
		}
		return
	}
	if fs, ok := structFields(t); ok {
		for _, fl := range fs {
			p := prefix + "." + fl.name
			if fl.emb && isEmbeddable(fl.typ) && !elem {
				p = "f:" + typeKey(fl.typ)
			}
			leafKeys(p, fl.typ, elem, f)
		}
		return
	}
	s, ok := scalarSort(t)
	if !ok {
		s = "Int"
	}
	f(prefix, s)
}

// ptrLoc returns the location a pointer refers to.
func (st *State) ptrLoc(v Val) *Loc {
	if v.loc != nil {
		return v.loc
	}
	el := v.T.Underlying().(*types.Pointer).Elem()
	if _, ok := structFields(el); ok {
		return &Loc{kind: LHeap, ref: v.t, key: "f:" + typeKey(el), typ: el}
	}
	return &Loc{kind: LHeap, ref: v.t, key: "c:" + typeKey(el), typ: el}
}

func elemLoc(v Val, i *Term) *Loc {
	el := sliceElem(v.T)
	return &Loc{kind: LElem, ref: v.t, idx: Add(v.off, i), key: "m:" + typeKey(el), typ: el}
}

func (st *State) newRef(t types.Type) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, I(1))
	if n, ok := types.Unalias(t).(*types.Named); ok {
		st.assume(Eq(mk("Int", "typeof", r), st.x.w.Tag(n)))
	}
	return r
}

// newObj allocates a heap object initialised with v.
func (st *State) newObj(v Val) Val {
	r := st.newRef(v.T)
	p := Val{K: VPtr, T: types.NewPointer(v.T), t: r}
	st.store(st.ptrLoc(p), v)
	return p
}

// newSlice allocates a backing array holding the given elements.
func (st *State) newSlice(t types.Type, elems []Val) Val {
	id := st.alloc
	st.alloc = Add(st.alloc, I(1))
	n := I(int64(len(elems)))
	v := Val{K: VSlice, T: t, t: id, off: I(0), n: n, cap: n}
	for i, e := range elems {
		st.store(elemLoc(v, I(int64(i))), e)
	}
	return v
}

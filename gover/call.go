package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (x *Exec) call(st *State, e *ast.CallExpr) []outV {
	in := x.info(st)
	// conversion
	if tv, ok := in.Types[e.Fun]; ok && tv.IsType() {
		var out []outV
		for _, o := range x.expr(st, e.Args[0]) {
			out = append(out, outV{o.st, x.conversion(o.st, o.v, tv.Type)})
		}
		return out
	}
	// builtin
	fun := ast.Unparen(e.Fun)
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := in.Uses[id].(*types.Builtin); ok {
			return x.builtin(st, e, b.Name())
		}
	}
	if ix, ok := fun.(*ast.IndexExpr); ok { // explicit instantiation
		if _, isF := in.TypeOf(ix.X).Underlying().(*types.Signature); isF {
			fun = ix.X
		}
	}
	// static callee?
	var fn *types.Func
	var recvExpr ast.Expr
	var sel *types.Selection
	switch f := fun.(type) {
	case *ast.Ident:
		fn, _ = in.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if s := in.Selections[f]; s != nil {
			if s.Kind() == types.MethodVal {
				fn = s.Obj().(*types.Func)
				recvExpr = f.X
				sel = s
			}
		} else {
			fn, _ = in.Uses[f.Sel].(*types.Func)
		}
	}
	if fn != nil {
		var out []outV
		if recvExpr == nil {
			for _, a := range x.args(st, e, fn.Type().(*types.Signature)) {
				out = append(out, x.callFunc(a.st, fn, nil, a.vs, e)...)
			}
			return out
		}
		for _, r := range x.receiver(st, recvExpr, sel, fn) {
			for _, a := range x.args(r.st, e, fn.Type().(*types.Signature)) {
				rv := r.v
				out = append(out, x.callFunc(a.st, fn, &rv, a.vs, e)...)
			}
		}
		return out
	}
	// function value
	var out []outV
	for _, f := range x.expr(st, e.Fun) {
		sig := in.TypeOf(e.Fun).Underlying().(*types.Signature)
		for _, a := range x.args(f.st, e, sig) {
			if f.v.fn == nil {
				unsup("call of nil function value")
			}
			out = append(out, x.callClosure(a.st, f.v.fn, a.vs, sig, e.Pos())...)
		}
	}
	return out
}

// receiver evaluates the receiver of a method call, taking addresses / dereferencing as needed.
func (x *Exec) receiver(st *State, e ast.Expr, sel *types.Selection, fn *types.Func) []outV {
	in := x.info(st)
	rt := fn.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.Underlying().(*types.Pointer)
	if _, isIface := rt.Underlying().(*types.Interface); isIface {
		wantPtr = false
	}
	bt := in.TypeOf(e)
	_, havePtr := bt.Underlying().(*types.Pointer)
	path := sel.Index()
	path = path[:len(path)-1]
	if len(path) == 0 && wantPtr == havePtr {
		return x.expr(st, e)
	}
	var out []outV
	if len(path) == 0 && !wantPtr && havePtr {
		for _, o := range x.expr(st, e) {
			x.nilCheck(o.st, o.v, e.Pos())
			out = append(out, outV{o.st, o.st.load(o.st.ptrLoc(o.v))})
		}
		return out
	}
	// need a location
	var locs []outL
	if havePtr {
		for _, o := range x.expr(st, e) {
			x.nilCheck(o.st, o.v, e.Pos())
			locs = append(locs, outL{o.st, o.st.ptrLoc(o.v)})
		}
	} else {
		locs = x.lvalOrTemp(st, e)
	}
	for _, l := range locs {
		loc := x.stepSel(l.st, l.loc, path, e.Pos())
		if !wantPtr {
			v := l.st.load(loc)
			if _, isPtr := v.T.Underlying().(*types.Pointer); isPtr && !types.Identical(v.T, rt) {
				v = l.st.load(l.st.ptrLoc(v))
			}
			out = append(out, outV{l.st, v})
			continue
		}
		if _, isPtr := loc.typ.Underlying().(*types.Pointer); isPtr {
			out = append(out, outV{l.st, l.st.load(loc)})
			continue
		}
		if loc.kind == LHeap && loc.key == "f:"+typeKey(loc.typ) {
			out = append(out, outV{l.st, Val{K: VPtr, T: types.NewPointer(loc.typ), t: loc.ref}})
		} else {
			out = append(out, outV{l.st, Val{K: VPtr, T: types.NewPointer(loc.typ), t: Fresh("addr", "Int"), loc: loc}})
		}
	}
	return out
}

// args evaluates call arguments (packing variadic ones).
func (x *Exec) args(st *State, e *ast.CallExpr, sig *types.Signature) []outVs {
	np := sig.Params().Len()
	conv := func(c *State, vs []Val) []Val {
		var out []Val
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == np-1 && e.Ellipsis == token.NoPos {
				el := pt.(*types.Slice).Elem()
				if len(vs) == i {
					out = append(out, c.zero(pt))
					continue
				}
				var els []Val
				for _, v := range vs[i:] {
					if v.loc != nil {
						v = Val{K: VScalar, T: el, t: Fresh("vararg", "Int")}
					}
					els = append(els, x.convert(c, v, el))
				}
				s := c.newSlice(pt, els)
				s.f = els // remembered for models
				out = append(out, s)
				continue
			}
			if _, isTP := pt.(*types.TypeParam); isTP {
				out = append(out, vs[i])
				continue
			}
			out = append(out, x.convertArg(c, vs[i], pt))
		}
		return out
	}
	if len(e.Args) == 1 && np > 1 {
		if tu, ok := x.info(st).TypeOf(e.Args[0]).(*types.Tuple); ok && tu.Len() == np {
			var out []outVs
			for _, o := range x.expr(st, e.Args[0]) {
				out = append(out, outVs{o.st, conv(o.st, o.v.f)})
			}
			return out
		}
	}
	var out []outVs
	for _, o := range x.exprs(st, e.Args...) {
		out = append(out, outVs{o.st, conv(o.st, o.vs)})
	}
	return out
}

func (x *Exec) convertArg(st *State, v Val, t types.Type) Val {
	return x.convert(st, v, t)
}

func (x *Exec) conversion(st *State, v Val, t types.Type) Val {
	if v.K == VNil {
		return st.zero(t)
	}
	from, to := v.T.Underlying(), t.Underlying()
	tb, _ := to.(*types.Basic)
	fb, _ := from.(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil && fb.Info()&types.IsString != 0 {
			v.T = t
			return v
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			// string(rune)
			r := mk("String", "utf8_encode", v.t)
			st.assume(Implies(And(Le(I(0), v.t), Lt(v.t, I(128))), Eq(r, mk("String", "str.from_code", v.t))))
			st.assume(Le(I(1), StrLen(r)))
			return Val{K: VScalar, T: t, t: r}
		}
		if v.K == VSlice { // []byte -> string
			arr := Select(heapArr(st, "m:"+typeKey(sliceElem(v.T)), "Int", ArrSort("Int", ArrSort("Int", "Int"))), v.t)
			fn := "arr2str"
			if typeKey(sliceElem(v.T)) != "uint8" {
				fn = "runes2str"
			}
			r := mk("String", fn, arr, v.off, v.n)
			if fn == "arr2str" {
				st.assume(Eq(StrLen(r), v.n))
				k := Var("?b", "Int")
				st.assume(Quant("forall", []*Term{k}, Implies(And(Le(I(0), k), Lt(k, v.n)), Eq(StrAt(r, k), Select(arr, Add(v.off, k)))), StrAt(r, k)))
			}
			return Val{K: VScalar, T: t, t: r}
		}
	}
	if _, ok := to.(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		el := typeKey(sliceElem(t))
		key := "m:" + el
		id := st.alloc
		st.alloc = Add(st.alloc, I(1))
		fn := "str2arr"
		n := StrLen(v.t)
		if el != "uint8" {
			fn = "str2runes"
			n = mk("Int", "runecount", v.t)
			st.assume(Le(I(0), n))
		}
		h := heapArr(st, key, "Int", ArrSort("Int", ArrSort("Int", "Int")))
		st.touched(key)
		st.heap[key] = Store(h, id, mk(ArrSort("Int", "Int"), fn, v.t))
		return Val{K: VSlice, T: t, t: id, off: I(0), n: n, cap: n}
	}
	if tb != nil && fb != nil {
		if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			r := v
			r.T = t
			if tb.Kind() == types.Uint8 && fb.Kind() != types.Uint8 {
				if v.t.kind == kInt {
					r.t = I(v.t.ival.Int64() & 255)
				} else {
					r.t = mk("Int", "mod", v.t, I(256))
				}
			}
			return r
		}
		if tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0 {
			return Val{K: VScalar, T: t, t: mk("Real", "to_real", v.t)}
		}
		if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0 {
			return Val{K: VScalar, T: t, t: Fresh("f2i", "Int")}
		}
	}
	return x.convert(st, v, t)
}

func (x *Exec) builtin(st *State, e *ast.CallExpr, name string) []outV {
	in := x.info(st)
	var out []outV
	switch name {
	case "len", "cap":
		for _, o := range x.expr(st, e.Args[0]) {
			out = append(out, outV{o.st, intV(x.lenOf(o.st, o.v, name == "cap"))})
		}
		return out
	case "append":
		st0 := in.TypeOf(e)
		if e.Ellipsis != token.NoPos {
			for _, o := range x.exprs(st, e.Args...) {
				s := x.convert(o.st, o.vs[0], st0)
				t := o.vs[1]
				if t.K == VScalar && t.t.sort == "String" {
					t = x.conversion(o.st, t, st0)
				}
				t = x.convert(o.st, t, st0)
				out = append(out, outV{o.st, x.appendSlice(o.st, s, t)})
			}
			return out
		}
		for _, o := range x.exprs(st, e.Args...) {
			s := x.convert(o.st, o.vs[0], st0)
			out = append(out, outV{o.st, x.appendElems(o.st, s, o.vs[1:])})
		}
		return out
	case "copy":
		for _, o := range x.exprs(st, e.Args...) {
			d, s := o.vs[0], o.vs[1]
			n := Ite(Le(d.n, s.n), d.n, s.n)
			x.copyRange(o.st, d, s, d.t, d.off, n)
			out = append(out, outV{o.st, intV(n)})
		}
		return out
	case "panic":
		for _, o := range x.expr(st, e.Args[0]) {
			if x.root == nil || !x.root.PanicOK {
				o.st.oblige("safety", "panic-unreachable", tFalse, e.Pos())
			}
		}
		return nil
	case "new":
		t := in.TypeOf(e.Args[0])
		v := st.newObj(st.zero(t))
		return []outV{{st, v}}
	case "make":
		t := in.TypeOf(e)
		switch t.Underlying().(type) {
		case *types.Map:
			return []outV{{st, x.newMap(st, t)}}
		case *types.Slice:
			for _, o := range x.exprs(st, e.Args[1:]...) {
				n := o.vs[0].t
				c := n
				if len(o.vs) > 1 {
					c = o.vs[1].t
				}
				o.st.oblige("safety", "make-len", And(Le(I(0), n), Le(n, c)), e.Pos())
				id := o.st.alloc
				o.st.alloc = Add(o.st.alloc, I(1))
				v := Val{K: VSlice, T: t, t: id, off: I(0), n: n, cap: c}
				el := sliceElem(t)
				leafKeys("m:"+typeKey(el), el, true, func(key, sort string) {
					h := heapArr(o.st, key, "Int", ArrSort("Int", ArrSort("Int", sort)))
					o.st.touched(key)
					o.st.heap[key] = Store(h, id, ConstArr(ArrSort("Int", sort), zeroScalar(sort)))
				})
				out = append(out, outV{o.st, v})
			}
			return out
		}
		return []outV{{st, Val{K: VScalar, T: t, t: Fresh("chan", "Int")}}}
	case "delete":
		for _, o := range x.exprs(st, e.Args...) {
			mt := o.vs[0].T.Underlying().(*types.Map)
			x.mapDelete(o.st, o.vs[0], x.convert(o.st, o.vs[1], mt.Key()))
			out = append(out, outV{o.st, intV(I(0))})
		}
		return out
	case "min", "max":
		for _, o := range x.exprs(st, e.Args...) {
			r := o.vs[0]
			for _, v := range o.vs[1:] {
				c := Le(r.t, v.t)
				if name == "max" {
					c = Le(v.t, r.t)
				}
				r.t = Ite(c, r.t, v.t)
			}
			out = append(out, outV{o.st, r})
		}
		return out
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) lenOf(st *State, v Val, isCap bool) *Term {
	switch v.K {
	case VSlice:
		if isCap {
			return v.cap
		}
		return v.n
	case VNil:
		return I(0)
	case VArr:
		return I(v.T.Underlying().(*types.Array).Len())
	case VScalar:
		if v.t.sort == "String" {
			return StrLen(v.t)
		}
		if mt, ok := v.T.Underlying().(*types.Map); ok {
			key := "map:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
			ks := keySortOf(mt.Key())
			d := Select(heapArr(st, key+".dom", "Int", ArrSort("Int", ArrSort(ks, "Bool"))), v.t)
			n := mk("Int", "card_"+ks, d)
			st.assume(Le(I(0), n))
			st.assume(Implies(Eq(v.t, I(0)), Eq(n, I(0))))
			// card = 0 iff empty
			k := Var("?ck", ks)
			emp := Quant("forall", []*Term{k}, Not(Select(d, k)))
			st.assume(mk("Bool", "=", Eq(n, I(0)), Or(Eq(v.t, I(0)), emp)))
			return Ite(Eq(v.t, I(0)), I(0), n)
		}
	}
	unsup("len of %v", v.T)
	return nil
}

// decided is true for a condition that the quantifier-free part of the path condition implies.
func (x *Exec) decided(st *State, c *Term) *Term {
	if c == tTrue || c == tFalse {
		return c
	}
	if x.asked == nil {
		x.asked = map[string]bool{}
	}
	q := x.query(ground(st.pc), c)
	r, ok := x.asked[q]
	if !ok {
		r = Solve(q, 500, []string{"z3-new"}, false).Status == "unsat"
		x.asked[q] = r
	}
	if r {
		return tTrue
	}
	return c
}

func (x *Exec) appendElems(st *State, s Val, elems []Val) Val {
	el := sliceElem(s.T)
	k := I(int64(len(elems)))
	n := Add(s.n, k)
	if len(elems) == 0 {
		return s
	}
	inplace := x.decided(st, Le(n, s.cap))
	fresh := st.alloc
	st.alloc = Add(st.alloc, I(1))
	id := Ite(inplace, s.t, fresh)
	ncap := Ite(inplace, s.cap, n)
	if inplace != tTrue && inplace != tFalse {
		// new capacity is unspecified beyond being sufficient
		c := Fresh("cap", "Int")
		st.assume(Le(n, c))
		ncap = Ite(inplace, s.cap, c)
	} else if inplace == tFalse {
		c := Fresh("cap", "Int")
		st.assume(Le(n, c))
		ncap = c
	}
	r := Val{K: VSlice, T: s.T, t: id, off: s.off, n: n, cap: ncap}
	// copy old contents to the new backing (same offsets)
	leafKeys("m:"+typeKey(el), el, true, func(key, sort string) {
		h := heapArr(st, key, "Int", ArrSort("Int", ArrSort("Int", sort)))
		if inplace == tTrue {
			return
		}
		st.touched(key)
		if s.n == I(0) && inplace == tFalse {
			return
		}
		st.heap[key] = Store(h, id, Select(h, s.t))
	})
	for i, e := range elems {
		st.store(elemLoc(r, Add(s.n, I(int64(i)))), x.convert(st, e, el))
	}
	return r
}

func (x *Exec) appendSlice(st *State, s, t Val) Val {
	if t.K == VNil {
		return s
	}
	if t.n.kind == kInt && t.n.ival.Int64() <= 8 {
		var els []Val
		for i := int64(0); i < t.n.ival.Int64(); i++ {
			els = append(els, st.load(elemLoc(t, I(i))))
		}
		return x.appendElems(st, s, els)
	}
	n := Add(s.n, t.n)
	inplace := x.decided(st, Le(n, s.cap))
	fresh := st.alloc
	st.alloc = Add(st.alloc, I(1))
	id := Ite(inplace, s.t, fresh)
	c := Fresh("cap", "Int")
	st.assume(Le(n, c))
	r := Val{K: VSlice, T: s.T, t: id, off: s.off, n: n, cap: Ite(inplace, s.cap, c)}
	x.copyRange(st, s, t, id, Add(s.off, s.n), t.n)
	return r
}

// copyRange sets backing(id) := backing(dst) with [doff,doff+n) replaced by src's first n elements.
func (x *Exec) copyRange(st *State, dst, src Val, id, doff, n *Term) {
	el := sliceElem(dst.T)
	leafKeys("m:"+typeKey(el), el, true, func(key, sort string) {
		h := heapArr(st, key, "Int", ArrSort("Int", ArrSort("Int", sort)))
		st.touched(key)
		a := mk(ArrSort("Int", sort), "acopy_"+sort, Select(h, dst.t), doff, Select(h, src.t), src.off, n)
		st.heap[key] = Store(h, id, a)
	})
}

// ---- calls of functions ---------------------------------------------------

func (x *Exec) callClosure(st *State, c *Closure, args []Val, sig *types.Signature, p token.Pos) []outV {
	if c.fobj != nil {
		return x.callFunc(st, c.fobj, c.recv, args, nil)
	}
	if c.opaque != "" {
		return x.callOpaque(st, c, args, sig, p)
	}
	lsig := c.pkg.Info.TypeOf(c.lit).(*types.Signature)
	x.closureDepth++
	if x.closureDepth > 12 {
		unsup("recursive closure")
	}
	defer func() { x.closureDepth-- }()
	return x.inlineBody(st, c.pkg, c.lit.Type, nil, c.lit.Body, lsig, nil, args, "func literal")
}

func (x *Exec) callOpaque(st *State, c *Closure, args []Val, sig *types.Signature, p token.Pos) []outV {
	name := c.opaque
	ct := x.root.Callbacks[name]
	if ct == nil {
		ct = x.root.Callbacks["*"]
	}
	if ct == nil {
		// unknown function value: everything may change
		x.havocAll(st)
		x.note("calls of unknown function values may change the whole heap")
	} else {
		if ct.Records != "" {
			x.record(st, ct.Records, ct.Replaces, args)
		}
		x.applyHavoc(st, ct, nil)
	}
	return []outV{{st, x.resultVal(st, sig, "cb")}}
}

// record notes what a callback is called with: the value its first argument points to goes to the ghost sequence
// gs:NAME, at the index that the ghost variable g:NAME counts.
// With a second name the callback may leave another node there, which goes to that ghost sequence. A replacement of a
// node that the code keeps in a local variable for the call is of the same type as the node (an assumption).
func (x *Exec) record(st *State, name, repl string, args []Val) {
	if len(args) == 0 || args[0].K != VPtr {
		unsup("recorded callback without pointer argument")
	}
	l := st.ptrLoc(args[0])
	v := st.load(l)
	if v.t == nil || v.t.sort != "Int" {
		unsup("recorded callback: no reference")
	}
	cl := &Loc{kind: LHeap, ref: I(0), key: "g:" + name, typ: tInt}
	n := st.rd(cl, "", "Int")
	st.wr(&Loc{kind: LHeap, ref: n, key: "gs:" + name, typ: tInt}, "", "Int", v.t)
	st.wr(cl, "", "Int", Add(n, I(1)))
	if repl == "" {
		return
	}
	na := Fresh("alloc", "Int")
	st.assume(Le(st.alloc, na))
	st.alloc = na
	nv := st.freshVal("given", l.typ)
	st.assume(Eq(Eq(v.t, I(0)), Eq(nv.t, I(0))))
	if l.kind == LLocal {
		st.assume(Eq(mk("Int", "typeof", nv.t), mk("Int", "typeof", v.t)))
		x.note("a callback replaces dictionary entries and the parts of load statements by nodes of the same type")
	}
	st.wr(&Loc{kind: LHeap, ref: n, key: "gs:" + repl, typ: tInt}, "", "Int", nv.t)
	st.store(l, nv)
}

func (x *Exec) resultVal(st *State, sig *types.Signature, name string) Val {
	switch sig.Results().Len() {
	case 0:
		return intV(I(0))
	case 1:
		return st.freshVal(name, sig.Results().At(0).Type())
	}
	return st.freshVal(name, sig.Results())
}

func (x *Exec) havocAll(st *State) {
	x.genN++
	st.gen = fmt.Sprint(x.genN)
	for k := range st.heap {
		st.touched(k)
	}
	ghosts := map[string]*Term{}
	for k, v := range st.heap {
		if strings.HasPrefix(k, "g:") {
			ghosts[k] = v
		}
	}
	st.heap = map[string]*Term{}
	for k, v := range ghosts {
		st.heap[k] = v
	}
	na := Fresh("alloc", "Int")
	st.assume(Le(st.alloc, na))
	st.alloc = na
	st.touched("*")
}

func (x *Exec) callFunc(st *State, fn *types.Func, recv *Val, args []Val, e *ast.CallExpr) []outV {
	pos := token.NoPos
	if e != nil {
		pos = e.Pos()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := funcName(fn)
	sig := fn.Type().(*types.Signature)
	if ct := x.cs.ByFunc[name]; ct != nil && !ct.Inline && !(x.root != nil && x.root.InlineSet[name]) {
		return x.callContract(st, ct, fn, sig, recv, args, pos)
	}
	if r := sig.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Interface); ok {
			if o, ok := x.ifaceMethod(st, fn, *recv, args, pos); ok {
				return o
			}
			if recv.K == VPtr { // statically known dynamic type
			}
			unsup("interface method %s", name)
		}
	}
	if out, ok := x.model(st, name, fn, recv, args, e); ok {
		return out
	}
	fd := x.w.Funcs[fn]
	if fd == nil || fd.Decl.Body == nil {
		unsup("no contract, model or body for %s", name)
	}
	for _, s := range x.stack {
		if s == fn {
			unsup("recursive call of %s without contract", name)
		}
	}
	if len(x.stack) > 14 {
		unsup("inlining too deep at %s", name)
	}
	x.inlined[name] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	outs := x.inlineBody(st, fd.Pkg, fd.Decl.Type, fd.Decl.Recv, fd.Decl.Body, sig, recv, args, name)
	return x.mergeOuts(outs)
}

func (x *Exec) mergeOuts(outs []outV) []outV {
	if len(outs) < 2 || x.root == nil || x.root.NoMergeCalls || x.closed > 0 {
		return outs
	}
	cur := outs[0]
	for _, o := range outs[1:] {
		a, b := cur.st, o.st
		if a.flow != FNormal || b.flow != FNormal {
			return outs
		}
		// carry the value through the state
		ra, rb := a.ret, b.ret
		a.ret, b.ret = []Val{cur.v}, []Val{o.v}
		m, ok := x.merge2(a, b)
		a.ret, b.ret = ra, rb
		if !ok {
			return outs
		}
		v := m.ret[0]
		m.ret = ra
		cur = outV{m, v}
	}
	return []outV{cur}
}

func (x *Exec) inlineBody(st *State, pkg *Pkg, ft *ast.FuncType, recvF *ast.FieldList, body *ast.BlockStmt, sig *types.Signature, recv *Val, args []Val, name string) []outV {
	caller := st.fr
	fr := &Frame{pkg: pkg, sig: sig, parent: caller, fn: name}
	st.fr = fr
	st.defs = append(st.defs, nil)
	if recvF != nil && recv != nil && len(recvF.List[0].Names) > 0 {
		x.declare(st, pkg.Info.Defs[recvF.List[0].Names[0]], *recv)
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
		}
		for _, n := range f.Names {
			if n.Name != "_" {
				o := pkg.Info.Defs[n]
				if args[i].loc != nil {
					st.env[o] = args[i]
				} else {
					x.declare(st, o, args[i])
				}
			}
			i++
		}
	}
	x.bindResults(st, fr, ft, sig)
	sts := x.block(st, body.List)
	var out []outV
	for _, s := range sts {
		for _, r := range x.finish(s) {
			v := intV(I(0))
			switch len(r.ret) {
			case 0:
			case 1:
				v = r.ret[0]
			default:
				v = Val{K: VTuple, f: r.ret}
			}
			r.fr = caller
			r.ret = nil
			if r.flow != FPanic {
				r.flow = FNormal
			}
			out = append(out, outV{r, v})
		}
	}
	return out
}

func (x *Exec) bindResults(st *State, fr *Frame, ft *ast.FuncType, sig *types.Signature) {
	fr.results = make([]types.Object, sig.Results().Len())
	k := 0
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			if len(f.Names) == 0 {
				k++
			}
			for _, n := range f.Names {
				if n.Name != "_" {
					o := fr.pkg.Info.Defs[n]
					fr.results[k] = o
					x.declare(st, o, st.zero(o.Type()))
				}
				k++
			}
		}
	}
}

// finish runs the deferred calls of the top frame and pops it.
func (x *Exec) finish(st *State) []*State {
	n := len(st.defs) - 1
	ds := st.defs[n]
	cur := []*State{st}
	flow := st.flow
	for i := len(ds) - 1; i >= 0; i-- {
		var nx []*State
		for _, s := range cur {
			s.flow = FNormal
			ret := s.ret
			for _, r := range ds[i].run(s) {
				r.ret = ret
				nx = append(nx, r)
			}
		}
		cur = nx
	}
	for _, s := range cur {
		s.flow = flow
		s.defs = s.defs[:n]
		// deferred calls may have changed named results
		if len(ds) > 0 && flow == FReturn {
			for i, o := range s.fr.results {
				if o != nil && i < len(s.ret) {
					s.ret[i] = x.readVar(s, o)
				}
			}
		}
	}
	return cur
}

func (x *Exec) ifaceMethod(st *State, fn *types.Func, recv Val, args []Val, pos token.Pos) ([]outV, bool) {
	sig := fn.Type().(*types.Signature)
	switch fn.Name() {
	case "Comment":
		ct := x.w.Pkgs[modPath+"/build"].Types.Scope().Lookup("Comments").Type()
		x.nilCheck(st, recv, pos)
		return []outV{{st, Val{K: VPtr, T: types.NewPointer(ct), t: recv.t}}}, true
	case "Span":
		x.nilCheck(st, recv, pos)
		x.trusted["model: Expr.Span is a pure observer"] = true
		v := st.freshVal("span", sig.Results())
		return []outV{{st, v}}, true
	case "Error", "String":
		return []outV{{st, strV(mk("String", "iface_"+fn.Name(), recv.t))}}, true
	}
	return nil, false
}

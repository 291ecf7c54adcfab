package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type outV struct {
	st *State
	v  Val
}
type outVs struct {
	st *State
	vs []Val
}
type outL struct {
	st  *State
	loc *Loc
}

func (x *Exec) exprs(st *State, es ...ast.Expr) []outVs {
	cur := []outVs{{st, nil}}
	for _, e := range es {
		var nx []outVs
		for _, c := range cur {
			for _, o := range x.expr(c.st, e) {
				nx = append(nx, outVs{o.st, append(append([]Val{}, c.vs...), o.v)})
			}
		}
		cur = nx
	}
	return cur
}

// exprN evaluates a multi-value expression (call, map index, type assertion, receive).
func (x *Exec) exprN(st *State, e ast.Expr, n int) []outV {
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.IndexExpr:
		if mt, ok := x.info(st).TypeOf(e.X).Underlying().(*types.Map); ok {
			var out []outV
			for _, o := range x.exprs(st, e.X, e.Index) {
				k := x.convert(o.st, o.vs[1], mt.Key())
				dom, val := x.mapLoad(o.st, o.vs[0], k)
				out = append(out, outV{o.st, Val{K: VTuple, f: []Val{val, boolV(dom)}}})
			}
			return out
		}
	case *ast.TypeAssertExpr:
		t := x.info(st).TypeOf(e.Type)
		if tt, ok := x.info(st).Types[e]; ok {
			if tu, ok := tt.Type.(*types.Tuple); ok {
				t = tu.At(0).Type()
			}
		}
		var out []outV
		for _, o := range x.expr(st, e.X) {
			if _, isIface := t.Underlying().(*types.Interface); isIface {
				ok := Fresh("ok", "Bool")
				o.st.assume(Implies(ok, Not(Eq(o.v.t, I(0)))))
				out = append(out, outV{o.st, Val{K: VTuple, f: []Val{{K: VScalar, T: t, t: Ite(ok, o.v.t, I(0))}, boolV(ok)}}})
				continue
			}
			test := x.typeTest(o.st, o.v, t)
			for _, b := range x.split(o.st, test) {
				if b.val {
					out = append(out, outV{b.st, Val{K: VTuple, f: []Val{x.castTo(b.st, o.v, t), boolV(tTrue)}}})
				} else {
					out = append(out, outV{b.st, Val{K: VTuple, f: []Val{b.st.zero(t), boolV(tFalse)}}})
				}
			}
		}
		return out
	case *ast.CallExpr:
		return x.expr(st, e)
	}
	unsup("multi-value %T", e)
	return nil
}

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]

func boolV(t *Term) Val { return Val{K: VScalar, T: tBool, t: t} }
func intV(t *Term) Val  { return Val{K: VScalar, T: tInt, t: t} }
func strV(t *Term) Val  { return Val{K: VScalar, T: tString, t: t} }

func (x *Exec) nilCheck(st *State, v Val, p token.Pos) {
	if v.loc != nil {
		return
	}
	if v.t.kind == kInt && v.t.ival.Sign() > 0 {
		return
	}
	if x.root != nil && x.root.NilOK {
		st.assume(Not(Eq(v.t, I(0))))
		return
	}
	st.oblige("safety", "nil-deref", Not(Eq(v.t, I(0))), p)
}

func (x *Exec) lval(st *State, e ast.Expr) []outL {
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.Ident:
		o := x.objOf(st, e)
		if v, ok := st.env[o]; ok {
			if v.K == VPtr && v.cap == I(-1) {
				return []outL{{st, st.ptrLoc(v)}}
			}
			return []outL{{st, &Loc{kind: LLocal, obj: o, typ: o.Type()}}}
		}
		if vr, ok := o.(*types.Var); ok && vr.Parent() == vr.Pkg().Scope() {
			return []outL{{st, globalLoc(vr)}}
		}
		unsup("lval ident %s", e.Name)
	case *ast.SelectorExpr:
		in := x.info(st)
		sel := in.Selections[e]
		if sel == nil {
			// package-qualified variable
			if vr, ok := in.Uses[e.Sel].(*types.Var); ok {
				return []outL{{st, globalLoc(vr)}}
			}
			unsup("selector")
		}
		var out []outL
		bt := in.TypeOf(e.X)
		if _, isPtr := bt.Underlying().(*types.Pointer); isPtr {
			for _, o := range x.expr(st, e.X) {
				x.nilCheck(o.st, o.v, e.Pos())
				l := o.st.ptrLoc(o.v)
				out = append(out, outL{o.st, x.stepSel(o.st, l, sel.Index(), e.Pos())})
			}
			return out
		}
		for _, o := range x.lvalOrTemp(st, e.X) {
			out = append(out, outL{o.st, x.stepSel(o.st, o.loc, sel.Index(), e.Pos())})
		}
		return out
	case *ast.StarExpr:
		var out []outL
		for _, o := range x.expr(st, e.X) {
			x.nilCheck(o.st, o.v, e.Pos())
			out = append(out, outL{o.st, o.st.ptrLoc(o.v)})
		}
		return out
	case *ast.IndexExpr:
		in := x.info(st)
		bt := in.TypeOf(e.X)
		var out []outL
		switch bt.Underlying().(type) {
		case *types.Slice:
			for _, o := range x.exprs(st, e.X, e.Index) {
				i := o.vs[1].t
				o.st.oblige("safety", "index-bounds", And(Le(I(0), i), Lt(i, o.vs[0].n)), e.Pos())
				out = append(out, outL{o.st, elemLoc(o.vs[0], i)})
			}
			return out
		}
		unsup("lval index %s", bt)
	}
	unsup("lval %T", e)
	return nil
}

func (x *Exec) lvalOrTemp(st *State, e ast.Expr) []outL {
	switch ast.Unparen(e).(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if tv := x.info(st).Types[e]; tv.Addressable() {
			return x.lval(st, e)
		}
	}
	var out []outL
	for _, o := range x.expr(st, e) {
		tmp := types.NewVar(token.NoPos, nil, "tmp", o.v.T)
		o.st.env[tmp] = o.v
		out = append(out, outL{o.st, &Loc{kind: LLocal, obj: tmp, typ: o.v.T}})
	}
	return out
}

func globalLoc(v *types.Var) *Loc {
	return &Loc{kind: LHeap, ref: I(0), key: "v:" + shortPkg(v.Pkg().Path()) + "." + v.Name(), typ: v.Type()}
}

func (x *Exec) stepSel(st *State, l *Loc, index []int, p token.Pos) *Loc {
	for _, i := range index {
		if _, ok := l.typ.Underlying().(*types.Pointer); ok {
			v := st.load(l)
			x.nilCheck(st, v, p)
			l = st.ptrLoc(v)
		}
		l = st.field(l, i)
	}
	return l
}

func (x *Exec) expr(st *State, e ast.Expr) []outV {
	in := x.info(st)
	if tv, ok := in.Types[e]; ok && tv.Value != nil {
		t := tv.Type
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		return []outV{{st, x.constVal(t, tv.Value)}}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.expr(st, e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			if _, ok := in.Uses[e].(*types.Nil); ok {
				t := in.TypeOf(e)
				return []outV{{st, Val{K: VNil, T: t, t: I(0)}}}
			}
		}
		switch o := x.objOf(st, e).(type) {
		case *types.Func:
			return []outV{{st, Val{K: VFunc, T: o.Type(), fn: &Closure{fobj: o}, t: x.funcRef(o)}}}
		case *types.Var:
			if _, ok := st.env[o]; ok {
				return []outV{{st, x.readVar(st, o)}}
			}
			if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				return []outV{{st, x.globalVal(st, o)}}
			}
			unsup("unbound %s", e.Name)
		}
		unsup("ident %s", e.Name)
	case *ast.BasicLit:
		unsup("literal")
	case *ast.FuncLit:
		return []outV{{st, Val{K: VFunc, T: in.TypeOf(e), fn: &Closure{lit: e, pkg: st.fr.pkg}, t: Fresh("fn", "Int")}}}
	case *ast.CompositeLit:
		return x.composite(st, e, in.TypeOf(e))
	case *ast.SelectorExpr:
		sel := in.Selections[e]
		if sel == nil {
			switch o := in.Uses[e.Sel].(type) {
			case *types.Var:
				return []outV{{st, x.globalVal(st, o)}}
			case *types.Func:
				return []outV{{st, Val{K: VFunc, T: o.Type(), fn: &Closure{fobj: o}, t: x.funcRef(o)}}}
			}
			unsup("qualified %s", e.Sel.Name)
		}
		if sel.Kind() == types.MethodVal {
			var out []outV
			fn := sel.Obj().(*types.Func)
			for _, o := range x.expr(st, e.X) {
				r := o.v
				out = append(out, outV{o.st, Val{K: VFunc, T: in.TypeOf(e), fn: &Closure{fobj: fn, recv: &r}, t: Fresh("fn", "Int")}})
			}
			return out
		}
		var out []outV
		bt := in.TypeOf(e.X)
		if _, isPtr := bt.Underlying().(*types.Pointer); isPtr || in.Types[e.X].Addressable() {
			for _, l := range x.lval(st, e) {
				out = append(out, outV{l.st, l.st.load(l.loc)})
			}
			return out
		}
		for _, o := range x.expr(st, e.X) {
			tmp := types.NewVar(token.NoPos, nil, "tmp", o.v.T)
			o.st.env[tmp] = o.v
			l := x.stepSel(o.st, &Loc{kind: LLocal, obj: tmp, typ: o.v.T}, sel.Index(), e.Pos())
			v := o.st.load(l)
			delete(o.st.env, tmp)
			out = append(out, outV{o.st, v})
		}
		return out
	case *ast.StarExpr:
		var out []outV
		for _, l := range x.lval(st, e) {
			out = append(out, outV{l.st, l.st.load(l.loc)})
		}
		return out
	case *ast.UnaryExpr:
		return x.unary(st, e)
	case *ast.BinaryExpr:
		return x.binary(st, e)
	case *ast.IndexExpr:
		return x.index(st, e)
	case *ast.SliceExpr:
		return x.sliceExpr(st, e)
	case *ast.TypeAssertExpr:
		t := in.TypeOf(e.Type)
		var out []outV
		for _, o := range x.expr(st, e.X) {
			test := x.typeTest(o.st, o.v, t)
			if x.root != nil && x.root.NilOK {
				o.st.assume(test)
			} else {
				o.st.oblige("safety", "type-assertion", test, e.Pos())
			}
			out = append(out, outV{o.st, x.castTo(o.st, o.v, t)})
		}
		return out
	case *ast.CallExpr:
		return x.call(st, e)
	}
	unsup("expr %T", e)
	return nil
}

func (x *Exec) funcRef(o *types.Func) *Term {
	return mk("Int", symName("fn$"+funcName(o)))
}

// globalVal reads a package-level variable: the initialiser if the variable is never assigned in the
// module, else the heap cell.
func (x *Exec) globalVal(st *State, o *types.Var) Val {
	if v, ok := st.env[o]; ok {
		return v
	}
	if init, ok := x.w.Vars[o]; ok && !x.w.mutable(o) {
		switch o.Type().Underlying().(type) {
		case *types.Array, *types.Basic, *types.Slice:
			x.note("package-level " + o.Pkg().Name() + "." + o.Name() + " is never assigned, so it keeps its initial value")
			fr := &Frame{pkg: x.w.VarPkg[o], sig: nil, fn: "init"}
			s2 := st.clone()
			s2.fr = fr
			outs := x.expr(s2, init)
			if len(outs) == 1 {
				*st = *func() *State { n := outs[0].st; n.fr = st.fr; return n }()
				v := x.convert(st, outs[0].v, o.Type())
				st.env[o] = v
				return v
			}
		case *types.Pointer:
			if c, ok := init.(*ast.CallExpr); ok && len(c.Args) == 1 {
				if tv := x.w.VarPkg[o].Info.Types[c.Args[0]]; tv.Value != nil && strings.HasSuffix(typeKey(o.Type()), "regexp.Regexp") {
					fr := &Frame{pkg: x.w.VarPkg[o], fn: "init"}
					ofr := st.fr
					st.fr = fr
					outs := x.expr(st, init)
					st.fr = ofr
					st.env[o] = outs[0].v
					return outs[0].v
				}
			}
		}
	}
	v := st.load(globalLoc(o))
	return v
}

// mutable reports whether a package-level variable is assigned (or its address or elements are
// written) anywhere in the module.
func (w *World) mutable(o types.Object) bool {
	if w.mut == nil {
		w.mut = map[types.Object]bool{}
		for _, p := range w.Pkgs {
			mark := func(e ast.Expr) {
				for {
					switch y := ast.Unparen(e).(type) {
					case *ast.IndexExpr:
						e = y.X
						continue
					case *ast.SelectorExpr:
						if ob := p.Info.Uses[y.Sel]; ob != nil && p.Info.Selections[y] == nil {
							w.mut[ob] = true
						}
						e = y.X
						continue
					case *ast.Ident:
						if ob := p.Info.Uses[y]; ob != nil {
							w.mut[ob] = true
						}
					}
					return
				}
			}
			for _, f := range p.Files {
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							mark(l)
						}
					case *ast.IncDecStmt:
						mark(n.X)
					case *ast.UnaryExpr:
						if n.Op == token.AND {
							mark(n.X)
						}
					case *ast.RangeStmt:
						if n.Tok == token.ASSIGN {
							mark(n.Key)
							if n.Value != nil {
								mark(n.Value)
							}
						}
					}
					return true
				})
			}
		}
	}
	return w.mut[o]
}

func (x *Exec) composite(st *State, e *ast.CompositeLit, t types.Type) []outV {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		el := sliceElem(t)
		outs := []outVs{{st, nil}}
		idx := []int64{}
		var next int64
		max := int64(0)
		for _, it := range e.Elts {
			ve := it
			if kv, ok := it.(*ast.KeyValueExpr); ok {
				tv := x.info(st).Types[kv.Key]
				c := x.constVal(tInt, tv.Value)
				next = c.t.ival.Int64()
				ve = kv.Value
			}
			idx = append(idx, next)
			next++
			if next > max {
				max = next
			}
			var nx []outVs
			for _, o := range outs {
				for _, r := range x.compElem(o.st, ve, el) {
					nx = append(nx, outVs{r.st, append(append([]Val{}, o.vs...), r.v)})
				}
			}
			outs = nx
		}
		var res []outV
		for _, o := range outs {
			if at, ok := u.(*types.Array); ok {
				_ = at
				z := o.st.zero(t)
				a := z.t
				for i, v := range o.vs {
					a = Store(a, I(idx[i]), v.t)
				}
				z.t = a
				res = append(res, outV{o.st, z})
				continue
			}
			vals := make([]Val, max)
			for i := range vals {
				vals[i] = o.st.zero(el)
			}
			for i, v := range o.vs {
				vals[idx[i]] = v
			}
			res = append(res, outV{o.st, o.st.newSlice(t, vals)})
		}
		return res
	case *types.Map:
		outs := []outV{}
		for _, c := range []*State{st} {
			m := x.newMap(c, t)
			cur := []*State{c}
			for _, it := range e.Elts {
				kv := it.(*ast.KeyValueExpr)
				var nx []*State
				for _, s := range cur {
					for _, k := range x.compElem(s, kv.Key, u.Key()) {
						for _, v := range x.compElem(k.st, kv.Value, u.Elem()) {
							x.mapStore(v.st, m, k.v, v.v, kv.Pos())
							nx = append(nx, v.st)
						}
					}
				}
				cur = nx
			}
			for _, s := range cur {
				outs = append(outs, outV{s, m})
			}
		}
		return outs
	}
	if st0, ok := t.Underlying().(*types.Struct); ok {
		z := st.zero(t)
		outs := []outV{{st, z}}
		if fs, _ := structFields(t); len(fs) == 1 && fs[0].name == "$opaque" {
			o := st.freshVal("opaque", t)
			return []outV{{st, o}}
		}
		for i, it := range e.Elts {
			fi := i
			ve := it
			if kv, ok := it.(*ast.KeyValueExpr); ok {
				ve = kv.Value
				fi = -1
				for k := 0; k < st0.NumFields(); k++ {
					if st0.Field(k).Name() == kv.Key.(*ast.Ident).Name {
						fi = k
					}
				}
			}
			var nx []outV
			for _, o := range outs {
				for _, r := range x.compElem(o.st, ve, st0.Field(fi).Type()) {
					nx = append(nx, outV{r.st, setPath(o.v, []int{fi}, r.v)})
				}
			}
			outs = nx
		}
		return outs
	}
	unsup("composite %s", t)
	return nil
}

// compElem evaluates an element of a composite literal (the type may be elided).
func (x *Exec) compElem(st *State, e ast.Expr, t types.Type) []outV {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			var out []outV
			for _, o := range x.composite(st, cl, p.Elem()) {
				out = append(out, outV{o.st, o.st.newObj(o.v)})
			}
			return out
		}
		return x.composite(st, cl, t)
	}
	var out []outV
	for _, o := range x.expr(st, e) {
		out = append(out, outV{o.st, x.convert(o.st, o.v, t)})
	}
	return out
}

// convert performs implicit (assignability) conversion of v to type t.
func (x *Exec) convert(st *State, v Val, t types.Type) Val {
	if v.K == VNil {
		return st.zero(t)
	}
	if v.T != nil && types.Identical(v.T, t) {
		return v
	}
	_, toIface := t.Underlying().(*types.Interface)
	if toIface {
		switch v.K {
		case VPtr:
			if v.loc != nil {
				return Val{K: VScalar, T: t, t: Fresh("iptr", "Int")}
			}
			if v.t.kind != kInt {
				// typed nil pointers in interfaces are assumed not to occur
			}
			return Val{K: VScalar, T: t, t: v.t}
		case VScalar:
			if _, fromIface := v.T.Underlying().(*types.Interface); fromIface {
				return Val{K: VScalar, T: t, t: v.t}
			}
			if _, ok := v.T.Underlying().(*types.Map); ok {
				return Val{K: VScalar, T: t, t: v.t}
			}
			// boxing a scalar
			b := mk("Int", "box_"+v.t.sort, v.t)
			st.assume(Lt(I(0), b))
			return Val{K: VScalar, T: t, t: b}
		}
		// boxing a struct or slice: opaque
		if v.K == VStruct && v.T != nil {
			if _, ok := types.Unalias(v.T).(*types.Named); ok {
				p := st.newObj(v)
				return Val{K: VScalar, T: t, t: p.t}
			}
		}
		b := Fresh("boxed", "Int")
		st.assume(And(Lt(I(0), b), Lt(b, st.alloc)))
		return Val{K: VScalar, T: t, t: b, f: []Val{v}}
	}
	r := v
	r.T = t
	if v.K == VStruct {
		return r
	}
	return r
}

func (x *Exec) valEq(st *State, a, b Val) *Term {
	if a.K == VNil && b.K == VNil {
		return tTrue
	}
	if a.K == VNil {
		a, b = b, a
	}
	if b.K == VNil {
		switch a.K {
		case VSlice:
			return Eq(a.t, I(0))
		case VFunc:
			if a.fn == nil {
				return tTrue
			}
			if a.fn.opaque == "" {
				return tFalse
			}
			return Eq(a.t, I(0))
		case VPtr:
			if a.loc != nil {
				return tFalse
			}
		}
		return Eq(a.t, I(0))
	}
	switch a.K {
	case VStruct:
		var cs []*Term
		for i := range a.f {
			cs = append(cs, x.valEq(st, a.f[i], b.f[i]))
		}
		return And(cs...)
	case VPtr:
		if a.loc != nil || b.loc != nil {
			if a.loc == b.loc {
				return tTrue
			}
			unsup("interior pointer comparison")
		}
	case VSlice:
		return And(Eq(a.t, b.t), Eq(a.off, b.off), Eq(a.n, b.n))
	}
	if a.t.sort != b.t.sort {
		b = x.convert(st, b, a.T)
		if a.t.sort != b.t.sort {
			a = x.convert(st, a, b.T)
		}
	}
	return Eq(a.t, b.t)
}

func (x *Exec) unary(st *State, e *ast.UnaryExpr) []outV {
	var out []outV
	switch e.Op {
	case token.AND:
		if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
			for _, o := range x.composite(st, cl, x.info(st).TypeOf(cl)) {
				out = append(out, outV{o.st, o.st.newObj(o.v)})
			}
			return out
		}
		for _, l := range x.lval(st, e.X) {
			pt := x.info(st).TypeOf(e)
			if l.loc.kind == LHeap && l.loc.key == "f:"+typeKey(l.loc.typ) {
				out = append(out, outV{l.st, Val{K: VPtr, T: pt, t: l.loc.ref}})
				continue
			}
			out = append(out, outV{l.st, Val{K: VPtr, T: pt, t: Fresh("addr", "Int"), loc: l.loc}})
		}
		return out
	}
	for _, o := range x.expr(st, e.X) {
		v := o.v
		switch e.Op {
		case token.ARROW: // whatever another goroutine sent, some of it in memory allocated there
			x.note("a value received from a channel is any value of its type")
			na := Fresh("alloc", "Int")
			o.st.assume(Le(o.st.alloc, na))
			o.st.alloc = na
			v = o.st.freshVal("recv", x.info(o.st).TypeOf(e))
		case token.NOT:
			v.t = Not(v.t)
		case token.SUB:
			if v.t.sort == "Real" {
				v.t = mk("Real", "-", v.t)
			} else {
				v.t = Neg(v.t)
			}
		case token.ADD:
		default:
			unsup("unary %s", e.Op)
		}
		out = append(out, outV{o.st, v})
	}
	return out
}

func (x *Exec) binary(st *State, e *ast.BinaryExpr) []outV {
	in := x.info(st)
	if e.Op == token.LAND || e.Op == token.LOR {
		var out []outV
		for _, o := range x.cond(st, e) {
			out = append(out, outV{o.st, boolV(B(o.val))})
		}
		return out
	}
	var out []outV
	for _, o := range x.exprs(st, e.X, e.Y) {
		a, b := o.vs[0], o.vs[1]
		t := in.TypeOf(e)
		switch e.Op {
		case token.EQL, token.NEQ:
			r := x.valEq(o.st, a, b)
			if e.Op == token.NEQ {
				r = Not(r)
			}
			out = append(out, outV{o.st, Val{K: VScalar, T: t, t: r}})
			continue
		}
		if a.t.sort == "Int" && b.t.sort == "Real" || a.t.sort == "Real" && b.t.sort == "Int" {
			unsup("mixed arithmetic")
		}
		out = append(out, outV{o.st, x.binop(o.st, e.Op, a, b, t, e.Pos())})
	}
	return out
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, p token.Pos) Val {
	r := Val{K: VScalar, T: t}
	s := a.t.sort
	wrap := func(tt *Term) *Term {
		// unsigned and fixed-size arithmetic: prove no wrap-around, except for byte where modulo is modelled
		if bt, ok := t.Underlying().(*types.Basic); ok && tt.sort == "Int" {
			switch bt.Kind() {
			case types.Uint8:
				if tt.kind == kInt && tt.ival.Sign() >= 0 && tt.ival.Int64() < 256 {
					return tt
				}
				return mk("Int", "mod", tt, I(256))
			}
		}
		return tt
	}
	switch op {
	case token.ADD:
		if s == "String" {
			r.t = Concat(a.t, b.t)
		} else if s == "Real" {
			r.t = mk("Real", "+", a.t, b.t)
		} else {
			r.t = wrap(Add(a.t, b.t))
		}
	case token.SUB:
		if s == "Real" {
			r.t = mk("Real", "-", a.t, b.t)
		} else {
			r.t = wrap(Sub(a.t, b.t))
		}
	case token.MUL:
		if s == "Real" {
			r.t = mk("Real", "*", a.t, b.t)
		} else {
			r.t = wrap(Mul(a.t, b.t))
		}
	case token.QUO:
		if s != "Int" {
			unsup("real division")
		}
		st.oblige("safety", "division-by-zero", Not(Eq(b.t, I(0))), p)
		// Go truncates toward zero
		r.t = Ite(Le(I(0), a.t), mk("Int", "div", a.t, b.t), Neg(mk("Int", "div", Neg(a.t), b.t)))
		if a.t.kind == kInt && b.t.kind == kInt {
			r.t = I(a.t.ival.Int64() / b.t.ival.Int64())
		}
	case token.REM:
		st.oblige("safety", "division-by-zero", Not(Eq(b.t, I(0))), p)
		r.t = Ite(Le(I(0), a.t), mk("Int", "mod", a.t, b.t), Neg(mk("Int", "mod", Neg(a.t), b.t)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		l, h := a.t, b.t
		if op == token.GTR || op == token.GEQ {
			l, h = h, l
		}
		strict := op == token.LSS || op == token.GTR
		switch s {
		case "String":
			if strict {
				r.t = Pred("str.<", l, h)
			} else {
				r.t = Pred("str.<=", l, h)
			}
		case "Real":
			if strict {
				r.t = mk("Bool", "<", l, h)
			} else {
				r.t = mk("Bool", "<=", l, h)
			}
		default:
			if strict {
				r.t = Lt(l, h)
			} else {
				r.t = Le(l, h)
			}
		}
	case token.AND, token.OR, token.SHL, token.SHR, token.XOR, token.AND_NOT:
		r.t = bitop(st, op, a.t, b.t)
	default:
		unsup("binop %s", op)
	}
	return r
}

// bitop models bit operations on small non-negative integers exactly when one operand is constant.
func bitop(st *State, op token.Token, a, b *Term) *Term {
	if a.kind == kInt && b.kind == kInt {
		x, y := a.ival.Int64(), b.ival.Int64()
		switch op {
		case token.AND:
			return I(x & y)
		case token.OR:
			return I(x | y)
		case token.SHL:
			return I(x << uint(y))
		case token.SHR:
			return I(x >> uint(y))
		}
	}
	pow := func(t *Term) *Term { return I(int64(1) << uint(t.ival.Int64())) }
	switch op {
	case token.SHR:
		if b.kind == kInt {
			return mk("Int", "div", a, pow(b))
		}
	case token.SHL:
		if b.kind == kInt {
			return Mul(a, pow(b))
		}
	case token.AND:
		if a.kind == kInt {
			a, b = b, a
		}
		if b.kind == kInt {
			m := b.ival.Int64()
			if m >= 0 && m&(m+1) == 0 { // low-bit mask
				return mk("Int", "mod", a, I(m+1))
			}
		}
		return mk("Int", "bitand", a, b)
	case token.OR:
		return mk("Int", "bitor", a, b)
	}
	return mk("Int", "bitop_"+sanitize(op.String()), a, b)
}

func (x *Exec) index(st *State, e *ast.IndexExpr) []outV {
	in := x.info(st)
	var out []outV
	bt := in.TypeOf(e.X)
	if _, ok := bt.Underlying().(*types.Signature); ok {
		unsup("generic instantiation")
	}
	for _, o := range x.exprs(st, e.X, e.Index) {
		switch u := o.vs[0].T.Underlying().(type) {
		case *types.Map:
			_, v := x.mapLoad(o.st, o.vs[0], x.convert(o.st, o.vs[1], u.Key()))
			out = append(out, outV{o.st, v})
			continue
		case *types.Basic: // string
			s, i := o.vs[0].t, o.vs[1].t
			o.st.oblige("safety", "string-index", And(Le(I(0), i), Lt(i, StrLen(s))), e.Pos())
			c := StrAt(s, i)
			v := Val{K: VScalar, T: types.Typ[types.Uint8], t: c}
			o.st.wf(v)
			out = append(out, outV{o.st, v})
			continue
		case *types.Array:
			i := o.vs[1].t
			o.st.oblige("safety", "index-bounds", And(Le(I(0), i), Lt(i, I(u.Len()))), e.Pos())
			out = append(out, outV{o.st, Val{K: VScalar, T: u.Elem(), t: Select(o.vs[0].t, i)}})
			continue
		case *types.Slice:
			i := o.vs[1].t
			o.st.oblige("safety", "index-bounds", And(Le(I(0), i), Lt(i, o.vs[0].n)), e.Pos())
			out = append(out, outV{o.st, o.st.load(elemLoc(o.vs[0], i))})
			continue
		}
		unsup("index of %s", bt)
	}
	return out
}

func (x *Exec) sliceExpr(st *State, e *ast.SliceExpr) []outV {
	if e.Max != nil {
		unsup("3-index slice")
	}
	var out []outV
	es := []ast.Expr{e.X}
	if e.Low != nil {
		es = append(es, e.Low)
	}
	if e.High != nil {
		es = append(es, e.High)
	}
	for _, o := range x.exprs(st, es...) {
		b := o.vs[0]
		lo := I(0)
		k := 1
		if e.Low != nil {
			lo = o.vs[k].t
			k++
		}
		var hi *Term
		if e.High != nil {
			hi = o.vs[k].t
		}
		switch b.K {
		case VScalar: // string
			n := StrLen(b.t)
			if hi == nil {
				hi = n
			}
			o.st.oblige("safety", "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, n)), e.Pos())
			out = append(out, outV{o.st, Val{K: VScalar, T: b.T, t: Substr(b.t, lo, Sub(hi, lo))}})
		case VSlice:
			if hi == nil {
				hi = b.n
			}
			o.st.oblige("safety", "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, b.n)), e.Pos())
			v := b
			v.off = Add(b.off, lo)
			v.n = Sub(hi, lo)
			v.cap = Sub(b.cap, lo)
			out = append(out, outV{o.st, v})
		default:
			unsup("slice of %s", b.T)
		}
	}
	return out
}

// ---- maps -----------------------------------------------------------------

func mapKeySort(t types.Type) string {
	s, ok := scalarSort(t)
	if ok {
		return s
	}
	return ""
}

func (x *Exec) mapKeyTerm(st *State, k Val) *Term {
	if k.K == VScalar || k.K == VPtr {
		if k.loc != nil {
			unsup("map key")
		}
		return k.t
	}
	if k.K == VStruct {
		ls := k.leaves()
		var so []string
		for _, l := range ls {
			so = append(so, l.sort)
		}
		// injective pairing of struct keys
		name := "key_" + strings.Join(so, "_")
		t := mk("Int", name, ls...)
		for i, l := range ls {
			st.assume(Eq(mk(l.sort, name+"_"+string(rune('0'+i)), t), l))
		}
		return t
	}
	unsup("map key")
	return nil
}

func keySortOf(t types.Type) string {
	if s := mapKeySort(t); s != "" {
		return s
	}
	return "Int"
}

func (x *Exec) newMap(st *State, t types.Type) Val {
	r := st.alloc
	st.alloc = Add(st.alloc, I(1))
	mt := t.Underlying().(*types.Map)
	ks := keySortOf(mt.Key())
	key := "map:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
	h := heapArr(st, key+".dom", "Int", ArrSort("Int", ArrSort(ks, "Bool")))
	st.touched(key + ".dom")
	st.heap[key+".dom"] = Store(h, r, ConstArr(ArrSort(ks, "Bool"), tFalse))
	return Val{K: VScalar, T: t, t: r}
}

func (x *Exec) mapLoad(st *State, m, k Val) (*Term, Val) {
	mt := m.T.Underlying().(*types.Map)
	kt := x.mapKeyTerm(st, k)
	key := "map:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
	d := Select(Select(heapArr(st, key+".dom", "Int", ArrSort("Int", ArrSort(kt.sort, "Bool"))), m.t), kt)
	d = And(d, Not(Eq(m.t, I(0))))
	var rdv func(t types.Type, suffix string) Val
	rdv = func(t types.Type, suffix string) Val {
		if _, ok := t.Underlying().(*types.Slice); ok {
			g := func(s string) *Term {
				return Select(Select(heapArr(st, key+".val"+suffix+s, "Int", ArrSort("Int", ArrSort(kt.sort, "Int"))), m.t), kt)
			}
			v := Val{K: VSlice, T: t, t: Ite(d, g(".id"), I(0)), off: I(0), n: Ite(d, g(".len"), I(0)), cap: Ite(d, g(".cap"), I(0))}
			st.wf(v)
			return v
		}
		if fs, ok := structFields(t); ok {
			v := Val{K: VStruct, T: t}
			for _, f := range fs {
				v.f = append(v.f, rdv(f.typ, suffix+"."+f.name))
			}
			return v
		}
		s, ok := scalarSort(t)
		if !ok {
			unsup("map value %s", t)
		}
		raw := Select(Select(heapArr(st, key+".val"+suffix, "Int", ArrSort("Int", ArrSort(kt.sort, s))), m.t), kt)
		v := Val{K: VScalar, T: t, t: Ite(d, raw, zeroScalar(s))}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			v.K = VPtr
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return Val{K: VFunc, T: t, t: v.t, fn: &Closure{opaque: key}}
		}
		st.wf(v)
		return v
	}
	return d, rdv(mt.Elem(), "")
}

func (x *Exec) mapStore(st *State, m, k, v Val, p token.Pos) {
	mt := m.T.Underlying().(*types.Map)
	kt := x.mapKeyTerm(st, k)
	key := "map:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
	if !(x.root != nil && x.root.NilOK) {
		st.oblige("safety", "nil-map-write", Not(Eq(m.t, I(0))), p)
	}
	h := heapArr(st, key+".dom", "Int", ArrSort("Int", ArrSort(kt.sort, "Bool")))
	st.touched(key + ".dom")
	st.heap[key+".dom"] = Store(h, m.t, Store(Select(h, m.t), kt, tTrue))
	var wrv func(v Val, suffix string)
	wr := func(suffix string, t *Term) {
		kk := key + ".val" + suffix
		h := heapArr(st, kk, "Int", ArrSort("Int", ArrSort(kt.sort, t.sort)))
		st.touched(kk)
		st.heap[kk] = Store(h, m.t, Store(Select(h, m.t), kt, t))
	}
	wrv = func(v Val, suffix string) {
		switch v.K {
		case VSlice:
			wr(suffix+".id", v.t)
			wr(suffix+".len", v.n)
			wr(suffix+".cap", v.cap)
			if v.off != I(0) {
				unsup("resliced value in map")
			}
		case VStruct:
			fs, _ := structFields(v.T)
			for i, f := range fs {
				wrv(v.f[i], suffix+"."+f.name)
			}
		case VFunc:
			wr(suffix, v.t)
		default:
			if v.loc != nil {
				unsup("interior pointer in map")
			}
			wr(suffix, v.t)
		}
	}
	wrv(v, "")
}

func (x *Exec) mapDelete(st *State, m, k Val) {
	mt := m.T.Underlying().(*types.Map)
	kt := x.mapKeyTerm(st, k)
	key := "map:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
	h := heapArr(st, key+".dom", "Int", ArrSort("Int", ArrSort(kt.sort, "Bool")))
	st.touched(key + ".dom")
	st.heap[key+".dom"] = Store(h, m.t, Store(Select(h, m.t), kt, tFalse))
}

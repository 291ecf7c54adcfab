package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// SpecCtx evaluates contract expressions.
type SpecCtx struct {
	x        *Exec
	st       *State // current state
	old      *State // entry state
	pre      *State // loop-entry state
	binds    map[string]Val
	scope    func(name string) (Val, bool) // program locals (loop invariants)
	oldScope func(name string) (Val, bool)
	pkg      *types.Package
	depth    int
}

func (c *SpecCtx) with(name string, v Val) *SpecCtx {
	n := *c
	n.binds = map[string]Val{}
	for k, x := range c.binds {
		n.binds[k] = x
	}
	n.binds[name] = v
	return &n
}

func sc(t *Term) Val {
	switch t.sort {
	case "Bool":
		return boolV(t)
	case "Int":
		return intV(t)
	case "String":
		return strV(t)
	}
	return Val{K: VScalar, t: t}
}

func (c *SpecCtx) Bool(e ast.Expr) *Term {
	v := c.eval(e)
	if v.t == nil || v.t.sort != "Bool" {
		unsup("spec: not boolean: %s", exprStr(e))
	}
	return v.t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *SpecCtx) lookupType(name string) types.Type {
	ptr := strings.HasPrefix(name, "*")
	name = strings.TrimPrefix(name, "*")
	var t types.Type
	if i := strings.LastIndex(name, "."); i >= 0 {
		for _, p := range c.x.w.Pkgs {
			if shortPkg(p.Path) == name[:i] || strings.HasSuffix(p.Path, "/"+name[:i]) {
				if o := p.Types.Scope().Lookup(name[i+1:]); o != nil {
					t = o.Type()
				}
			}
		}
	} else if c.pkg != nil {
		if o := c.pkg.Scope().Lookup(name); o != nil {
			t = o.Type()
		}
	}
	if t == nil {
		unsup("spec: unknown type %s", name)
	}
	if ptr {
		t = types.NewPointer(t)
	}
	return t
}

func (c *SpecCtx) eval(e ast.Expr) Val {
	x := c.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, _ := strconv.ParseInt(e.Value, 0, 64)
			return intV(I(n))
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return strV(S(s))
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(e.Value[1:len(e.Value)-1], '\'')
			return intV(I(int64(s)))
		}
	case *ast.Ident:
		switch e.Name {
		case "true":
			return boolV(tTrue)
		case "false":
			return boolV(tFalse)
		case "nil":
			return Val{K: VNil, t: I(0)}
		}
		if v, ok := c.binds[e.Name]; ok {
			return v
		}
		if c.scope != nil {
			if v, ok := c.scope(e.Name); ok {
				return v
			}
		}
		if c.pkg != nil {
			switch o := c.pkg.Scope().Lookup(e.Name).(type) {
			case *types.Const:
				return x.constVal(o.Type(), o.Val())
			case *types.Var:
				return x.globalVal(c.st, o)
			}
		}
		if d, ok := x.cs.Prel.decls[e.Name]; ok && len(d.args) == 0 {
			return sc(mk(d.res, e.Name))
		}
		panic(unresolved{e.Name})
	case *ast.UnaryExpr:
		v := c.eval(e.X)
		switch e.Op {
		case token.NOT:
			return boolV(Not(v.t))
		case token.SUB:
			return intV(Neg(v.t))
		case token.AND: // &x.f : location of embedded struct
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return boolV(And(c.Bool(e.X), c.Bool(e.Y)))
		case token.LOR:
			return boolV(Or(c.Bool(e.X), c.Bool(e.Y)))
		}
		a, b := c.eval(e.X), c.eval(e.Y)
		switch e.Op {
		case token.EQL:
			return boolV(c.eq(a, b))
		case token.NEQ:
			return boolV(Not(c.eq(a, b)))
		case token.QUO:
			return intV(mk("Int", "div", a.t, b.t))
		case token.REM:
			return intV(mk("Int", "mod", a.t, b.t))
		}
		t := a.T
		return x.binop(c.st, e.Op, a, b, types.Typ[types.Int], token.NoPos).retype(t)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := c.binds[id.Name]; !bound {
				local := false
				if c.scope != nil {
					_, local = c.scope(id.Name)
				}
				if !local {
					for _, p := range x.w.Pkgs {
						if p.Types.Name() == id.Name {
							switch o := p.Types.Scope().Lookup(e.Sel.Name).(type) {
							case *types.Const:
								return x.constVal(o.Type(), o.Val())
							case *types.Var:
								return x.globalVal(c.st, o)
							}
						}
					}
				}
			}
		}
		v := c.eval(e.X)
		return c.field(v, e.Sel.Name)
	case *ast.StarExpr:
		v := c.eval(e.X)
		return c.st.load(c.st.ptrLoc(v))
	case *ast.IndexExpr:
		v, i := c.eval(e.X), c.eval(e.Index)
		switch v.K {
		case VSlice:
			return c.st.load(elemLoc(v, i.t))
		case VArr:
			return sc(Select(v.t, i.t))
		case VScalar:
			if v.t.sort == "String" {
				return intV(StrAt(v.t, i.t))
			}
			if strings.HasPrefix(v.t.sort, "(Array") {
				return sc(Select(v.t, i.t))
			}
			if mt, ok := v.T.Underlying().(*types.Map); ok {
				_, r := x.mapLoad(c.st, v, x.convert(c.st, i, mt.Key()))
				return r
			}
		}
		unsup("spec index")
	case *ast.SliceExpr:
		v := c.eval(e.X)
		lo := I(0)
		if e.Low != nil {
			lo = c.eval(e.Low).t
		}
		if v.K == VSlice {
			hi := v.n
			if e.High != nil {
				hi = c.eval(e.High).t
			}
			r := v
			r.off, r.n, r.cap = Add(v.off, lo), Sub(hi, lo), Sub(v.cap, lo)
			return r
		}
		hi := StrLen(v.t)
		if e.High != nil {
			hi = c.eval(e.High).t
		}
		return strV(Substr(v.t, lo, Sub(hi, lo)))
	case *ast.CallExpr:
		return c.call(e)
	}
	unsup("spec expr %T %s", e, exprStr(e))
	return Val{}
}

type unresolved struct{ name string }

func (v Val) retype(t types.Type) Val {
	if v.t.sort != "Bool" && t != nil {
		v.T = t
	}
	if v.t.sort == "Bool" {
		v.T = tBool
	}
	return v
}

func (c *SpecCtx) eq(a, b Val) *Term {
	if a.K == VScalar && b.K == VScalar && (a.T == nil || b.T == nil) {
		return Eq(a.t, b.t)
	}
	return c.x.valEq(c.st, a, b)
}

func (c *SpecCtx) field(v Val, name string) Val {
	t := v.T
	if t == nil {
		unsup("spec: field %s of untyped value", name)
	}
	if v.K == VPtr {
		t = t.Underlying().(*types.Pointer).Elem()
		obj, idx, _ := types.LookupFieldOrMethod(v.T, true, c.anyPkg(t), name)
		if _, ok := obj.(*types.Var); !ok {
			if isBuffer(t) && name == "data" {
				return c.st.load(c.st.field(c.st.ptrLoc(v), 0))
			}
			unsup("spec: no field %s in %s", name, t)
		}
		l := c.st.ptrLoc(v)
		for _, i := range idx {
			if _, ok := l.typ.Underlying().(*types.Pointer); ok {
				l = c.st.ptrLoc(c.st.load(l))
			}
			l = c.st.field(l, i)
		}
		return c.st.load(l)
	}
	if tu, ok := t.(*types.Tuple); ok && v.K == VTuple {
		for i := 0; i < tu.Len(); i++ {
			if tu.At(i).Name() == name || fmt.Sprintf("r%d", i) == name {
				return v.f[i]
			}
		}
	}
	if v.K == VStruct {
		if isBuffer(t) && name == "data" {
			return v.f[0]
		}
		obj, idx, _ := types.LookupFieldOrMethod(t, true, c.anyPkg(t), name)
		if _, ok := obj.(*types.Var); !ok {
			unsup("spec: no field %s in %s", name, t)
		}
		cur := v
		for _, i := range idx {
			if cur.K == VPtr {
				cur = c.st.load(c.st.field(c.st.ptrLoc(cur), i))
				continue
			}
			cur = cur.f[i]
		}
		return cur
	}
	unsup("spec: field %s of %s", name, t)
	return Val{}
}

func (c *SpecCtx) anyPkg(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return c.pkg
}

func (c *SpecCtx) quant(e *ast.CallExpr, q string) Val {
	id := e.Args[0].(*ast.Ident).Name
	b := Var("?"+id+fmt.Sprint(c.depth), "Int")
	n := c.with(id, intV(b))
	n.depth = c.depth + 1
	var rng *Term = tTrue
	body := e.Args[len(e.Args)-1]
	if len(e.Args) >= 4 {
		rng = And(Le(c.eval(e.Args[1]).t, b), Lt(b, c.eval(e.Args[2]).t))
	} else if len(e.Args) == 3 {
		// typed: forall(p, "T", body) or forall(s, String, body)
		var ty string
		switch a := e.Args[1].(type) {
		case *ast.Ident:
			ty = a.Name
		case *ast.BasicLit:
			ty, _ = strconv.Unquote(a.Value)
		}
		switch ty {
		case "String", "Int", "Bool":
			b = Var("?"+id+fmt.Sprint(c.depth), ty)
			n = c.with(id, sc(b))
		default:
			t := c.lookupType(ty)
			v := Val{K: VScalar, T: t, t: b}
			if _, ok := t.Underlying().(*types.Pointer); ok {
				v.K = VPtr
			}
			n = c.with(id, v)
		}
		n.depth = c.depth + 1
	}
	t := n.Bool(body)
	if q == "each" {
		// forall, but instantiated only at the values another "each" is being proved for
		h := lib("Bool", "hit", b)
		return boolV(Quant("forall", []*Term{b}, Implies(And(rng, h), t), h))
	}
	if q == "forall" {
		return boolV(Quant("forall", []*Term{b}, Implies(rng, t)))
	}
	return boolV(Quant("exists", []*Term{b}, And(rng, t)))
}

func (c *SpecCtx) call(e *ast.CallExpr) Val {
	x := c.x
	id, _ := e.Fun.(*ast.Ident)
	if se, isSel := e.Fun.(*ast.SelectorExpr); isSel {
		// library function: path.Base(x)
		if p, isId := se.X.(*ast.Ident); isId {
			if ct := x.cs.ByFunc[p.Name+"."+se.Sel.Name]; ct != nil && ct.Function {
				fd := x.w.ByName[ct.Func]
				if fd == nil {
					unsup("spec: no function %s", ct.Func)
				}
				sig := fd.Obj.Type().(*types.Signature)
				var as []*Term
				for i := range e.Args {
					as = append(as, scalars(c.eval(e.Args[i]))...)
				}
				x.contractsUsed[ct.Func] = true
				return x.functionVal(c.st, ct.Func, sig, as)
			}
			lp := p.Name
			if lp == "filepath" {
				lp = "path_filepath"
			}
			n := "lib_" + lp + "_" + se.Sel.Name
			if _, ok := x.cs.Prel.decls[n]; !ok {
				n += "_0"
			}
			id = &ast.Ident{Name: n}
		}
	}
	if id == nil {
		unsup("spec call %s", exprStr(e.Fun))
	}
	arg := func(i int) Val { return c.eval(e.Args[i]) }
	switch id.Name {
	case "now": // the current value of a parameter that the function assigns to
		if id, ok := e.Args[0].(*ast.Ident); ok && c.scope != nil {
			if v, ok := c.scope(id.Name); ok {
				return v
			}
		}
		unsup("now(%s)", exprStr(e.Args[0]))
	case "old":
		n := *c
		n.st = c.old
		if c.oldScope != nil {
			n.scope = c.oldScope
		}
		return n.eval(e.Args[0])
	case "head": // in the state in which the current iteration of the innermost loop began
		n := *c
		if x.headSt == nil {
			unsup("head() outside a loop")
		}
		hs := x.headSt
		n.st = hs
		n.scope = func(name string) (Val, bool) {
			var best types.Object
			for o := range hs.env {
				if o.Name() == name && o.Pos() != token.NoPos && (best == nil || o.Pos() > best.Pos()) {
					best = o
				}
			}
			if best == nil {
				return c.scope(name) // declared since
			}
			return x.readVar(hs, best), true
		}
		return n.eval(e.Args[0])
	case "pre":
		n := *c
		if c.pre == nil {
			unsup("pre() outside loop")
		}
		n.st = c.pre
		return n.eval(e.Args[0])
	case "implies":
		return boolV(Implies(c.Bool(e.Args[0]), c.Bool(e.Args[1])))
	case "iff":
		a, b := c.Bool(e.Args[0]), c.Bool(e.Args[1])
		return boolV(mk("Bool", "=", a, b))
	case "ite":
		cnd := c.Bool(e.Args[0])
		a, b := arg(1), arg(2)
		if a.K == VNil || b.K == VNil {
			return intV(Ite(cnd, a.t, b.t))
		}
		return mergeVal(cnd, a, b)
	case "forall":
		return c.quant(e, "forall")
	case "each":
		return c.quant(e, "each")
	case "exists":
		return c.quant(e, "exists")
	case "obs", "obsLen", "obsAt": // obs("pkg.Fn", deps...): the value an observer returns; length and element of a slice
		nm, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		ct, fd := x.cs.ByFunc[nm], x.w.ByName[nm]
		nd := len(e.Args) - 1
		if id.Name == "obsAt" {
			nd--
		}
		if ct == nil || !ct.Observer || fd == nil || nd != len(ct.Of) {
			unsup("obs: %s is not an observer of %d values", nm, nd)
		}
		var as []*Term
		for i := 1; i < len(e.Args); i++ {
			as = append(as, arg(i).t)
		}
		x.contractsUsed[nm] = true
		sig := fd.Obj.Type().(*types.Signature)
		switch id.Name {
		case "obsLen":
			return intV(mk("Int", "fn_"+sanitize(nm)+".len", as...))
		case "obsAt":
			el := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			srt, ok := scalarSort(el)
			if !ok {
				unsup("obsAt: elements of %s are not scalar", nm)
			}
			r := Val{K: VScalar, T: el, t: mk(srt, "fn_"+sanitize(nm)+".at", as...)}
			if _, isPtr := el.Underlying().(*types.Pointer); isPtr {
				r.K = VPtr
			}
			return r
		}
		return x.functionVal(c.st, nm, sig, as)
	case "count": // count(i, n, P): how many i in [0, n) satisfy P
		v := Var("?cnt", "Int")
		n := c.with(e.Args[0].(*ast.Ident).Name, intV(v))
		body := n.Bool(e.Args[2])
		return intV(x.countTerm(v, body, arg(1).t))
	case "len":
		v := arg(0)
		if v.K == VScalar && v.T == nil {
			return intV(StrLen(v.t))
		}
		return intV(x.lenOf(c.st, v, false))
	case "cap":
		return intV(arg(0).cap)
	case "is", "as":
		v := arg(0)
		var tn string
		switch a := e.Args[1].(type) {
		case *ast.Ident:
			tn = a.Name
		case *ast.SelectorExpr:
			tn = exprStr(a)
		case *ast.StarExpr:
			tn = exprStr(a.X)
		}
		t := c.lookupType(tn)
		if id.Name == "is" {
			return boolV(x.typeTest(c.st, v, types.NewPointer(t)))
		}
		return Val{K: VPtr, T: types.NewPointer(t), t: v.t}
	case "deref": // deref(ptr, Type)
		v := arg(0)
		t := c.lookupType(exprStr(e.Args[1]))
		return Val{K: VPtr, T: types.NewPointer(t), t: v.t}
	case "fresh":
		v := arg(0)
		return boolV(Or(Le(c.old.alloc, v.t), func() *Term {
			if v.K == VSlice {
				return Eq(v.cap, I(0))
			}
			return tFalse
		}()))
	case "newref":
		return boolV(Le(c.old.alloc, arg(0).t))
	case "nth": // nth(tuple, i): one of the results of a call with several
		v := arg(0)
		if n, err := strconv.Atoi(e.Args[1].(*ast.BasicLit).Value); err == nil && v.K == VTuple && n < len(v.f) {
			return v.f[n]
		}
		unsup("nth: not such a tuple")
	case "allocated":
		return boolV(And(Le(I(0), arg(0).t), Lt(arg(0).t, c.st.alloc)))
	case "same":
		a, b := arg(0), arg(1)
		if a.K == VSlice {
			return boolV(And(Eq(a.t, b.t), Eq(a.off, b.off), Eq(a.n, b.n)))
		}
		return boolV(Eq(a.t, b.t))
	case "back": // the identity of the backing array of a slice
		return intV(arg(0).t)
	case "arr": // raw backing array of a slice with scalar elements; with a second argument, of one of their fields
		v := arg(0)
		el := sliceElem(v.T)
		if len(e.Args) == 2 {
			f, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
			fs, _ := structFields(el)
			for _, sf := range fs {
				if s, ok := scalarSort(sf.typ); ok && sf.name == f {
					h := heapArr(c.st, "m:"+typeKey(el)+"."+f, "Int", ArrSort("Int", ArrSort("Int", s)))
					return Val{K: VScalar, t: Select(h, v.t)}
				}
			}
			unsup("arr of field %s", f)
		}
		s, ok := scalarSort(el)
		if !ok {
			unsup("arr of %s", el)
		}
		h := heapArr(c.st, "m:"+typeKey(el), "Int", ArrSort("Int", ArrSort("Int", s)))
		return Val{K: VScalar, t: Select(h, v.t)}
	case "id":
		return intV(arg(0).t)
	case "perm", "permInv": // where the last sort moved position k from, and to
		pi := c.st.perm
		if pi == nil {
			panic(unresolved{id.Name})
		}
		t := pi.tag
		if id.Name == "permInv" {
			t = pi.inv
		}
		return intV(Sub(Select(t, Add(pi.off, arg(0).t)), pi.off))
	case "off":
		return intV(arg(0).off)
	case "framed": // framed("m:*build.Ident"): outside the modifies clause this heap array is as at entry
		key, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		allowed, full, star := x.modifiable()
		h, ok := c.st.heap[key]
		if full[key] || star || !ok {
			return boolV(tTrue)
		}
		h0 := heapArr(x.entry, key, "", h.sort)
		p := Var("?fp", "Int")
		g := []*Term{Lt(p, x.entry.alloc), Implies(Lt(p, I(0)), Lt(mk("Int", "embinv", p), x.entry.alloc))}
		for _, a := range allowed[key] {
			g = append(g, Not(Eq(p, a)))
		}
		return boolV(Quant("forall", []*Term{p}, Implies(And(g...), Eq(Select(h, p), Select(h0, p))), Select(h, p)))
	case "has": // has(m, k)
		m, k := arg(0), arg(1)
		mt := m.T.Underlying().(*types.Map)
		d, _ := x.mapLoad(c.st, m, x.convert(c.st, k, mt.Key()))
		return boolV(d)
	case "dom": // raw domain array of a map
		m := arg(0)
		mt := m.T.Underlying().(*types.Map)
		key := "map:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
		return Val{K: VScalar, t: Select(heapArr(c.st, key+".dom", "Int", ArrSort("Int", ArrSort(keySortOf(mt.Key()), "Bool"))), m.t)}
	case "heap": // heap("build.CallExpr.List.id") raw heap array
		s, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		so := "Int"
		if len(e.Args) > 1 {
			so, _ = strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		}
		key := s
		if !strings.Contains(s, ":") {
			key = "f:" + s
		}
		srt := ArrSort("Int", so)
		if strings.HasPrefix(key, "m:") {
			srt = ArrSort("Int", srt)
		}
		return Val{K: VScalar, t: heapArr(c.st, key, "Int", srt)}
	case "ghost":
		n := e.Args[0].(*ast.Ident).Name
		l := &Loc{kind: LHeap, ref: I(0), key: "g:" + n, typ: tInt}
		return intV(c.st.rd(l, "", "Int"))
	case "recorded": // recorded(NAME, i): the i-th node the callback was given
		n := e.Args[0].(*ast.Ident).Name
		l := &Loc{kind: LHeap, ref: arg(1).t, key: "gs:" + n, typ: tInt}
		return Val{K: VScalar, T: c.lookupType("build.Expr"), t: c.st.rd(l, "", "Int")}
	case "ghostS":
		n := e.Args[0].(*ast.Ident).Name
		l := &Loc{kind: LHeap, ref: I(0), key: "g:" + n, typ: tString}
		return strV(c.st.rd(l, "", "String"))
	case "global": // global(pkg.Name)
		nm := exprStr(e.Args[0])
		k := strings.LastIndex(nm, ".")
		for _, p := range x.w.Pkgs {
			if shortPkg(p.Path) == nm[:k] || p.Types.Name() == nm[:k] {
				if o, ok := p.Types.Scope().Lookup(nm[k+1:]).(*types.Var); ok {
					return c.st.load(globalLoc(o))
				}
			}
		}
		unsup("global %s", nm)
	case "hasPrefix":
		return boolV(Pred("str.prefixof", arg(1).t, arg(0).t))
	case "hasSuffix":
		return boolV(Pred("str.suffixof", arg(1).t, arg(0).t))
	case "contains":
		return boolV(Pred("str.contains", arg(0).t, arg(1).t))
	case "indexOf":
		return intV(mk("Int", "str.indexof", arg(0).t, arg(1).t, I(0)))
	case "indexFrom":
		return intV(mk("Int", "str.indexof", arg(0).t, arg(1).t, arg(2).t))
	case "chr":
		v := arg(0).t
		if v.kind == kInt {
			return strV(S(string([]byte{byte(v.ival.Int64())})))
		}
		return strV(mk("String", "str.from_code", v))
	case "charAt":
		return strV(mk("String", "str.at", arg(0).t, arg(1).t))
	case "byte", "int", "rune":
		return arg(0)
	case "string":
		v := arg(0)
		if v.K == VSlice {
			s2 := c.st.clone()
			return x.conversion(s2, v, tString)
		}
		if v.K == VStruct && len(v.f) > 0 && isBuffer(v.T) { // what was written to a buffer
			return v.f[0]
		}
		return v
	case "lexless": // str.<
		return boolV(Pred("str.<", arg(0).t, arg(1).t))
	case "tagOf":
		return intV(mk("Int", "typeof", arg(0).t))
	case "elems": // elems(s, i, j) reserved
	}
	if d, ok := x.cs.Defs[id.Name]; ok {
		n := *c
		n.binds = map[string]Val{}
		for k, v := range c.binds {
			n.binds[k] = v
		}
		if len(e.Args) != len(d.Params) {
			unsup("spec def %s: arity", id.Name)
		}
		for i, p := range d.Params {
			n.binds[p] = c.eval(e.Args[i])
		}
		n.depth = c.depth + 100
		return n.eval(d.Body)
	}
	if l, ok := x.cs.Lemmas[id.Name]; ok {
		return boolV(x.lemmaInstance(c, l, e))
	}
	if d, ok := x.cs.Prel.decls[id.Name]; ok {
		var as []*Term
		for i := range e.Args {
			as = append(as, arg(i).t)
		}
		if len(as) != len(d.args) {
			unsup("spec fn %s: arity", id.Name)
		}
		for i := range as {
			if as[i].sort != d.args[i] {
				unsup("spec fn %s arg %d: sort %s, want %s", id.Name, i, as[i].sort, d.args[i])
			}
		}
		return sc(mk(d.res, id.Name, as...))
	}
	// deterministic library function modelled as uninterpreted
	if strings.HasPrefix(id.Name, "lib_") {
		op := id.Name
		var as []*Term
		for i := range e.Args {
			as = append(as, arg(i).t)
		}
		return sc(mk(libRes[op], op, as...))
	}
	unsup("spec: unknown function %s", id.Name)
	return Val{}
}

// scalars lists the scalar leaves of a value.
func scalars(v Val) []*Term {
	switch v.K {
	case VScalar:
		return []*Term{v.t}
	case VPtr:
		if v.loc == nil {
			return []*Term{v.t}
		}
	case VStruct, VTuple:
		var out []*Term
		for _, f := range v.f {
			out = append(out, scalars(f)...)
		}
		return out
	}
	unsup("function contract: argument is not a scalar")
	return nil
}

// functionVal is the result of a contract marked function: uninterpreted in the scalar arguments.
func (x *Exec) functionVal(st *State, name string, sig *types.Signature, as []*Term) Val {
	var build func(n string, t types.Type) Val
	build = func(n string, t types.Type) Val {
		if tu, ok := t.(*types.Tuple); ok {
			v := Val{K: VTuple, T: t}
			for i := 0; i < tu.Len(); i++ {
				v.f = append(v.f, build(fmt.Sprintf("%s.%d", n, i), tu.At(i).Type()))
			}
			return v
		}
		if fs, ok := structFields(t); ok {
			v := Val{K: VStruct, T: t}
			for _, f := range fs {
				v.f = append(v.f, build(n+"."+f.name, f.typ))
			}
			return v
		}
		s, ok := scalarSort(t)
		if _, sl := t.Underlying().(*types.Slice); !ok || sl {
			unsup("function contract: result %s is not a scalar", t)
		}
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			return Val{K: VPtr, T: t, t: mk(s, n, as...)}
		}
		return Val{K: VScalar, T: t, t: mk(s, n, as...)}
	}
	n := "fn_" + sanitize(name)
	if sig.Results().Len() == 1 {
		return build(n, sig.Results().At(0).Type())
	}
	return build(n, sig.Results())
}

var libRes = map[string]string{"lib_strings_Split_arr": "(Array Int String)", "lib_strings_Split_n": "Int"}

// lemmaInstance returns requires => ensures of the lemma at the given arguments.
func (x *Exec) lemmaInstance(c *SpecCtx, l *Contract, e *ast.CallExpr) *Term {
	n := *c
	n.binds = map[string]Val{}
	n.scope = nil
	if len(e.Args) != len(l.LParams) {
		unsup("lemma %s: arity", l.Func)
	}
	for i, p := range l.LParams {
		v := c.eval(e.Args[i])
		n.binds[p.Name] = v
	}
	x.contractsUsed["lemma "+l.Func] = true
	var rs, es []*Term
	for _, r := range l.Requires {
		rs = append(rs, n.Bool(r.E))
	}
	for _, r := range l.Ensures {
		es = append(es, n.Bool(r.E))
	}
	res := Implies(And(rs...), And(es...))
	if x.lemmaSelf == l && x.lemmaMeasure != nil {
		// inductive hypothesis: only below the measure
		m := n.eval(l.Measure.E).t
		res = Implies(And(Le(I(0), m), Lt(m, x.lemmaMeasure)), res)
	}
	return res
}

var _ = constant.MakeBool

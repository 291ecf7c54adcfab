package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Models of standard-library functions. Every model used is listed in the evidence as trusted.

func lib(sort, name string, args ...*Term) *Term {
	op := "lib_" + strings.ReplaceAll(sanitize(name), ".", "_")
	libRes[op] = sort
	return mk(sort, op, args...)
}

func bytesIn(cut string) *Term {
	var as []*Term
	for i := 0; i < len(cut); i++ {
		as = append(as, mk("RegLan", "str.to_re", S(cut[i:i+1])))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk("RegLan", "re.union", as...)
}

func (x *Exec) model(st *State, name string, fn *types.Func, recv *Val, args []Val, e *ast.CallExpr) ([]outV, bool) {
	if fn.Pkg() != nil && strings.HasPrefix(fn.Pkg().Path(), modPath) {
		return nil, false
	}
	sig := fn.Type().(*types.Signature)
	one := func(v Val) ([]outV, bool) {
		x.trusted["model of "+name] = true
		return []outV{{st, v}}, true
	}
	str := func(t *Term) ([]outV, bool) { return one(strV(t)) }
	a := func(i int) *Term { return args[i].t }
	switch name {
	case "strings.HasPrefix":
		return one(boolV(Pred("str.prefixof", a(1), a(0))))
	case "strings.HasSuffix":
		return one(boolV(Pred("str.suffixof", a(1), a(0))))
	case "strings.Contains":
		return one(boolV(Pred("str.contains", a(0), a(1))))
	case "strings.ContainsRune":
		if a(1).kind == kInt && a(1).ival.Int64() < 128 {
			return one(boolV(Pred("str.contains", a(0), S(string(rune(a(1).ival.Int64()))))))
		}
		return one(boolV(lib("Bool", name, a(0), a(1))))
	case "strings.ContainsAny":
		if a(1).kind == kStr {
			var ps []*Term
			for i := 0; i < len(a(1).sval); i++ {
				if a(1).sval[i] >= 128 {
					return one(boolV(lib("Bool", name, a(0), a(1))))
				}
				ps = append(ps, Pred("str.contains", a(0), S(a(1).sval[i:i+1])))
			}
			return one(boolV(Or(ps...)))
		}
	case "filepath.Ext", "path.Ext", "path/filepath.Ext":
		// the suffix beginning at the final dot of the final path element
		r, p, q := mk("String", "extOf", a(0)), mk("String", "extStem", a(0)), mk("String", "extTail", a(0))
		dot, slash := S("."), S("/")
		st.assume(Eq(a(0), Concat(p, r)))
		st.assume(Eq(mk("String", "str.substr", a(0), I(0), Sub(StrLen(a(0)), StrLen(r))), p))
		st.assume(Or(And(Eq(r, S("")), Implies(Not(Pred("str.contains", a(0), slash)), Not(Pred("str.contains", a(0), dot)))),
			And(Eq(r, Concat(dot, q)), Not(Pred("str.contains", q, dot)), Not(Pred("str.contains", q, slash)))))
		return one(strV(r))
	case "path/filepath.Base":
		// on this system: no separator in the last element, unless it is the root
		r := lib("String", "path_filepath.Base.0", a(0))
		st.assume(Or(Eq(r, S("/")), Not(Pred("str.contains", r, S("/")))))
		return one(strV(r))
	case "strings.ToLower":
		r := lib("String", "strings.ToLower.0", a(0))
		st.assume(Eq(Pred("str.contains", r, S("/")), Pred("str.contains", a(0), S("/"))))
		st.assume(Eq(Eq(r, S("/")), Eq(a(0), S("/"))))
		st.assume(Eq(Eq(r, S("")), Eq(a(0), S(""))))
		return one(strV(r))
	case "strings.Count":
		r := lib("Int", "strings.Count.0", a(0), a(1))
		st.assume(And(Le(I(0), r), Eq(Eq(r, I(0)), Not(Pred("str.contains", a(0), a(1))))))
		return one(intV(r))
	case "strings.Cut":
		if a(1).kind == kStr && len(a(1).sval) == 1 {
			has := Pred("str.contains", a(0), a(1))
			p0, p1 := lib("String", "strings.Cut.0", a(0), a(1)), lib("String", "strings.Cut.1", a(0), a(1))
			st.assume(Ite(has, And(Eq(a(0), Concat(p0, a(1), p1)), Not(Pred("str.contains", p0, a(1)))), And(Eq(p0, a(0)), Eq(p1, S("")))))
			return one(Val{K: VTuple, f: []Val{strV(p0), strV(p1), boolV(has)}})
		}
	case "strings.Index":
		return one(intV(mk("Int", "str.indexof", a(0), a(1), I(0))))
	case "strings.IndexByte":
		return one(intV(mk("Int", "str.indexof", a(0), mk("String", "str.from_code", a(1)), I(0))))
	case "strings.LastIndex", "strings.LastIndexByte":
		sub := a(1)
		if sub.sort == "Int" {
			if sub.kind == kInt {
				sub = S(string([]byte{byte(sub.ival.Int64())}))
			} else {
				sub = mk("String", "str.from_code", sub)
			}
		}
		r := lib("Int", "strings.LastIndex", a(0), sub)
		c := Pred("str.contains", a(0), sub)
		n := StrLen(a(0))
		st.assume(And(Le(I(-1), r), Le(Add(r, StrLen(sub)), n), mk("Bool", "=", c, Le(I(0), r)),
			Implies(c, And(Eq(Substr(a(0), r, StrLen(sub)), sub), Not(Pred("str.contains", Substr(a(0), Add(r, I(1)), Sub(n, Add(r, I(1)))), sub))))))
		return one(intV(r))
	case "strings.TrimPrefix":
		return str(Ite(Pred("str.prefixof", a(1), a(0)), Substr(a(0), StrLen(a(1)), Sub(StrLen(a(0)), StrLen(a(1)))), a(0)))
	case "strings.TrimSuffix":
		return str(Ite(Pred("str.suffixof", a(1), a(0)), Substr(a(0), I(0), Sub(StrLen(a(0)), StrLen(a(1)))), a(0)))
	case "strings.TrimLeft":
		if a(1).kind == kStr && a(1).sval != "" {
			r := lib("String", name, a(0), a(1))
			p := Substr(a(0), I(0), Sub(StrLen(a(0)), StrLen(r)))
			st.assume(And(Pred("str.suffixof", r, a(0)), Le(StrLen(r), StrLen(a(0)))))
			if len(a(1).sval) > 1 {
				st.assume(mk("Bool", "str.in_re", p, mk("RegLan", "re.*", bytesIn(a(1).sval))))
			}
			for i := 0; i < len(a(1).sval); i++ {
				st.assume(Not(Pred("str.prefixof", S(a(1).sval[i:i+1]), r)))
				if len(a(1).sval) == 1 {
					c := a(1)
					s1 := Substr(a(0), I(1), Sub(StrLen(a(0)), I(1)))
					st.assume(Implies(Not(Pred("str.prefixof", c, a(0))), Eq(r, a(0))))
					st.assume(Implies(And(Pred("str.prefixof", c, a(0)), Not(Pred("str.prefixof", c, s1))), Eq(r, s1)))
				}
			}
			return str(r)
		}
	case "strings.TrimRight":
		if a(1).kind == kStr && a(1).sval != "" {
			r := lib("String", name, a(0), a(1))
			p := Substr(a(0), StrLen(r), Sub(StrLen(a(0)), StrLen(r)))
			st.assume(And(Eq(a(0), Concat(r, p)), Le(StrLen(r), StrLen(a(0))), mk("Bool", "str.in_re", p, mk("RegLan", "re.*", bytesIn(a(1).sval)))))
			for i := 0; i < len(a(1).sval); i++ {
				st.assume(Not(Pred("str.suffixof", S(a(1).sval[i:i+1]), r)))
			}
			return str(r)
		}
	case "strings.TrimSpace":
		r := lib("String", name, a(0))
		st.assume(And(Pred("str.contains", a(0), r), Le(StrLen(r), StrLen(a(0))), Eq(lib("String", name, r), r)))
		return str(r)
	case "strings.Repeat":
		if a(0).kind == kStr && a(1).kind == kInt {
			return str(S(strings.Repeat(a(0).sval, int(a(1).ival.Int64()))))
		}
		r := lib("String", name, a(0), a(1))
		st.assume(Eq(StrLen(r), Mul(StrLen(a(0)), a(1))))
		return str(r)
	case "strings.Replace":
		if a(3).kind == kInt && a(3).ival.Int64() < 0 {
			return str(mk("String", "str.replace_all", a(0), a(1), a(2)))
		}
		if a(3) == I(1) {
			return str(mk("String", "str.replace", a(0), a(1), a(2)))
		}
	case "strings.ReplaceAll":
		return str(mk("String", "str.replace_all", a(0), a(1), a(2)))
	case "strings.Split", "strings.SplitN", "strings.Fields":
		var ts []*Term
		for _, v := range args {
			ts = append(ts, v.t)
		}
		n := lib("Int", name+".n", ts...)
		arr := lib(ArrSort("Int", "String"), name+".arr", ts...)
		st.assume(Le(I(0), n))
		st.assume(Le(n, Add(StrLen(a(0)), I(1))))
		if name != "strings.Fields" {
			nonempty := Lt(I(0), StrLen(a(1)))
			has := Pred("str.contains", a(0), a(1))
			if name == "strings.Split" {
				st.assume(Implies(nonempty, And(Le(I(1), n), mk("Bool", "=", has, Le(I(2), n)))))
				st.assume(Implies(nonempty, Implies(Not(has), And(Eq(n, I(1)), Eq(Select(arr, I(0)), a(0))))))
				p := Var("?sp", "Int")
				st.assume(Quant("forall", []*Term{p}, Implies(And(nonempty, Le(I(0), p), Lt(p, n)), Not(Pred("str.contains", Select(arr, p), a(1)))), Select(arr, p)))
			} else if a(2) == I(2) {
				p0, p1 := lib("String", name+".p0", a(0), a(1)), lib("String", name+".p1", a(0), a(1))
				arr = Store(Store(arr, I(0), p0), I(1), p1)
				var cut *Term
				if a(1).kind == kStr && len(a(1).sval) == 1 {
					// a one-byte separator: the first part is the longest prefix without it
					cut = And(Eq(a(0), Concat(p0, a(1), p1)), Not(Pred("str.contains", p0, a(1))), Eq(StrLen(p0), mk("Int", "str.indexof", a(0), a(1), I(0))))
				} else {
					ix := mk("Int", "str.indexof", a(0), a(1), I(0))
					cut = And(Eq(p0, Substr(a(0), I(0), ix)), Eq(p1, Substr(a(0), Add(ix, StrLen(a(1))), Sub(StrLen(a(0)), Add(ix, StrLen(a(1)))))))
				}
				st.assume(Implies(nonempty, Ite(has, And(Eq(n, I(2)), cut),
					And(Eq(n, I(1)), Eq(p0, a(0))))))
			}
		}
		id := st.alloc
		st.alloc = Add(st.alloc, I(1))
		h := heapArr(st, "m:string", "Int", ArrSort("Int", ArrSort("Int", "String")))
		st.touched("m:string")
		st.heap["m:string"] = Store(h, id, arr)
		return one(Val{K: VSlice, T: sig.Results().At(0).Type(), t: id, off: I(0), n: n, cap: n})
	case "strings.Join":
		s := args[0]
		if s.n.kind == kInt && s.n.ival.Int64() <= 6 {
			var ps []*Term
			for i := int64(0); i < s.n.ival.Int64(); i++ {
				if i > 0 {
					ps = append(ps, a(1))
				}
				ps = append(ps, st.load(elemLoc(s, I(i))).t)
			}
			return str(Concat(ps...))
		}
		h := heapArr(st, "m:string", "Int", ArrSort("Int", ArrSort("Int", "String")))
		return str(lib("String", name, Select(h, s.t), s.off, s.n, a(1)))
	case "strconv.Itoa":
		r := lib("String", name, a(0))
		st.assume(Implies(Le(I(0), a(0)), Eq(r, mk("String", "str.from_int", a(0)))))
		return str(r)
	case "errors.New", "fmt.Errorf":
		r := Fresh("err", "Int")
		st.assume(Lt(I(0), r))
		return one(Val{K: VScalar, T: sig.Results().At(0).Type(), t: r})
	case "fmt.Sprintf":
		if t, ok := sprintf(args); ok {
			return str(t)
		}
		return str(Fresh("sprintf", "String"))
	case "fmt.Sprint", "fmt.Sprintln":
		return str(Fresh("sprint", "String"))
	case "fmt.Print", "fmt.Printf", "fmt.Println", "log.Print", "log.Printf", "log.Println":
		return []outV{{st, x.resultVal(st, sig, "n")}}, x.trust(name)
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		// output to a buffer we can see appends; other writers have no modelled effect
		if args[0].t != nil && e != nil {
			if r, ok := x.fprintfBuf(st, name, args, e); ok {
				return r, true
			}
		}
		return []outV{{st, x.resultVal(st, sig, "n")}}, x.trust(name)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panicf", "log.Panic":
		x.trusted["model of "+name+" (does not return)"] = true
		return nil, true
	case "os.Exit":
		x.trusted["model of os.Exit (does not return)"] = true
		return nil, true
	case "bytes.Equal":
		return one(boolV(x.bytesEqual(st, args[0], args[1])))
	case "sort.Strings", "sort.Ints":
		x.permute(st, args[:1], func(q *State, i, j *Term) *Term {
			a, b := q.load(elemLoc(args[0], i)).t, q.load(elemLoc(args[0], j)).t
			if name == "sort.Ints" {
				return Le(a, b)
			}
			return Pred("str.<=", a, b)
		})
		x.trusted["model of "+name+" (a sorted permutation of its argument)"] = true
		return []outV{{st, intV(I(0))}}, true
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(st, args, e, name == "sort.SliceStable")
		x.trusted["model of "+name+" (a permutation of its argument, ordered by the comparison when that is translatable)"] = true
		return []outV{{st, intV(I(0))}}, true
	case "sort.SliceIsSorted":
		s, r := args[0], Fresh("issorted", "Bool")
		if s.K == VScalar && len(s.f) == 1 { // boxed slice
			s = s.f[0]
		}
		if s.K == VSlice {
			i, j := Var("?oi", "Int"), Var("?oj", "Int")
			if t := x.closedBool(st.clone(), j, i, s.n, func(q *State, a, b *Term) []outV {
				return x.callClosure(q, args[1].fn, []Val{intV(a), intV(b)}, nil, 0)
			}); t != nil {
				st.assume(Implies(r, Quant("forall", []*Term{i, j}, Implies(And(Le(I(0), i), Lt(i, j), Lt(j, s.n)), Not(t)))))
			}
		}
		x.trusted["model of "+name+" (reports true only for an ordered slice)"] = true
		return []outV{{st, boolV(r)}}, true
	case "sort.Sort", "sort.Stable", "sort.IsSorted":
		if e == nil {
			break
		}
		x.trusted["model of "+name+" (by the contracts of the type's Len, Less and Swap, whose order is obliged to be a strict weak one)"] = true
		return x.sortIface(st, name, args, e), true
	case "unicode/utf8.DecodeRune":
		s := args[0]
		r, w := Fresh("rune", "Int"), Fresh("width", "Int")
		b := st.load(elemLoc(s, I(0))).t
		st.assume(And(Le(I(0), r), Le(r, I(0x10FFFF)), Le(I(0), w), Le(w, I(4)), Le(w, s.n),
			mk("Bool", "=", Eq(w, I(0)), Eq(s.n, I(0))), Implies(And(Lt(I(0), s.n), Lt(b, I(128))), And(Eq(w, I(1)), Eq(r, b))),
			Implies(And(Lt(I(0), s.n), Le(I(128), b)), Le(I(128), r))))
		return one(Val{K: VTuple, f: []Val{{K: VScalar, T: types.Typ[types.Int32], t: r}, intV(w)}})
	case "unicode/utf8.RuneCountInString":
		return one(intV(x.runeCount(st, a(0))))
	case "regexp.MustCompile":
		r := lib("Int", name, a(0))
		st.assume(And(Lt(I(0), r), Lt(r, st.alloc)))
		return one(Val{K: VPtr, T: sig.Results().At(0).Type(), t: r})
	case "regexp.Regexp.MatchString":
		return one(boolV(lib("Bool", name, recv.t, a(0))))
	case "regexp.Regexp.ReplaceAllString":
		return str(lib("String", name, recv.t, a(0), a(1)))
	}
	// buffers
	if recv != nil {
		if p, ok := recv.T.Underlying().(*types.Pointer); ok && isBuffer(p.Elem()) {
			return x.bufMethod(st, fn.Name(), *recv, args, sig)
		}
	}
	// deterministic function of scalar arguments
	if recv == nil || recv.K == VPtr && recv.loc == nil && pureMethod(name) {
		var ts []*Term
		ok := pureLib(fn)
		if recv != nil {
			ts = append(ts, recv.t)
		}
		for _, v := range args {
			if v.K != VScalar && !(v.K == VPtr && v.loc == nil) {
				ok = false
				break
			}
			ts = append(ts, v.t)
		}
		if ok {
			mkRes := func(i int, t types.Type) (Val, bool) {
				s, ok := scalarSort(t)
				if !ok {
					return Val{}, false
				}
				if sl, is := t.Underlying().(*types.Slice); is && sl != nil {
					return Val{}, false
				}
				v := Val{K: VScalar, T: t, t: lib(s, fmt.Sprintf("%s.%d", name, i), ts...)}
				if _, is := t.Underlying().(*types.Pointer); is {
					v.K = VPtr
					st.assume(And(Le(I(0), v.t), Lt(v.t, st.alloc)))
					return v, true
				}
				st.wf(v)
				return v, true
			}
			switch sig.Results().Len() {
			case 0:
			case 1:
				if v, ok := mkRes(0, sig.Results().At(0).Type()); ok {
					return one(v)
				}
			default:
				tu := Val{K: VTuple, T: sig.Results()}
				good := true
				for i := 0; i < sig.Results().Len(); i++ {
					v, ok := mkRes(i, sig.Results().At(i).Type())
					good = good && ok
					tu.f = append(tu.f, v)
				}
				if good {
					return one(tu)
				}
			}
		}
	}
	return nil, false
}

func (x *Exec) trust(name string) bool {
	x.trusted["model of "+name+" (no effect on the modelled state)"] = true
	return true
}

func pureLib(fn *types.Func) bool {
	if fn.Pkg() == nil {
		return true
	}
	switch fn.Pkg().Path() {
	case "strings", "strconv", "path", "path/filepath", "unicode", "unicode/utf8", "math", "bytes":
		return true
	case "regexp":
		return true
	}
	return false
}

func pureMethod(name string) bool { return strings.HasPrefix(name, "regexp.Regexp.") }

func (x *Exec) runeCount(st *State, s *Term) *Term {
	n := mk("Int", "runecount", s)
	st.assume(And(Le(I(0), n), Le(n, StrLen(s)), mk("Bool", "=", Eq(n, I(0)), Eq(s, S("")))))
	return n
}

// unboxed returns the scalar behind a boxed interface value.
func unboxed(t *Term) (*Term, bool) {
	if t.kind == kApp && strings.HasPrefix(t.op, "box_") {
		return t.args[0], true
	}
	return nil, false
}

// sprintf models constant formats with %s / %d / %% over scalar arguments.
func sprintf(args []Val) (*Term, bool) {
	if args[0].t.kind != kStr {
		return nil, false
	}
	f := args[0].t.sval
	els := args[1].f
	var parts []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			parts = append(parts, S(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			parts = append(parts, S("%"))
			continue
		}
		if k >= len(els) {
			return nil, false
		}
		u, ok := unboxed(els[k].t)
		if !ok {
			return nil, false
		}
		k++
		switch {
		case (f[i] == 's' || f[i] == 'v') && u.sort == "String":
			parts = append(parts, u)
		case (f[i] == 'd' || f[i] == 'v') && u.sort == "Int":
			parts = append(parts, lib("String", "strconv.Itoa", u))
		case f[i] == 'q' && u.sort == "String":
			parts = append(parts, lib("String", "strconv.Quote.0", u))
		case f[i] == 'c' && u.sort == "Int":
			parts = append(parts, lib("String", "fmt.c", u))
		default:
			return nil, false
		}
	}
	if k != len(els) {
		return nil, false
	}
	return Concat(parts...), true
}

func (x *Exec) bytesEqual(st *State, a, b Val) *Term {
	h := heapArr(st, "m:uint8", "Int", ArrSort("Int", ArrSort("Int", "Int")))
	bs := func(v Val) *Term {
		if v.K == VNil {
			return S("")
		}
		r := mk("String", "arr2str", Select(h, v.t), v.off, v.n)
		st.assume(Eq(StrLen(r), v.n))
		return r
	}
	return Eq(bs(a), bs(b))
}

func (x *Exec) fprintfBuf(st *State, name string, args []Val, e *ast.CallExpr) ([]outV, bool) {
	u, ok := ast.Unparen(e.Args[0]).(*ast.UnaryExpr)
	var outs []outL
	if ok && isBuffer(x.info(st).TypeOf(u.X)) {
		outs = x.lval(st, u.X)
	} else if p, ok := x.info(st).TypeOf(e.Args[0]).Underlying().(*types.Pointer); ok && isBuffer(p.Elem()) {
		for _, o := range x.expr(st, e.Args[0]) {
			outs = append(outs, outL{o.st, o.st.ptrLoc(o.v)})
		}
	} else {
		return nil, false
	}
	var t *Term
	if name == "fmt.Fprintf" {
		if s, ok := sprintf(args[1:]); ok {
			t = s
		}
	}
	var res []outV
	for _, o := range outs {
		tt := t
		if tt == nil {
			tt = Fresh("fprintf", "String")
		}
		l := o.st.field(o.loc, 0)
		o.st.store(l, strV(Concat(o.st.load(l).t, tt)))
		if x.assigned != nil && l.kind == LLocal {
			x.assigned[l.obj] = true
		}
		res = append(res, outV{o.st, Val{K: VTuple, f: []Val{intV(StrLen(tt)), {K: VScalar, T: types.Universe.Lookup("error").Type(), t: I(0)}}}})
	}
	x.trusted["model of "+name] = true
	return res, true
}

func (x *Exec) bufMethod(st *State, m string, recv Val, args []Val, sig *types.Signature) ([]outV, bool) {
	x.trusted["model of bytes.Buffer / strings.Builder"] = true
	loc := st.ptrLoc(recv)
	l := st.field(loc, 0)
	cur := st.load(l)
	app := func(t *Term) {
		if l.kind == LLocal && x.assigned != nil {
			x.assigned[l.obj] = true
		}
		st.store(l, strV(Concat(cur.t, t)))
	}
	errT := types.Universe.Lookup("error").Type()
	noErr := Val{K: VScalar, T: errT, t: I(0)}
	switch m {
	case "WriteString":
		app(args[0].t)
		return []outV{{st, Val{K: VTuple, f: []Val{intV(StrLen(args[0].t)), noErr}}}}, true
	case "WriteByte":
		c := args[0].t
		if c.kind == kInt {
			app(S(string([]byte{byte(c.ival.Int64())})))
		} else {
			app(mk("String", "str.from_code", c))
		}
		return []outV{{st, noErr}}, true
	case "WriteRune":
		v := x.conversion(st, args[0], tString)
		app(v.t)
		return []outV{{st, Val{K: VTuple, f: []Val{intV(StrLen(v.t)), noErr}}}}, true
	case "Write":
		v := x.conversion(st, args[0], tString)
		app(v.t)
		return []outV{{st, Val{K: VTuple, f: []Val{intV(StrLen(v.t)), noErr}}}}, true
	case "String":
		return []outV{{st, strV(cur.t)}}, true
	case "Len":
		return []outV{{st, intV(StrLen(cur.t))}}, true
	case "Bytes":
		return []outV{{st, x.conversion(st, strV(cur.t), sig.Results().At(0).Type())}}, true
	case "Reset":
		if l.kind == LLocal && x.assigned != nil {
			x.assigned[l.obj] = true
		}
		st.store(l, strV(S("")))
		return []outV{{st, intV(I(0))}}, true
	case "Truncate":
		n := args[0].t
		st.oblige("safety", "truncate-bounds", And(Le(I(0), n), Le(n, StrLen(cur.t))), 0)
		if l.kind == LLocal && x.assigned != nil {
			x.assigned[l.obj] = true
		}
		st.store(l, strV(Substr(cur.t, I(0), n)))
		return []outV{{st, intV(I(0))}}, true
	}
	return nil, false
}

// permute replaces the elements of s by an unspecified permutation; ord (if given) states the order of
// the new elements.
func (x *Exec) permute(st *State, ss []Val, ord func(q *State, i, j *Term) *Term) {
	tag := Fresh("perm", ArrSort("Int", "Int"))
	inv := Fresh("perminv", ArrSort("Int", "Int"))
	old := st.clone()
	s := ss[0]
	for _, s := range ss {
		el := sliceElem(s.T)
		leafKeys("m:"+typeKey(el), el, true, func(key, sort string) {
			h := heapArr(st, key, "Int", ArrSort("Int", ArrSort("Int", sort)))
			heapArr(old, key, "Int", h.sort)
			st.touched(key)
			if strings.HasSuffix(key, ".off") && h.op == "constarr" {
				return
			}
			na := Fresh("sorted", ArrSort("Int", sort))
			st.heap[key] = Store(h, s.t, na)
			k := Var("?pm", "Int")
			oa := Select(h, s.t)
			in := And(Le(s.off, k), Lt(k, Add(s.off, s.n)))
			src := Select(tag, k)
			if s.off != ss[0].off {
				src = Add(Select(tag, Add(Sub(k, s.off), ss[0].off)), Sub(s.off, ss[0].off))
			}
			st.assume(Quant("forall", []*Term{k}, Eq(Select(na, k), Ite(in, Select(oa, src), Select(oa, k))), Select(na, k)))
		})
	}
	st.perm = &permInfo{tag, inv, s.off}
	k := Var("?pk", "Int")
	in := func(k *Term) *Term { return And(Le(s.off, k), Lt(k, Add(s.off, s.n))) }
	st.assume(Quant("forall", []*Term{k}, Implies(in(k), And(in(Select(tag, k)), Eq(Select(inv, Select(tag, k)), k))), Select(tag, k)))
	st.assume(Quant("forall", []*Term{k}, Implies(in(k), And(in(Select(inv, k)), Eq(Select(tag, Select(inv, k)), k))), Select(inv, k)))
	if ord != nil {
		i, j := Var("?oi", "Int"), Var("?oj", "Int")
		if t := ord(st.clone(), i, j); t != nil {
			st.assume(Quant("forall", []*Term{i, j}, Implies(And(Le(I(0), i), Lt(i, j), Lt(j, s.n)), t)))
		}
	}
}

func (x *Exec) sortSlice(st *State, args []Val, e *ast.CallExpr, stable bool) {
	s := args[0]
	if s.K == VScalar && len(s.f) == 1 { // boxed slice
		s = s.f[0]
	}
	if s.K != VSlice {
		unsup("sort of %v", s.T)
	}
	less := args[1]
	cmp := func(st *State, a, b *Term) *Term {
		return x.closedBool(st, a, b, s.n, func(q *State, a, b *Term) []outV {
			return x.callClosure(q, less.fn, []Val{intV(a), intV(b)}, nil, 0)
		})
	}
	x.orderObls(st, s.n, cmp, e.Pos())
	x.permute(st, []Val{s}, func(q *State, i, j *Term) *Term {
		t := cmp(q, j, i)
		if t == nil {
			return nil
		}
		if stable { // what is not ordered keeps its order
			if u := cmp(q, i, j); u != nil {
				return And(Not(t), Or(u, Lt(Select(st.perm.tag, Add(s.off, i)), Select(st.perm.tag, Add(s.off, j)))))
			}
		}
		return Not(t)
	})
}

// closedBool evaluates a comparison of two indices to one term over them; nil if that needs anything else.
func (x *Exec) closedBool(st *State, a, b, n *Term, run func(q *State, a, b *Term) []outV) (t *Term) {
	ca, cb := Fresh("si", "Int"), Fresh("sj", "Int")
	q := st.clone()
	q.assume(And(Le(I(0), ca), Lt(ca, n), Le(I(0), cb), Lt(cb, n)))
	n0 := len(q.pc)
	mark := freshSeq
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			t = nil
		}
	}()
	x.mute++
	x.closed++
	defer func() { x.mute--; x.closed-- }()
	sa, stt := x.assigned, x.touch
	x.assigned, x.touch = nil, nil
	defer func() { x.assigned, x.touch = sa, stt }()
	outs := run(q, ca, cb)
	if len(outs) > 40 {
		return nil
	}
	var alts []*Term
	for _, o := range outs {
		if o.st.flow != FNormal {
			return nil
		}
		var pc []*Term
		for _, c := range o.st.pc[min(n0, len(o.st.pc)):] {
			pc = append(pc, c)
		}
		alts = append(alts, And(And(pc...), o.v.t))
	}
	t = Or(alts...)
	if newerThan(t, mark) {
		return nil
	}
	return Subst(t, map[*Term]*Term{ca: a, cb: b})
}

// orderObls obliges a comparison to be a strict weak order on the indices below n: only then does sorting give a
// sorted result.
func (x *Exec) orderObls(st *State, n *Term, cmp func(st *State, a, b *Term) *Term, pos token.Pos) {
	a, b, c := Fresh("oa", "Int"), Fresh("ob", "Int"), Fresh("oc", "Int")
	q := st.clone()
	for _, v := range []*Term{a, b, c} {
		q.assume(And(Le(I(0), v), Lt(v, n)))
	}
	ab := cmp(q, a, b)
	if ab == nil {
		return
	}
	bc, ac := cmp(q, b, c), cmp(q, a, c)
	x.obligeOn(q, len(st.pc), "order.irreflexive", Not(cmp(q, a, a)), pos)
	x.obligeOn(q, len(st.pc), "order.transitive", Implies(And(ab, bc), ac), pos)
	x.obligeOn(q, len(st.pc), "order.incomparable", Implies(And(Not(ab), Not(bc)), Not(ac)), pos)
}

func (x *Exec) obligeOn(q *State, n0 int, name string, goal *Term, pos token.Pos) {
	n := len(q.pc)
	k := len(x.obls)
	q.oblige("order", name, goal, pos)
	if len(x.obls) > k && n0 <= n {
		x.obls[k].Own = append([]*Term{}, q.pc[n0:n]...)
	}
	q.pc = q.pc[:n:n]
}

// sortIface is sort.Sort, sort.Stable and sort.IsSorted on a value whose type has Len, Less and Swap under contract:
// a slice type, or a pointer to a struct whose slices are exchanged together.
func (x *Exec) sortIface(st *State, name string, args []Val, e *ast.CallExpr) []outV {
	T := x.info(st).TypeOf(e.Args[0])
	meth := func(m string) (*types.Func, *Contract) {
		o, _, _ := types.LookupFieldOrMethod(T, true, st.fr.pkg.Types, m)
		f, _ := o.(*types.Func)
		if f == nil {
			unsup("%s of %v", name, T)
		}
		ct := x.cs.ByFunc[funcName(f)]
		if ct == nil {
			unsup("%s of %v: %s has no contract", name, T, funcName(f))
		}
		x.contractsUsed[ct.Func] = true
		return f, ct
	}
	lf, less := meth("Less")
	meth("Len")
	if name != "sort.IsSorted" {
		meth("Swap")
	}
	recv := args[0]
	if recv.K == VScalar && len(recv.f) == 1 {
		recv = recv.f[0]
	}
	recv.T = T
	var slices []Val
	if p, ok := T.Underlying().(*types.Pointer); ok {
		recv.K = VPtr
		fs, ok := structFields(p.Elem())
		if !ok {
			unsup("%s of %v", name, T)
		}
		for i, f := range fs {
			l := st.field(st.ptrLoc(recv), i)
			v := st.load(l)
			if v.K == VSlice {
				slices = append(slices, v)
			} else if name != "sort.IsSorted" {
				st.store(l, st.freshVal("f."+f.name, f.typ))
			}
		}
	} else if recv.K == VSlice {
		slices = []Val{recv}
	}
	if len(slices) == 0 {
		unsup("%s of %v", name, T)
	}
	n := slices[0].n
	cmp := func(q *State, a, b *Term) *Term {
		for _, en := range less.Ensures {
			c, ok := en.E.(*ast.CallExpr)
			if !ok || len(c.Args) != 2 {
				continue
			}
			id, ok := c.Fun.(*ast.Ident)
			r, ok2 := c.Args[0].(*ast.Ident)
			if ok && ok2 && id.Name == "iff" && len(less.Results) == 1 && r.Name == less.Results[0] && len(less.Params) == 3 {
				cx := &SpecCtx{x: x, st: q, old: q, binds: map[string]Val{less.Params[0]: recv, less.Params[1]: intV(a), less.Params[2]: intV(b)}, pkg: x.w.Pkgs[lf.Pkg().Path()].Types}
				return cx.Bool(c.Args[1])
			}
		}
		return nil
	}
	x.orderObls(st, n, cmp, e.Pos())
	if name == "sort.IsSorted" {
		r := Fresh("sorted", "Bool")
		i, j := Var("?si", "Int"), Var("?sj", "Int")
		if t := cmp(st, Add(i, I(1)), i); t != nil {
			st.assume(mk("Bool", "=", r, Quant("forall", []*Term{i}, Implies(And(Le(I(0), i), Lt(Add(i, I(1)), n)), Not(t)))))
			st.assume(Implies(r, Quant("forall", []*Term{i, j}, Implies(And(Le(I(0), i), Lt(i, j), Lt(j, n)), Not(cmp(st, j, i))))))
		}
		return []outV{{st, boolV(r)}}
	}
	x.permute(st, slices, func(q *State, i, j *Term) *Term {
		t := cmp(q, j, i)
		if t == nil {
			return nil
		}
		return Not(t)
	})
	return []outV{{st, intV(I(0))}}
}

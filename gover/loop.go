package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
)

// numberLoops assigns loop ordinals in source order, descending into inlined callees.
func (x *Exec) numberLoops(fd *FuncDecl, ct *Contract) {
	x.loopIdx = map[ast.Node]int{}
	x.loopOwn = map[ast.Node]*Contract{}
	n := map[*Contract]int{}
	seen := map[*types.Func]bool{}
	var walk func(p *Pkg, node ast.Node, own *Contract)
	var walkFn func(fn *types.Func, own *Contract)
	walkFn = func(fn *types.Func, own *Contract) {
		if seen[fn] {
			return
		}
		f := x.w.Funcs[fn]
		if f == nil || f.Decl.Body == nil {
			return
		}
		c := x.cs.ByFunc[f.Name]
		if c != nil && !c.Inline && c != ct && !(ct.InlineSet[f.Name]) {
			return
		}
		seen[fn] = true
		if c != nil && len(c.Loops) > 0 {
			own = c
		}
		walk(f.Pkg, f.Decl.Body, own)
	}
	walk = func(p *Pkg, node ast.Node, own *Contract) {
		ast.Inspect(node, func(nd ast.Node) bool {
			switch nd := nd.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				x.loopIdx[nd] = n[own]
				x.loopOwn[nd] = own
				n[own]++
			case *ast.CallExpr:
				var fn *types.Func
				switch f := ast.Unparen(nd.Fun).(type) {
				case *ast.Ident:
					fn, _ = p.Info.Uses[f].(*types.Func)
				case *ast.SelectorExpr:
					fn, _ = p.Info.Uses[f.Sel].(*types.Func)
				}
				if fn != nil {
					walkFn(fn, own)
				}
			}
			return true
		})
	}
	seen[fd.Obj] = true
	walk(fd.Pkg, fd.Decl.Body, ct)
}

type iter struct {
	guard func(*State) []condOut
	pre   func(*State)
	body  *ast.BlockStmt
	post  func(*State) []*State
	facts func(*State)
	free  func(k *Term) *Term // facts about _k that always hold
}

var kObjs = map[ast.Node]*types.Var{}

func (x *Exec) loop(st *State, s ast.Stmt, label string) []*State {
	k, ok := kObjs[s]
	if !ok {
		k = types.NewVar(token.NoPos, nil, "_k", tInt)
		kObjs[s] = k
	}
	type start struct {
		st *State
		it iter
		n  *Term
	}
	var starts []start
	var done []*State
	switch l := s.(type) {
	case *ast.ForStmt:
		for _, c := range x.stmt(st, l.Init) {
			if c.flow != FNormal {
				done = append(done, c)
				continue
			}
			starts = append(starts, start{c, iter{
				guard: func(q *State) []condOut {
					if l.Cond == nil {
						return []condOut{{q, true}}
					}
					return x.cond(q, l.Cond)
				},
				pre:  func(*State) {},
				body: l.Body,
				post: func(q *State) []*State { return x.stmt(q, l.Post) },
				free: func(k *Term) *Term { return Le(I(0), k) },
			}, nil})
		}
	case *ast.RangeStmt:
		for _, o := range x.expr(st, l.X) {
			rv := o.v
			bind := func(q *State, e ast.Expr, v Val) {
				if e == nil {
					return
				}
				id, ok := e.(*ast.Ident)
				if ok && id.Name == "_" {
					return
				}
				if l.Tok == token.DEFINE {
					x.declare(q, x.info(q).Defs[id], v)
					return
				}
				for _, r := range x.assignTo(q, e, v) {
					*q = *r
				}
			}
			switch u := rv.T.Underlying().(type) {
			case *types.Slice, *types.Array:
				n := x.lenOf(o.st, rv, false)
				if seqObjs[s] == nil {
					seqObjs[s] = types.NewVar(token.NoPos, nil, "_seq", rv.T)
				}
				o.st.env[seqObjs[s]] = rv
				starts = append(starts, start{o.st, iter{
					guard: func(q *State) []condOut { return x.split(q, Lt(q.env[k].t, n)) },
					pre: func(q *State) {
						i := q.env[k].t
						bind(q, l.Key, intV(i))
						if l.Value != nil {
							if rv.K == VSlice {
								bind(q, l.Value, q.load(elemLoc(rv, i)))
							} else {
								bind(q, l.Value, Val{K: VScalar, T: sliceElem(rv.T), t: Select(rv.t, i)})
							}
						}
					},
					body: l.Body,
					post: func(q *State) []*State { return []*State{q} },
					free: func(k *Term) *Term { return And(Le(I(0), k), Le(k, n)) },
				}, n})
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					n := rv.t
					starts = append(starts, start{o.st, iter{
						guard: func(q *State) []condOut { return x.split(q, Lt(q.env[k].t, n)) },
						pre:   func(q *State) { bind(q, l.Key, intV(q.env[k].t)) },
						body:  l.Body,
						post:  func(q *State) []*State { return []*State{q} },
						free:  func(k *Term) *Term { return And(Le(I(0), k), Or(Le(k, n), Eq(k, I(0)))) },
					}, n})
					break
				}
				// string: _k is the byte offset
				n := StrLen(rv.t)
				starts = append(starts, start{o.st, iter{
					guard: func(q *State) []condOut { return x.split(q, Lt(q.env[k].t, n)) },
					pre: func(q *State) {
						i := q.env[k].t
						bind(q, l.Key, intV(i))
						if l.Value != nil {
							bind(q, l.Value, x.runeAt(q, rv.t, i))
						}
					},
					body: l.Body,
					post: func(q *State) []*State {
						i := q.env[k].t
						w := mk("Int", "runewidth", rv.t, i)
						q.assume(And(Le(I(1), w), Le(w, I(4)), Le(Add(i, w), n), Implies(Lt(StrAt(rv.t, i), I(128)), Eq(w, I(1)))))
						q.env[k] = intV(Sub(Add(i, w), I(1))) // +1 added by the driver
						return []*State{q}
					},
					free: func(k *Term) *Term { return And(Le(I(0), k), Le(k, n)) },
				}, nil})
			case *types.Map:
				ks := keySortOf(u.Key())
				if mapKeySort(u.Key()) == "" {
					unsup("range over map with struct keys")
				}
				vis := visObj(s, ks)
				key := "map:" + typeKey(u.Key()) + ":" + typeKey(u.Elem())
				o.st.env[vis] = Val{K: VScalar, T: nil, t: ConstArr(ArrSort(ks, "Bool"), tFalse)}
				domAt := func(q *State) *Term {
					return Select(heapArr(q, key+".dom", "Int", ArrSort("Int", ArrSort(ks, "Bool"))), rv.t)
				}
				starts = append(starts, start{o.st, iter{
					guard: func(q *State) []condOut {
						kk := Fresh("mapkey", ks)
						more := And(Not(Eq(rv.t, I(0))), Select(domAt(q), kk), Not(Select(q.env[vis].t, kk)))
						a := q
						b := q.clone()
						a.assume(more)
						cur := types.NewVar(token.NoPos, nil, "_mk", u.Key())
						_ = cur
						kv := Val{K: VScalar, T: u.Key(), t: kk}
						if _, ok := u.Key().Underlying().(*types.Pointer); ok {
							kv.K = VPtr
						}
						a.env[mkObj(s)] = kv
						q2 := Var("?mk", ks)
						b.assume(Quant("forall", []*Term{q2}, Implies(And(Not(Eq(rv.t, I(0))), Select(domAt(b), q2)), Select(b.env[vis].t, q2))))
						return []condOut{{a, true}, {b, false}}
					},
					pre: func(q *State) {
						kv := q.env[mkObj(s)]
						q.env[vis] = Val{K: VScalar, t: Store(q.env[vis].t, kv.t, tTrue)}
						bind(q, l.Key, kv)
						if l.Value != nil {
							_, v := x.mapLoad(q, rv, kv)
							bind(q, l.Value, v)
						}
					},
					body: l.Body,
					post: func(q *State) []*State { return []*State{q} },
					free: func(k *Term) *Term { return Le(I(0), k) },
				}, nil})
			default:
				unsup("range over %s", rv.T)
			}
		}
	}
	out := done
	for _, b := range starts {
		b.st.env[k] = intV(I(0))
		out = append(out, x.runLoop(b.st, s, label, k, b.it, b.n)...)
	}
	return out
}

var seqObjs = map[ast.Node]*types.Var{}
var visObjs = map[ast.Node]*types.Var{}

func visObj(s ast.Node, ks string) *types.Var {
	if v, ok := visObjs[s]; ok {
		return v
	}
	v := types.NewVar(token.NoPos, nil, "_vis", tInt)
	visObjs[s] = v
	return v
}

var mkObjs = map[ast.Node]*types.Var{}

func mkObj(s ast.Node) *types.Var {
	if v, ok := mkObjs[s]; ok {
		return v
	}
	v := types.NewVar(token.NoPos, nil, "_mk", tInt)
	mkObjs[s] = v
	return v
}

func (x *Exec) runeAt(st *State, s, i *Term) Val {
	r := mk("Int", "runeat", s, i)
	st.assume(And(Le(I(0), r), Le(r, I(0x10FFFF))))
	b := StrAt(s, i)
	st.assume(And(Implies(Lt(b, I(128)), Eq(r, b)), Implies(Le(I(128), b), Le(I(128), r)), Le(I(0), b), Le(b, I(255))))
	return Val{K: VScalar, T: types.Typ[types.Int32], t: r}
}

func (x *Exec) loopSpec(s ast.Node) (*LoopSpec, int) {
	own := x.loopOwn[s]
	if own == nil {
		own = x.root
	}
	i, ok := x.loopIdx[s]
	if !ok || own == nil {
		return nil, -1
	}
	if i < len(own.Loops) {
		return own.Loops[i], i
	}
	return nil, i
}

type cand struct {
	name string
	f    func(*State) *Term
	sel  *Term
	on   bool
}

func bump(st *State, k *types.Var) {
	st.env[k] = intV(Add(st.env[k].t, I(1)))
}

func (x *Exec) runLoop(st *State, s ast.Stmt, label string, k *types.Var, it iter, n *Term) []*State {
	spec, idx := x.loopSpec(s)
	maxUnroll := 0
	if spec == nil || spec.Unroll > 0 {
		if n != nil && n.kind == kInt && n.ival.Int64() <= 64 {
			maxUnroll = int(n.ival.Int64()) + 1
		}
		if spec != nil {
			maxUnroll = spec.Unroll + 1
		}
	}
	if maxUnroll > 0 {
		return x.unroll(st, label, k, it, maxUnroll, s)
	}
	name := fmt.Sprintf("loop%d", idx+1)
	pos := s.Pos()
	entry := st.clone()

	// step runs guard+body+post once from a head state.
	step := func(head *State) (again, after, leave []*State) {
		outer := x.headSt
		x.headSt = head.clone()
		defer func() { x.headSt = outer }()
		for _, g := range it.guard(head) {
			if !g.val {
				after = append(after, g.st)
				continue
			}
			it.pre(g.st)
			for _, b := range x.block(g.st, it.body.List) {
				switch {
				case b.flow == FNormal || b.flow == FContinue && (b.label == "" || b.label == label):
					b.flow, b.label = FNormal, ""
					for _, q := range it.post(b) {
						if q.flow == FNormal {
							bump(q, k)
						}
						again = append(again, q)
					}
				case b.flow == FBreak && (b.label == "" || b.label == label):
					b.flow, b.label = FNormal, ""
					leave = append(leave, b)
				default:
					leave = append(leave, b)
				}
			}
		}
		return
	}

	// 1. discover the modified variables and heap maps.
	mod := map[types.Object]bool{k: true}
	if v, ok := visObjs[s]; ok {
		mod[v] = true
	}
	keys := map[string]bool{}
	for round := 0; round < 6; round++ {
		sa, stt := x.assigned, x.touch
		x.assigned, x.touch = map[types.Object]bool{}, map[string]bool{}
		x.mute++
		h := st.clone()
		x.havoc(h, mod, keys)
		h.assume(it.free(h.env[k].t))
		func() {
			defer func() {
				x.mute--
			}()
			step(h)
		}()
		changed := false
		for o := range x.assigned {
			if _, in := st.env[o]; in && !mod[o] {
				mod[o] = true
				changed = true
			}
		}
		for kk := range x.touch {
			if !keys[kk] {
				keys[kk] = true
				changed = true
			}
		}
		na, nt := x.assigned, x.touch
		x.assigned, x.touch = sa, stt
		if x.assigned != nil {
			for o := range na {
				x.assigned[o] = true
			}
		}
		if x.touch != nil {
			for kk := range nt {
				x.touch[kk] = true
			}
		}
		if !changed {
			break
		}
	}

	ctx := func(c *State) *SpecCtx { return x.loopCtx(c, entry, s) }
	evalInv := func(c *State, cl Clause) *Term { return x.specBool(ctx(c), cl, s) }

	// 2. candidate invariants
	var cands []*cand
	if spec == nil || !spec.NoAuto {
		cands = x.candidates(entry, mod, keys, k)
	}
	var invs []Clause
	if spec != nil {
		invs = spec.Invs
	}
	if len(cands) > 0 {
		x.houdini(entry, st, mod, keys, k, it, cands, invs, evalInv, step, spec, s)
	}

	// 3. entry obligations
	for i, cl := range invs {
		t := evalInv(st, cl)
		x.tag(t, name, i)
		st.oblige("loop-entry", fmt.Sprintf("%s.entry.%s", name, clName(cl, i)), t, pos)
	}
	// 4. arbitrary iteration
	head := st.clone()
	x.havoc(head, mod, keys)
	assumeInv := func(h *State) {
		h.assume(it.free(h.env[k].t))
		for _, c := range cands {
			if c.on {
				h.assume(c.f(h))
			}
		}
		for i, cl := range invs {
			t := evalInv(h, cl)
			x.tag(t, name, i)
			h.assume(t)
		}
		if spec != nil {
			for _, u := range spec.Uses {
				h.assume(x.specBool(ctx(h), u, s))
			}
		}
	}
	assumeInv(head)
	var dec0 *Term
	if spec != nil && spec.Dec != nil {
		dec0 = ctx(head).eval(spec.Dec.E).t
	}
	again, after, leave := step(head)
	for _, q := range again {
		if q.flow != FNormal {
			leave = append(leave, q)
			continue
		}
		if spec != nil {
			for _, u := range spec.Ends {
				q.assume(x.specBool(ctx(q), u, s))
			}
		}
		for i, cl := range invs {
			t := evalInv(q, cl)
			x.tag(t, name, i)
			q.oblige("loop-preserve", fmt.Sprintf("%s.preserve.%s", name, clName(cl, i)), t, pos)
		}
		for _, c := range cands {
			if c.on {
				q.oblige("loop-auto", fmt.Sprintf("%s.preserve.auto.%s", name, c.name), c.f(q), pos)
			}
		}
		if dec0 != nil {
			d1 := ctx(q).eval(spec.Dec.E).t
			q.oblige("termination", name+".decreases", And(Le(I(0), dec0), Lt(d1, dec0)), pos)
		}
	}
	if x.root != nil && x.root.Join {
		return x.mergeStates(append(after, leave...))
	}
	return append(after, leave...)
}

// tag notes which invariant of which loop a fact is.
func (x *Exec) tag(t *Term, loop string, i int) {
	if x.tags == nil {
		x.tags = map[*Term]string{}
	}
	x.tags[t] = fmt.Sprintf("%s#%d", loop, i)
}

func clName(c Clause, i int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprintf("#%d", i+1)
}

func (x *Exec) unroll(st *State, label string, k *types.Var, it iter, max int, s ast.Node) []*State {
	cur := []*State{st}
	var out []*State
	for i := 0; i <= max && len(cur) > 0; i++ {
		var nx []*State
		for _, c := range cur {
			for _, g := range it.guard(c) {
				if !g.val {
					out = append(out, g.st)
					continue
				}
				if i == max {
					g.st.oblige("unwinding", "unwinding-assertion", tFalse, s.Pos())
					continue
				}
				it.pre(g.st)
				for _, b := range x.block(g.st, it.body.List) {
					switch {
					case b.flow == FNormal || b.flow == FContinue && (b.label == "" || b.label == label):
						b.flow, b.label = FNormal, ""
						for _, q := range it.post(b) {
							if q.flow == FNormal {
								bump(q, k)
								nx = append(nx, q)
							} else {
								out = append(out, q)
							}
						}
					case b.flow == FBreak && (b.label == "" || b.label == label):
						b.flow, b.label = FNormal, ""
						out = append(out, b)
					default:
						out = append(out, b)
					}
				}
			}
		}
		if len(nx) > 1 {
			nx = x.mergeStates(nx)
		}
		cur = nx
	}
	return out
}

func (x *Exec) havoc(st *State, mod map[types.Object]bool, keys map[string]bool) {
	var objs []types.Object
	for o := range mod {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool {
		if objs[i].Pos() != objs[j].Pos() {
			return objs[i].Pos() < objs[j].Pos()
		}
		return objs[i].Name() < objs[j].Name()
	})
	na := Fresh("alloc", "Int")
	st.assume(Le(st.alloc, na))
	st.alloc = na
	if keys["*"] {
		x.havocAll(st)
	}
	for _, kk := range sortedKeys(keys) {
		if kk == "*" {
			continue
		}
		sortOf := ""
		if h, ok := st.heap[kk]; ok {
			sortOf = h.sort
		} else if h, ok := x.initHeap[kk]; ok {
			sortOf = h.sort
		} else {
			continue
		}
		if strings.HasSuffix(kk, ".off") && (strings.HasPrefix(kk, "f:") || strings.HasPrefix(kk, "c:")) {
			// offsets of slices stored in the heap stay zero unless a re-sliced value is stored;
			// keep the map if it is still constant after the body, else havoc
			if h := heapArr(st, kk, "", sortOf); h.op == "constarr" && !x.offDirty[kk] {
				continue
			}
		}
		if strings.HasSuffix(kk, ".off") && strings.HasPrefix(kk, "m:") && !x.offDirty[kk] {
			if h := heapArr(st, kk, "", sortOf); h.op == "constarr" {
				continue
			}
		}
		st.heap[kk] = Fresh("H", sortOf)
	}
	for _, o := range objs {
		v := st.env[o]
		if v.K == VPtr && v.cap == I(-1) {
			continue
		}
		if strings.HasPrefix(o.Name(), "_vis") {
			st.env[o] = Val{K: VScalar, t: Fresh("vis", v.t.sort)}
			continue
		}
		if v.K == VPtr && v.loc != nil {
			unsup("interior pointer modified in loop")
		}
		if v.K == VFunc {
			st.env[o] = Val{K: VFunc, T: o.Type(), fn: &Closure{opaque: o.Name()}, t: Fresh(o.Name(), "Int")}
			continue
		}
		st.env[o] = st.freshVal(o.Name(), o.Type())
		if nv := st.env[o]; nv.K == VSlice && x.reslice[o] {
			nv.off = Fresh(o.Name()+".off", "Int")
			st.assume(Le(I(0), nv.off))
			st.env[o] = nv
		}
	}
}

// candidates generates automatic invariant candidates.
func (x *Exec) candidates(entry *State, mod map[types.Object]bool, keys map[string]bool, k *types.Var) []*cand {
	var cs []*cand
	add := func(name string, f func(*State) *Term) { cs = append(cs, &cand{name: name, f: f, on: true}) }
	var objs []types.Object
	for o := range entry.env {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool {
		if objs[i].Pos() != objs[j].Pos() {
			return objs[i].Pos() < objs[j].Pos()
		}
		return objs[i].Name() < objs[j].Name()
	})
	rootAlloc := x.entry.alloc
	var slices, refs []types.Object
	for _, o := range objs {
		o := o
		ev := entry.env[o]
		if ev.K == VSlice {
			slices = append(slices, o)
		}
		if ev.K == VPtr && ev.loc == nil && ev.t.kind != kInt {
			refs = append(refs, o)
		}
		if !mod[o] || o == k || strings.HasPrefix(o.Name(), "_") {
			continue
		}
		switch ev.K {
		case VScalar:
			if ev.t.sort == "Int" && ev.T != nil {
				if b, ok := ev.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8 {
					e := ev.t
					add(o.Name()+"=e+k", func(s *State) *Term { return Eq(s.env[o].t, Add(e, s.env[k].t)) })
					add(o.Name()+"=e-k", func(s *State) *Term { return Eq(s.env[o].t, Sub(e, s.env[k].t)) })
					add(o.Name()+">=e", func(s *State) *Term { return Le(e, s.env[o].t) })
					add(o.Name()+"<=e", func(s *State) *Term { return Le(s.env[o].t, e) })
					add(o.Name()+"<=e+k", func(s *State) *Term { return Le(s.env[o].t, Add(e, s.env[k].t)) })
					add(o.Name()+"<=k", func(s *State) *Term { return Le(s.env[o].t, s.env[k].t) })
					add(o.Name()+"<k", func(s *State) *Term { return Lt(s.env[o].t, s.env[k].t) })
					for _, o2 := range objs {
						o2 := o2
						v2 := entry.env[o2]
						if mod[o2] || v2.T == nil || strings.HasPrefix(o2.Name(), "_") {
							continue
						}
						if v2.K == VSlice {
							add(o.Name()+"<=len("+o2.Name()+")", func(s *State) *Term { return Le(s.env[o].t, s.env[o2].n) })
						} else if v2.K == VScalar && v2.t.sort == "String" {
							add(o.Name()+"<=len("+o2.Name()+")", func(s *State) *Term { return Le(s.env[o].t, StrLen(s.env[o2].t)) })
						}
					}
				}
			}
		case VSlice:
			e := ev
			add(o.Name()+".owned", func(s *State) *Term { return Or(Le(rootAlloc, s.env[o].t), Eq(s.env[o].cap, I(0))) })
			add(o.Name()+".id", func(s *State) *Term { return Eq(s.env[o].t, e.t) })
			add(o.Name()+".newowned", func(s *State) *Term {
				return Or(Le(entry.alloc, s.env[o].t), Eq(s.env[o].cap, I(0)), And(Eq(s.env[o].t, e.t), Eq(s.env[o].n, e.n), Eq(s.env[o].cap, e.cap)))
			})
			add(o.Name()+".samebacking", func(s *State) *Term { return Or(Eq(s.env[o].t, e.t), Le(entry.alloc, s.env[o].t)) })
			add(o.Name()+".len=e+k", func(s *State) *Term { return Eq(s.env[o].n, Add(e.n, s.env[k].t)) })
			add(o.Name()+".len<=e+k", func(s *State) *Term { return Le(s.env[o].n, Add(e.n, s.env[k].t)) })
			add(o.Name()+".len>=e", func(s *State) *Term { return Le(e.n, s.env[o].n) })
			for _, o2 := range slices {
				o2 := o2
				if o2 == o || !types.Identical(sliceElem(entry.env[o2].T), sliceElem(ev.T)) {
					continue
				}
				add(o.Name()+"#"+o2.Name(), func(s *State) *Term {
					a, b := s.env[o], s.env[o2]
					return Or(Not(Eq(a.t, b.t)), Eq(a.cap, I(0)), Eq(b.cap, I(0)))
				})
			}
		}
	}
	allowedByRoot, _, _ := x.modifiable()
	for _, kk := range sortedKeys(keys) {
		kk := kk
		if kk == "*" {
			continue
		}
		var so string
		if h, ok := entry.heap[kk]; ok {
			so = h.sort
		} else if h, ok := x.initHeap[kk]; ok {
			so = h.sort
		} else {
			continue
		}
		e := heapArr(entry, kk, "", so)
		if strings.HasPrefix(kk, "g:") {
			add(kk+"=e", func(s *State) *Term { return Eq(Select(heapArr(s, kk, "", so), I(0)), Select(e, I(0))) })
			continue
		}
		frame := func(name string, guard func(p *Term, s *State) *Term) {
			add(kk+"."+name, func(s *State) *Term {
				h := heapArr(s, kk, "", so)
				if h == e {
					return tTrue
				}
				p := Var("?p", "Int")
				return Quant("forall", []*Term{p}, Implies(guard(p, s), Eq(Select(h, p), Select(e, p))), Select(h, p))
			})
		}
		frame("frame-loop", func(p *Term, s *State) *Term { return Lt(p, entry.alloc) })
		frame("frame-fn", func(p *Term, s *State) *Term { return Lt(p, rootAlloc) })
		if ids := allowedByRoot[kk]; len(ids) > 0 {
			frame("frame-modifies", func(p *Term, s *State) *Term {
				cs := []*Term{Lt(p, rootAlloc), Implies(Lt(p, I(0)), Lt(mk("Int", "embinv", p), rootAlloc))}
				for _, id := range ids {
					cs = append(cs, Not(Eq(p, id)))
				}
				return And(cs...)
			})
		}
		pref := "m:"
		if strings.HasPrefix(kk, pref) {
			var ids []*Term
			for _, o := range slices {
				ids = append(ids, entry.env[o].t)
			}
			frame("frame-slices", func(p *Term, s *State) *Term {
				cs := []*Term{Lt(p, entry.alloc)}
				for _, id := range ids {
					cs = append(cs, Not(Eq(p, id)))
				}
				return And(cs...)
			})
		}
		if strings.HasPrefix(kk, "f:") || strings.HasPrefix(kk, "c:") || strings.HasPrefix(kk, "map:") {
			for _, o := range refs {
				id := entry.env[o].t
				frame("frame-"+o.Name(), func(p *Term, s *State) *Term { return And(Lt(p, entry.alloc), Not(Eq(p, id))) })
			}
		}
		if strings.HasPrefix(kk, "map:") {
			for _, o := range objs {
				ev := entry.env[o]
				if ev.K == VScalar && ev.T != nil {
					if _, ok := ev.T.Underlying().(*types.Map); ok {
						id := ev.t
						frame("frame-"+o.Name(), func(p *Term, s *State) *Term { return And(Lt(p, entry.alloc), Not(Eq(p, id))) })
					}
				}
			}
		}
	}
	return cs
}

// houdini removes the candidates that do not hold initially or are not preserved.
func (x *Exec) houdini(entry, st *State, mod map[types.Object]bool, keys map[string]bool, k *types.Var, it iter, cands []*cand, invs []Clause, evalInv func(*State, Clause) *Term, step func(*State) (a, b, c []*State), spec *LoopSpec, s ast.Stmt) {
	x.mute++
	sa, stt := x.assigned, x.touch
	x.assigned, x.touch = nil, nil
	defer func() { x.mute--; x.assigned, x.touch = sa, stt }()
	// initially
	x.filter(cands, func(c *cand) *Term { return c.f(st) }, st.pc, nil)
	head := st.clone()
	x.havoc(head, mod, keys)
	head.assume(it.free(head.env[k].t))
	for _, cl := range invs {
		head.assume(evalInv(head, cl))
	}
	if spec != nil {
		for _, u := range spec.Uses {
			head.assume(x.specBool(x.loopCtx(head, entry, s), u, s))
		}
	}
	sels := map[*cand]*Term{}
	for _, c := range cands {
		if c.on {
			sel := Fresh("sel", "Bool")
			sels[c] = sel
			head.assume(Implies(sel, c.f(head)))
		}
	}
	again, _, _ := step(head)
	for {
		n := 0
		for _, c := range cands {
			if c.on {
				n++
			}
		}
		if n == 0 {
			return
		}
		var act []*Term
		for _, c := range cands {
			if c.on {
				act = append(act, sels[c])
			}
		}
		for _, q := range again {
			if q.flow != FNormal {
				continue
			}
			x.filter(cands, func(c *cand) *Term { return c.f(q) }, append(append([]*Term{}, q.pc...), act...), nil)
		}
		m := 0
		for _, c := range cands {
			if c.on {
				m++
			}
		}
		if m == n {
			return
		}
	}
}

// filter switches off the candidates whose term is not implied by pc.
func (x *Exec) filter(cands []*cand, f func(*cand) *Term, pc []*Term, _ interface{}) {
	type job struct {
		c *cand
		t *Term
	}
	var jobs []job
	var all []*Term
	for _, c := range cands {
		if !c.on {
			continue
		}
		t := f(c)
		if t == tTrue {
			continue
		}
		if t == tFalse {
			// still possible if pc is contradictory; treat as failing
			c.on = false
			continue
		}
		jobs = append(jobs, job{c, t})
		all = append(all, t)
	}
	if len(jobs) == 0 {
		return
	}
	q := x.query(pc, And(all...))
	if r := Solve(q, 2000, []string{"z3-new"}, false); r.Status == "unsat" {
		return
	}
	qs, slim := make([]string, len(jobs)), make([]string, len(jobs))
	for i, j := range jobs {
		qs[i], slim[i] = x.query(pc, j.t), x.slimQuery(pc, j.t)
	}
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			r := Solve(slim[i], 1000, []string{"z3-new"}, false)
			if r.Status != "unsat" && slim[i] != qs[i] {
				r = Solve(qs[i], 1000, []string{"z3-new"}, false)
			}
			if r.Status != "unsat" {
				j.c.on = false
			}
		}(i, j)
	}
	wg.Wait()
}

func (x *Exec) loopCtx(c, pre *State, s ast.Stmt) *SpecCtx {
	pkg := c.fr.pkg
	ctx := x.rootCtx(c)
	ctx.pre = pre
	ctx.pkg = pkg.Types
	ctx.scope = func(name string) (Val, bool) {
		if name == "_k" {
			return c.env[kObjs[s]], true
		}
		if strings.HasPrefix(name, "_k") && len(name) == 3 {
			// _k1.. : counter of the enclosing loop with that ordinal
			for n, o := range kObjs {
				if x.loopIdx[n] == int(name[2]-'1') && (x.loopOwn[n] == x.loopOwn[s]) {
					if v, ok := c.env[o]; ok {
						return v, true
					}
				}
			}
		}
		if name == "_seq" { // the slice a range loop goes through
			return c.env[seqObjs[s]], true
		}
		if name == "_vis" {
			return c.env[visObjs[s]], true
		}
		return x.localByName(c, pkg, s, name)
	}
	return ctx
}

func loopBodyPos(s ast.Stmt) token.Pos {
	switch l := s.(type) {
	case *ast.ForStmt:
		return l.Body.Lbrace
	case *ast.RangeStmt:
		return l.Body.Lbrace
	}
	return s.Pos()
}

func (x *Exec) localByName(c *State, pkg *Pkg, s ast.Stmt, name string) (Val, bool) {
	if r, ok := x.renames[name]; ok {
		name = r
	}
	sc := pkg.Types.Scope().Innermost(loopBodyPos(s))
	if sc != nil {
		_, o := sc.LookupParent(name, loopBodyPos(s))
		if o != nil {
			if _, ok := c.env[o]; ok {
				return x.readVar(c, o), true
			}
		}
	}
	// a variable of an inlining caller
	var best types.Object
	for o := range c.env {
		if o.Name() == name && o.Pos() != token.NoPos {
			if best == nil || o.Pos() > best.Pos() {
				best = o
			}
		}
	}
	if best != nil {
		return x.readVar(c, best), true
	}
	return Val{}, false
}

func (x *Exec) specBool(c *SpecCtx, cl Clause, s ast.Node) *Term {
	return c.Bool(cl.E)
}

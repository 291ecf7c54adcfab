package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Flow int

const (
	FNormal Flow = iota
	FReturn
	FBreak
	FContinue
	FPanic
)

type Frame struct {
	pkg     *Pkg
	sig     *types.Signature
	results []types.Object // named results (or synthesized)
	defers  []func(*State) []*State
	parent  *Frame
	fn      string
}

type State struct {
	x     *Exec
	env   map[types.Object]Val
	heap  map[string]*Term
	pc    []*Term
	alloc *Term
	flow  Flow
	label string
	ret   []Val
	fr    *Frame
	defs  [][]deferred // per frame
	trace []string
	gen   string
	perm  *permInfo // of the last sort
}

// permInfo is the permutation applied by a sort: position k now holds what position tag[k] held.
type permInfo struct{ tag, inv, off *Term }

type deferred struct {
	run func(*State) []*State
}

func (st *State) clone() *State {
	n := *st
	n.env = make(map[types.Object]Val, len(st.env))
	for k, v := range st.env {
		n.env[k] = v
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term{}, st.pc...)
	n.defs = make([][]deferred, len(st.defs))
	for i, d := range st.defs {
		n.defs[i] = append([]deferred{}, d...)
	}
	n.trace = append([]string{}, st.trace...)
	return &n
}

func (st *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.fv0() {
		// facts about bound variables cannot be recorded outside the quantifier
		return
	}
	if n := len(st.pc); n > 0 {
		for _, p := range st.pc {
			if p == t {
				return
			}
		}
	}
	st.pc = append(st.pc, t)
}

func (st *State) infeasible() bool {
	neg := map[int]bool{}
	for _, p := range st.pc {
		if p == tFalse {
			return true
		}
		neg[p.id] = true
	}
	for _, p := range st.pc {
		if neg[Not(p).id] {
			return true
		}
		if p.kind == kApp && p.op == "and" {
			for _, q := range p.args {
				if neg[Not(q).id] {
					return true
				}
			}
		}
	}
	return false
}

func (st *State) touched(key string) {
	if st.x.touch != nil {
		st.x.touch[key] = true
	}
}

type Obl struct {
	Name    string
	Kind    string
	Pos     string
	PC      []*Term
	Goal    *Term
	Hints   []*Term
	Own     []*Term // facts that ought to suffice, tried first
	Alt     []*Term // further facts, proved by other obligations of the same exit, for a second attempt
	Status  string
	Solver  string
	Ms      int64
	Model   string
	Cex     map[string]string
	Trivial bool
	st      *State
}

type Exec struct {
	w             *World
	cs            *Contracts
	root          *Contract
	rootFn        *FuncDecl
	initHeap      map[string]*Term
	entry         *State
	obls          []*Obl
	mute          int
	touch         map[string]bool
	assigned      map[types.Object]bool
	stack         []*types.Func
	loopIdx       map[ast.Node]int
	loopOwn       map[ast.Node]*Contract
	trusted       map[string]bool // contracts and models relied on
	inlined       map[string]bool
	contractsUsed map[string]bool
	counts        []*countSym
	notes         map[string]bool
	pathN         int
	addrTaken     map[types.Object]bool
	kind          string           // of the obligation whose query is being written
	repat         bool             // write queries with repattern
	tags          map[*Term]string // facts that are loop invariants
	headSt        *State
	asked         map[string]bool // decided questions
	captures      []*types.Var    // of the literal being verified
	regexps       map[string]string
	closed        int // evaluating a comparison to one term: outcomes are not merged
	prune         bool
	renames       map[string]string
	closureDepth  int
	genN          int
	lemmaSelf     *Contract
	lemmaMeasure  *Term
	offDirty      map[string]bool
	reslice       map[types.Object]bool
	rootBinds     map[string]Val
	entryPC       []*Term
	finals        []*State
}

func (x *Exec) pos(p token.Pos) string {
	q := x.w.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (st *State) oblige(kind, name string, goal *Term, p token.Pos) {
	x := st.x
	if x.mute == 0 {
		o := &Obl{Name: name, Kind: kind, Goal: goal, PC: append([]*Term{}, st.pc...), Pos: x.pos(p), st: st}
		if goal == tTrue {
			o.Status, o.Solver, o.Trivial = "unsat", "simplifier", true
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

// ---- statements -----------------------------------------------------------

func (x *Exec) block(st *State, list []ast.Stmt) []*State {
	states := []*State{st}
	for _, s := range list {
		var next []*State
		for _, c := range states {
			if c.flow != FNormal {
				next = append(next, c)
				continue
			}
			next = append(next, x.cuts(x.stmt(c, s), s)...)
		}
		states = next
		if len(states) > 4000 {
			unsup("too many paths")
		}
	}
	return states
}

func (x *Exec) info(st *State) *types.Info { return st.fr.pkg.Info }

func (x *Exec) objOf(st *State, id *ast.Ident) types.Object {
	in := x.info(st)
	if o := in.Defs[id]; o != nil {
		return o
	}
	return in.Uses[id]
}

func (x *Exec) declare(st *State, o types.Object, v Val) {
	if o == nil {
		return
	}
	v = x.convert(st, v, o.Type())
	if x.addrTaken[o] && isStructT(o.Type()) {
		p := st.newObj(v)
		st.env[o] = Val{K: VPtr, T: p.T, t: p.t, cap: I(-1)} // boxed
		x.note("boxed")
		return
	}
	st.env[o] = v
	if x.assigned != nil {
		x.assigned[o] = true
	}
}

func isStructT(t types.Type) bool { _, ok := structFields(t); return ok }

func (x *Exec) note(s string) { x.notes[s] = true }

func (x *Exec) assignTo(st *State, lhs ast.Expr, v Val) []*State {
	if id, ok := ast.Unparen(lhs).(*ast.Ident); ok && id.Name == "_" {
		return []*State{st}
	}
	// map assignment
	if ix, ok := ast.Unparen(lhs).(*ast.IndexExpr); ok {
		if mt, ok := x.info(st).TypeOf(ix.X).Underlying().(*types.Map); ok {
			var out []*State
			for _, o := range x.exprs(st, ix.X, ix.Index) {
				x.mapStore(o.st, o.vs[0], x.convert(o.st, o.vs[1], mt.Key()), x.convert(o.st, v, mt.Elem()), lhs.Pos())
				out = append(out, o.st)
			}
			return out
		}
	}
	var out []*State
	for _, o := range x.lval(st, lhs) {
		x.storeLoc(o.st, o.loc, v)
		out = append(out, o.st)
	}
	return out
}

func (x *Exec) storeLoc(st *State, l *Loc, v Val) {
	v = x.convert(st, v, l.typ)
	if l.kind == LLocal && x.assigned != nil {
		x.assigned[l.obj] = true
	}
	st.store(l, v)
}

// nthCall counts the statements of the function up to this one that call a function.
func (x *Exec) nthCall(callee string, s ast.Stmt) int {
	n := 0
	if x.rootFn == nil || x.rootFn.Decl.Body == nil {
		return 0
	}
	ast.Inspect(x.rootFn.Decl.Body, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ExprStmt, *ast.AssignStmt:
			if m.Pos() <= s.Pos() {
				hit := false
				ast.Inspect(m, func(k ast.Node) bool {
					if c, ok := k.(*ast.CallExpr); ok && exprStr(c.Fun) == callee {
						hit = true
					}
					return true
				})
				if hit {
					n++
				}
			}
			return false
		}
		return true
	})
	return n
}

// cuts proves the facts the contract states after the call of a function, and then assumes them.
func (x *Exec) cuts(sts []*State, s ast.Stmt) []*State {
	if x.root == nil || len(x.root.Cuts) == 0 {
		return sts
	}
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt:
	default:
		return sts
	}
	called := map[string]bool{}
	if a, ok := s.(*ast.AssignStmt); ok {
		for _, l := range a.Lhs {
			called[exprStr(l)+"="] = true
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			called[exprStr(c.Fun)] = true
		}
		return true
	})
	for i, cl := range x.root.Cuts {
		at, nth, _ := strings.Cut(cl.At, "#")
		if !called[at] || nth != "" && nth != fmt.Sprint(x.nthCall(at, s)) {
			continue
		}
		for _, st := range sts {
			if st.flow != FNormal {
				continue
			}
			ctx := x.rootCtx(st)
			ctx.pkg = st.fr.pkg.Types
			ctx.scope = func(name string) (Val, bool) { return x.localByName(st, st.fr.pkg, s, name) }
			t := ctx.Bool(cl.E)
			x.tag(t, "after "+cl.At, i)
			st.oblige("cut", fmt.Sprintf("after.%s.%s", cl.At, clName(cl, i)), t, s.Pos())
		}
	}
	return sts
}

func (x *Exec) stmt(st *State, s ast.Stmt) []*State {
	switch s := s.(type) {
	case nil:
		return []*State{st}
	case *ast.BlockStmt:
		return x.block(st, s.List)
	case *ast.EmptyStmt:
		return []*State{st}
	case *ast.ExprStmt:
		var out []*State
		for _, o := range x.expr(st, s.X) {
			out = append(out, o.st)
		}
		return out
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			return x.loop(st, b, s.Label.Name)
		case *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return x.labelled(x.stmt(st, b), s.Label.Name)
		}
		return x.stmt(st, s.Stmt)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return []*State{st}
		}
		states := []*State{st}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var next []*State
			for _, c := range states {
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if o := x.objOf(c, n); o != nil {
							x.declare(c, o, c.zero(o.Type()))
						}
					}
					next = append(next, c)
				} else {
					next = append(next, x.assignMany(c, identExprs(vs.Names), vs.Values, true)...)
				}
			}
			states = next
		}
		return states
	case *ast.AssignStmt:
		if s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
			return x.assignMany(st, s.Lhs, s.Rhs, s.Tok == token.DEFINE)
		}
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
		var out []*State
		for _, lo := range x.lval(st, s.Lhs[0]) {
			for _, ro := range x.expr(lo.st, s.Rhs[0]) {
				cur := ro.st.load(lo.loc)
				v := x.binop(ro.st, op, cur, x.convert(ro.st, ro.v, cur.T), cur.T, s.Pos())
				x.storeLoc(ro.st, lo.loc, v)
				out = append(out, ro.st)
			}
		}
		return out
	case *ast.IncDecStmt:
		var out []*State
		for _, lo := range x.lval(st, s.X) {
			cur := lo.st.load(lo.loc)
			d := I(1)
			if s.Tok == token.DEC {
				d = I(-1)
			}
			x.storeLoc(lo.st, lo.loc, Val{K: VScalar, T: cur.T, t: Add(cur.t, d)})
			out = append(out, lo.st)
		}
		return out
	case *ast.IfStmt:
		var out []*State
		for _, c := range x.stmt(st, s.Init) {
			if c.flow != FNormal {
				out = append(out, c)
				continue
			}
			for _, b := range x.joinConds(x.cond(c, s.Cond)) {
				if b.val {
					out = append(out, x.block(b.st, s.Body.List)...)
				} else if s.Else != nil {
					out = append(out, x.stmt(b.st, s.Else)...)
				} else {
					out = append(out, b.st)
				}
			}
		}
		return x.tryMerge(st, out)
	case *ast.ReturnStmt:
		return x.retStmt(st, s)
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK:
			st.flow = FBreak
		case token.CONTINUE:
			st.flow = FContinue
		case token.FALLTHROUGH:
			st.flow = FNormal
			st.label = "$fallthrough"
			return []*State{st}
		default:
			unsup("branch %s", s.Tok)
		}
		st.label = ""
		if s.Label != nil {
			st.label = s.Label.Name
		}
		return []*State{st}
	case *ast.ForStmt, *ast.RangeStmt:
		return x.loop(st, s, "")
	case *ast.SwitchStmt:
		return x.switchStmt(st, s)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(st, s)
	case *ast.DeferStmt:
		call := s.Call
		d := deferred{}
		// evaluate function value and args now
		if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
			captured := map[types.Object]Val{}
			// variables declared inside loops are captured by identity: snapshot block-local values
			ast.Inspect(lit.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o := x.info(st).Uses[id]; o != nil {
						if v, ok := st.env[o]; ok {
							captured[o] = v
						}
					}
				}
				return true
			})
			pkg := st.fr.pkg
			_ = pkg
			fr := st.fr
			d.run = func(s2 *State) []*State {
				for o, v := range captured {
					if isLoopLocal(fr, o) {
						s2.env[o] = v
					}
				}
				var out []*State
				for _, oc := range x.callClosure(s2, &Closure{lit: lit, pkg: fr.pkg}, nil, nil, s.Pos()) {
					out = append(out, oc.st)
				}
				return out
			}
		} else {
			d.run = func(s2 *State) []*State {
				var out []*State
				for _, oc := range x.expr(s2, call) {
					out = append(out, oc.st)
				}
				return out
			}
		}
		n := len(st.defs) - 1
		st.defs[n] = append(st.defs[n], d)
		return []*State{st}
	case *ast.GoStmt:
		return x.goStmt(st, s)
	case *ast.SendStmt:
		// the value leaves this goroutine; what is received is not connected to it
		var out []*State
		for _, o := range x.exprs(st, s.Chan, s.Value) {
			out = append(out, o.st)
		}
		return out
	case *ast.SelectStmt:
		unsup("select")
	}
	unsup("stmt %T", s)
	return nil
}

// goStmt: a goroutine started with a literal that assigns to nothing declared outside of it cannot interfere with
// this one; its body is run once in a copy of the state, for its own obligations.
func (x *Exec) goStmt(st *State, s *ast.GoStmt) []*State {
	lit, ok := s.Call.Fun.(*ast.FuncLit)
	if !ok {
		unsup("go statement with a named function")
	}
	info := x.info(st)
	local := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return false
		}
		if id.Name == "_" {
			return true
		}
		o := info.ObjectOf(id)
		return o != nil && lit.Pos() <= o.Pos() && o.Pos() < lit.End()
	}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if !local(l) {
					unsup("a goroutine that assigns to shared state")
				}
			}
		case *ast.IncDecStmt:
			if !local(n.X) {
				unsup("a goroutine that assigns to shared state")
			}
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN && (!local(n.Key) || n.Value != nil && !local(n.Value)) {
				unsup("a goroutine that assigns to shared state")
			}
		}
		return true
	})
	x.note("a goroutine that assigns to nothing shared does not interfere, and what it reads is not changed while it runs")
	var out []*State
	for _, o := range x.exprs(st, s.Call.Args...) {
		c := o.st.clone()
		x.callClosure(c, &Closure{lit: lit, pkg: c.fr.pkg}, o.vs, nil, s.Pos())
		out = append(out, o.st)
	}
	return out
}

func isLoopLocal(fr *Frame, o types.Object) bool {
	// any variable that is not a parameter/result of the frame: treat the value at the defer
	// statement as captured (exact for variables never reassigned afterwards).
	_, isVar := o.(*types.Var)
	return isVar
}

func identExprs(ids []*ast.Ident) []ast.Expr {
	var out []ast.Expr
	for _, i := range ids {
		out = append(out, i)
	}
	return out
}

func (x *Exec) labelled(sts []*State, label string) []*State {
	for _, s := range sts {
		if s.flow == FBreak && s.label == label {
			s.flow, s.label = FNormal, ""
		}
	}
	return sts
}

func (x *Exec) retStmt(st *State, s *ast.ReturnStmt) []*State {
	var out []*State
	fin := func(c *State, vs []Val) {
		for i, v := range vs {
			v = x.convert(c, v, st.fr.sig.Results().At(i).Type())
			c.ret = append(c.ret, v)
			if o := st.fr.results[i]; o != nil {
				if bx, ok := c.env[o]; ok && bx.cap == I(-1) && bx.K == VPtr {
					c.store(c.ptrLoc(bx), v)
				} else {
					c.env[o] = v
				}
			}
		}
		c.flow = FReturn
		out = append(out, c)
	}
	if len(s.Results) == 0 {
		if st.fr.sig.Results().Len() > 0 {
			var vs []Val
			for _, o := range st.fr.results {
				vs = append(vs, x.readVar(st, o))
			}
			st.ret = nil
			fin(st, vs)
			return out
		}
		st.flow = FReturn
		return []*State{st}
	}
	if len(s.Results) == 1 && st.fr.sig.Results().Len() > 1 {
		for _, o := range x.expr(st, s.Results[0]) {
			o.st.ret = nil
			fin(o.st, o.v.f)
		}
		return out
	}
	for _, o := range x.exprs(st, s.Results...) {
		o.st.ret = nil
		fin(o.st, o.vs)
	}
	return out
}

func (x *Exec) readVar(st *State, o types.Object) Val {
	v, ok := st.env[o]
	if !ok {
		unsup("unbound %s", o.Name())
	}
	if v.K == VPtr && v.cap == I(-1) {
		return st.load(st.ptrLoc(v))
	}
	return v
}

func (x *Exec) assignMany(st *State, lhs, rhs []ast.Expr, def bool) []*State {
	if len(rhs) == 1 && len(lhs) > 1 {
		var out []*State
		for _, o := range x.exprN(st, rhs[0], len(lhs)) {
			out = append(out, x.assignVals(o.st, lhs, o.v.f, def)...)
		}
		return out
	}
	if len(lhs) == 1 {
		// evaluate index expressions of the left side before the right side only matters for effects
		var out []*State
		for _, o := range x.expr(st, rhs[0]) {
			out = append(out, x.assignVals(o.st, lhs, []Val{o.v}, def)...)
		}
		return out
	}
	var out []*State
	for _, o := range x.exprs(st, rhs...) {
		// parallel assignment: resolve all locations first
		if !def {
			states := []struct {
				st   *State
				locs []*Loc
			}{{o.st, nil}}
			simple := true
			for _, l := range lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
					simple = false
				}
				if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
					if _, ok := x.info(st).TypeOf(ix.X).Underlying().(*types.Map); ok {
						simple = false
					}
				}
			}
			if simple {
				for _, l := range lhs {
					var nx []struct {
						st   *State
						locs []*Loc
					}
					for _, s := range states {
						for _, lo := range x.lval(s.st, l) {
							nx = append(nx, struct {
								st   *State
								locs []*Loc
							}{lo.st, append(append([]*Loc{}, s.locs...), lo.loc)})
						}
					}
					states = nx
				}
				for _, s := range states {
					for i := range lhs {
						x.storeLoc(s.st, s.locs[i], o.vs[i])
					}
					out = append(out, s.st)
				}
				continue
			}
		}
		out = append(out, x.assignVals(o.st, lhs, o.vs, def)...)
	}
	return out
}

func (x *Exec) assignVals(st *State, lhs []ast.Expr, vs []Val, def bool) []*State {
	states := []*State{st}
	for i, l := range lhs {
		if def {
			if id, ok := l.(*ast.Ident); ok {
				if id.Name == "_" {
					continue
				}
				if o := x.info(st).Defs[id]; o != nil {
					for _, s := range states {
						x.declare(s, o, vs[i])
					}
					continue
				}
			}
		}
		var nx []*State
		for _, s := range states {
			nx = append(nx, x.assignTo(s, l, vs[i])...)
		}
		states = nx
	}
	return states
}

type condOut struct {
	st  *State
	val bool
}

// cond evaluates a boolean expression and splits on its value.
func (x *Exec) cond(st *State, e ast.Expr) []condOut {
	e = ast.Unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
		var out []condOut
		for _, o := range x.cond(st, b.X) {
			if o.val == (b.Op == token.LAND) {
				out = append(out, x.cond(o.st, b.Y)...)
			} else {
				out = append(out, o)
			}
		}
		// fold to a term when both sides are simple
		if t, ok := x.pureBool(st, e); ok {
			return x.split(st, t)
		}
		return out
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		out := x.cond(st, u.X)
		for i := range out {
			out[i].val = !out[i].val
		}
		return out
	}
	var out []condOut
	for _, o := range x.expr(st, e) {
		out = append(out, x.split(o.st, o.v.t)...)
	}
	return out
}

// pureBool is reserved for merging simple conditions; disabled (conditions always split).
func (x *Exec) pureBool(st *State, e ast.Expr) (*Term, bool) { return nil, false }

func (x *Exec) split(st *State, t *Term) []condOut {
	if t == tTrue {
		return []condOut{{st, true}}
	}
	if t == tFalse {
		return []condOut{{st, false}}
	}
	for _, p := range st.pc {
		if p == t {
			return []condOut{{st, true}}
		}
		if p == Not(t) {
			return []condOut{{st, false}}
		}
	}
	a := st
	b := st.clone()
	a.assume(t)
	b.assume(Not(t))
	var out []condOut
	if !x.dead(a) {
		out = append(out, condOut{a, true})
	}
	if !x.dead(b) {
		out = append(out, condOut{b, false})
	}
	return out
}

func (x *Exec) dead(st *State) bool {
	if st.infeasible() {
		return true
	}
	return false
}

func (x *Exec) switchStmt(st *State, s *ast.SwitchStmt) []*State {
	var out []*State
	for _, c := range x.stmt(st, s.Init) {
		if c.flow != FNormal {
			out = append(out, c)
			continue
		}
		type tagged struct {
			st *State
			v  *Val
		}
		var ts []tagged
		if s.Tag != nil {
			for _, o := range x.expr(c, s.Tag) {
				v := o.v
				ts = append(ts, tagged{o.st, &v})
			}
		} else {
			ts = append(ts, tagged{c, nil})
		}
		for _, t := range ts {
			rest := []*State{t.st}
			var deflt *ast.CaseClause
			var deftIdx int
			clauses := s.Body.List
			runBody := func(b *State, i int) {
				bs := x.block(b, clauses[i].(*ast.CaseClause).Body)
				for k := i; ; k++ {
					ft := false
					var nb []*State
					for _, q := range bs {
						if q.flow == FNormal && q.label == "$fallthrough" {
							q.label = ""
							ft = true
							nb = append(nb, x.block(q, clauses[k+1].(*ast.CaseClause).Body)...)
						} else {
							nb = append(nb, q)
						}
					}
					bs = nb
					if !ft {
						break
					}
				}
				for _, q := range bs {
					if q.flow == FBreak && q.label == "" {
						q.flow = FNormal
					}
				}
				out = append(out, bs...)
			}
			for i, cl := range clauses {
				cc := cl.(*ast.CaseClause)
				if cc.List == nil {
					deflt, deftIdx = cc, i
					continue
				}
				if t.v != nil {
					// one split for the whole clause when case values are constants
					all := true
					for _, e := range cc.List {
						if x.info(st).Types[e].Value == nil {
							all = false
						}
					}
					if all {
						var nrest []*State
						for _, r := range rest {
							var alts []*Term
							for _, e := range cc.List {
								ev := x.expr(r, e)[0]
								cv := x.convert(r, ev.v, t.v.T)
								alts = append(alts, x.valEq(r, *t.v, cv))
							}
							for _, b := range x.split(r, Or(alts...)) {
								if b.val {
									runBody(b.st, i)
								} else {
									nrest = append(nrest, b.st)
								}
							}
						}
						rest = nrest
						continue
					}
				}
				for _, e := range cc.List {
					var nrest []*State
					for _, r := range rest {
						if t.v != nil {
							for _, o := range x.expr(r, e) {
								cv := x.convert(o.st, o.v, t.v.T)
								for _, b := range x.split(o.st, x.valEq(o.st, *t.v, cv)) {
									if b.val {
										runBody(b.st, i)
									} else {
										nrest = append(nrest, b.st)
									}
								}
							}
						} else {
							for _, b := range x.cond(r, e) {
								if b.val {
									runBody(b.st, i)
								} else {
									nrest = append(nrest, b.st)
								}
							}
						}
					}
					rest = nrest
				}
			}
			for _, r := range rest {
				if deflt != nil {
					runBody(r, deftIdx)
				} else {
					out = append(out, r)
				}
			}
		}
	}
	return x.tryMerge(st, out)
}

func (x *Exec) typeTest(st *State, v Val, t types.Type) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
			return And(Not(Eq(v.t, I(0))), Eq(mk("Int", "typeof", v.t), x.w.Tag(n)))
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return And(Not(Eq(v.t, I(0))), Eq(mk("Int", "typeof", v.t), x.w.Tag(n)))
	}
	unsup("type test %s", t)
	return nil
}

func (x *Exec) castTo(st *State, v Val, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return Val{K: VPtr, T: t, t: v.t}
	case *types.Interface:
		return Val{K: VScalar, T: t, t: v.t}
	}
	if isStructT(t) {
		return st.load(&Loc{kind: LHeap, ref: v.t, key: "f:" + typeKey(t), typ: t})
	}
	unsup("cast to %s", t)
	return Val{}
}

func (x *Exec) typeSwitch(st *State, s *ast.TypeSwitchStmt) []*State {
	var out []*State
	for _, c := range x.stmt(st, s.Init) {
		var e ast.Expr
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			e = a.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			e = a.Rhs[0].(*ast.TypeAssertExpr).X
		}
		for _, o := range x.expr(c, e) {
			rest := []*State{o.st}
			var deflt *ast.CaseClause
			run := func(b *State, cc *ast.CaseClause, v Val) {
				if obj := x.info(c).Implicits[cc]; obj != nil {
					x.declare(b, obj, v)
				}
				bs := x.block(b, cc.Body)
				for _, q := range bs {
					if q.flow == FBreak && q.label == "" {
						q.flow = FNormal
					}
				}
				out = append(out, bs...)
			}
			for _, cl := range s.Body.List {
				cc := cl.(*ast.CaseClause)
				if cc.List == nil {
					deflt = cc
					continue
				}
				var nrest []*State
				for _, r := range rest {
					var alts []*Term
					for _, te := range cc.List {
						tv := x.info(c).Types[te]
						if tv.IsNil() {
							alts = append(alts, Eq(o.v.t, I(0)))
						} else {
							alts = append(alts, x.typeTest(r, o.v, tv.Type))
						}
					}
					for _, b := range x.split(r, Or(alts...)) {
						if !b.val {
							nrest = append(nrest, b.st)
							continue
						}
						v := o.v
						if len(cc.List) == 1 && !x.info(c).Types[cc.List[0]].IsNil() {
							v = x.castTo(b.st, o.v, x.info(c).Types[cc.List[0]].Type)
						}
						run(b.st, cc, v)
					}
				}
				rest = nrest
			}
			for _, r := range rest {
				if deflt != nil {
					run(r, deflt, o.v)
				} else {
					out = append(out, r)
				}
			}
		}
	}
	return x.tryMerge(st, out)
}

// ---- merging --------------------------------------------------------------

func (x *Exec) tryMerge(base *State, sts []*State) []*State {
	if x.root == nil || !x.root.Merge {
		return sts
	}
	return x.mergeStates(sts)
}

func (x *Exec) joinConds(cs []condOut) []condOut {
	if x.root == nil || !x.root.Join || len(cs) < 3 {
		return cs
	}
	var out []condOut
	for _, v := range []bool{true, false} {
		var sts []*State
		for _, c := range cs {
			if c.val == v {
				sts = append(sts, c.st)
			}
		}
		for _, s := range x.mergeStates(sts) {
			out = append(out, condOut{s, v})
		}
	}
	return out
}

// mergeStates merges states with normal flow into one where possible.
func (x *Exec) mergeStates(sts []*State) []*State {
	var norm, rest []*State
	for _, s := range sts {
		if s.flow == FNormal {
			norm = append(norm, s)
		} else {
			rest = append(rest, s)
		}
	}
	if len(norm) < 2 {
		return sts
	}
	m := norm[0]
	for _, s := range norm[1:] {
		r, ok := x.merge2(m, s)
		if !ok {
			return sts
		}
		m = r
	}
	return append([]*State{m}, rest...)
}

func (x *Exec) merge2(a, b *State) (res *State, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	// common prefix of path conditions
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	ea, eb := And(a.pc[n:]...), And(b.pc[n:]...)
	// the first differing conjunct should be a split condition
	var c *Term
	if n < len(a.pc) && n < len(b.pc) && a.pc[n] == Not(b.pc[n]) {
		c = a.pc[n]
	} else {
		c = Fresh("m", "Bool")
		// choose: c -> a, !c -> b
	}
	m := a.clone()
	m.pc = append([]*Term{}, a.pc[:n]...)
	m.pc = append(m.pc, And(Implies(c, ea), Implies(Not(c), eb)))
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			delete(m.env, k)
			continue
		}
		m.env[k] = mergeVal(c, v, w)
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		ha, oka := a.heap[k]
		hb, okb := b.heap[k]
		if !oka {
			ha = heapArr(a, k, "", x.initHeap[k].sort)
		}
		if !okb {
			hb = heapArr(b, k, "", x.initHeap[k].sort)
		}
		m.heap[k] = Ite(c, ha, hb)
	}
	m.alloc = mergeAlloc(c, a.alloc, b.alloc)
	if a.perm != b.perm {
		m.perm = nil
	}
	if len(a.ret) != len(b.ret) {
		return nil, false
	}
	m.ret = nil
	for i := range a.ret {
		m.ret = append(m.ret, mergeVal(c, a.ret[i], b.ret[i]))
	}
	for i := range a.defs {
		if len(a.defs[i]) != len(b.defs[i]) {
			return nil, false
		}
	}
	return m, true
}

func mergeAlloc(c, a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb {
		if ca.Cmp(cb) >= 0 {
			return a
		}
		return b
	}
	return Ite(c, a, b)
}

func mergeVal(c *Term, a, b Val) Val {
	if a.K != b.K {
		unsup("merge kinds")
	}
	r := a
	switch a.K {
	case VScalar, VArr:
		r.t = Ite(c, a.t, b.t)
	case VPtr:
		if a.loc != nil || b.loc != nil {
			if a.loc == b.loc {
				return a
			}
			unsup("merge locs")
		}
		if a.cap != b.cap {
			unsup("merge box")
		}
		r.t = Ite(c, a.t, b.t)
	case VSlice:
		r.t, r.off, r.n, r.cap = Ite(c, a.t, b.t), Ite(c, a.off, b.off), Ite(c, a.n, b.n), Ite(c, a.cap, b.cap)
	case VStruct, VTuple:
		if len(a.f) != len(b.f) {
			unsup("merge struct")
		}
		r.f = nil
		for i := range a.f {
			r.f = append(r.f, mergeVal(c, a.f[i], b.f[i]))
		}
	case VFunc:
		if a.fn != b.fn {
			unsup("merge funcs")
		}
	}
	return r
}

// ---- constants ------------------------------------------------------------

func (x *Exec) constVal(t types.Type, c constant.Value) Val {
	s, ok := scalarSort(t)
	if !ok {
		unsup("const %s", t)
	}
	switch c.Kind() {
	case constant.Bool:
		return Val{K: VScalar, T: t, t: B(constant.BoolVal(c))}
	case constant.String:
		return Val{K: VScalar, T: t, t: S(constant.StringVal(c))}
	case constant.Int:
		if s == "Real" {
			return Val{K: VScalar, T: t, t: mk("Real", c.ExactString()+".0")}
		}
		if i, ok := constant.Int64Val(c); ok {
			return Val{K: VScalar, T: t, t: I(i)}
		}
		if b, ok := constant.Val(c).(interface{ String() string }); ok {
			return Val{K: VScalar, T: t, t: mk("Int", b.String())}
		}
	case constant.Float:
		if s == "Int" {
			if i, ok := constant.Int64Val(constant.ToInt(c)); ok {
				return Val{K: VScalar, T: t, t: I(i)}
			}
		}
		f, _ := constant.Float64Val(c)
		return Val{K: VScalar, T: t, t: mk("Real", fmt.Sprintf("%f", f))}
	}
	unsup("constant %s", c)
	return Val{}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

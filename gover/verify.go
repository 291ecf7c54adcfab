package main

import (
	"context"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type FuncReport struct {
	Func    string            `json:"func"`
	File    string            `json:"contract_file"`
	Pos     string            `json:"pos"`
	Props   []string          `json:"props"`
	Lemma   bool              `json:"lemma,omitempty"`
	Trusted bool              `json:"trusted,omitempty"`
	Obls    []*OblReport      `json:"obligations"`
	Inlined []string          `json:"inlined,omitempty"`
	Used    []string          `json:"contracts_used,omitempty"`
	Models  []string          `json:"models,omitempty"`
	Notes   []string          `json:"notes,omitempty"`
	Vacuous string            `json:"vacuity"`
	Loops   int               `json:"loops"`
	Error   string            `json:"error,omitempty"`
	WallMs  int64             `json:"wall_ms"`
	Renames map[string]string `json:"renames,omitempty"`
}

type OblReport struct {
	Name   string            `json:"name"`
	Kind   string            `json:"kind"`
	Pos    string            `json:"pos"`
	Status string            `json:"status"`
	Solver string            `json:"solver"`
	Ms     int64             `json:"ms"`
	Model  string            `json:"model,omitempty"`
	Cex    map[string]string `json:"counterexample,omitempty"`
}

func newExec(w *World, cs *Contracts, ct *Contract) *Exec {
	return &Exec{w: w, cs: cs, root: ct, initHeap: map[string]*Term{}, trusted: map[string]bool{}, inlined: map[string]bool{}, contractsUsed: map[string]bool{}, notes: map[string]bool{}, addrTaken: map[types.Object]bool{}, renames: map[string]string{}, offDirty: map[string]bool{}, reslice: map[types.Object]bool{}, loopIdx: map[ast.Node]int{}, loopOwn: map[ast.Node]*Contract{}}
}

func (x *Exec) newState() *State {
	st := &State{x: x, env: map[types.Object]Val{}, heap: map[string]*Term{}, alloc: Var("alloc0", "Int")}
	st.assume(Le(I(1), st.alloc))
	return st
}

// lemmaTerms returns the proved auto lemmas relevant to a query.
func (x *Exec) autoLemmas(asserts []*Term) []*Term {
	ops := map[string]bool{}
	collect(asserts, func(t *Term) {
		if t.kind == kApp {
			ops[t.op] = true
		}
	})
	var out []*Term
	for _, l := range x.cs.Order {
		if !l.IsLemma || !l.Auto || l.AutoFor != "" && l.AutoFor != x.kind {
			continue
		}
		if x.root == l {
			break
		}
		t, heads := x.lemmaAxiom(l)
		ok := true
		for _, h := range heads {
			if !ops[h] {
				ok = false
			}
		}
		if ok {
			out = append(out, t)
		}
	}
	return out
}

func (x *Exec) lemmaAxiom(l *Contract) (*Term, []string) {
	st := x.newState()
	c := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}, depth: 900}
	var bs []*Term
	for _, p := range l.LParams {
		b := Var("?L"+l.Func+"_"+p.Name, p.Sort)
		bs = append(bs, b)
		c.binds[p.Name] = sc(b)
	}
	var rs, es, ps []*Term
	var heads []string
	for _, r := range l.Requires {
		rs = append(rs, c.Bool(r.E))
	}
	for _, r := range l.Ensures {
		es = append(es, c.Bool(r.E))
	}
	for _, p := range l.Pattern {
		t := c.eval(p.E).t
		ps = append(ps, t)
		heads = append(heads, t.op)
	}
	if len(ps) > 1 {
		ps = []*Term{mk("Bool", "$pats", ps...)}
	}
	return Quant("forall", bs, Implies(And(rs...), And(es...)), ps...), heads
}

func (x *Exec) query(pc []*Term, goal *Term) string {
	as := append([]*Term{}, pc...)
	if goal != tFalse {
		as = append(as, Not(goal))
	}
	if os.Getenv("GOVER_RAW") != "" {
		for _, a := range as {
			fmt.Fprintln(os.Stderr, "RAW", a)
		}
		fmt.Fprintln(os.Stderr, "----")
	}
	as = simplifyQuery(flattenConj(x.countFacts(flattenConj(as))))
	if len(as) == 1 && as[0] == tFalse {
		return "(assert false)\n"
	}
	as = append(as, x.autoLemmas(as)...)
	if x.repat {
		for i := range as {
			as[i] = repattern(as[i])
		}
	}
	return renderQuery(x.cs.Prel, as, x.hidden())
}

// slimQuery is query with fewer hypotheses: without the quantified ones that have nested quantifiers or share no
// array variable with the goal. Enough for frame conditions, where the others only distract the solver.
func (x *Exec) slimQuery(pc []*Term, goal *Term) string {
	want := map[*Term]bool{}
	seen := map[*Term]bool{}
	var arrays func(t *Term, f func(*Term))
	arrays = func(t *Term, f func(*Term)) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == kVar && strings.HasPrefix(t.sort, "(Array") {
			f(t)
		}
		for _, a := range t.args {
			arrays(a, f)
		}
	}
	arrays(goal, func(t *Term) { want[t] = true })
	var depth func(t *Term) int
	dm := map[*Term]int{}
	depth = func(t *Term) int {
		if d, ok := dm[t]; ok {
			return d
		}
		d := 0
		for _, a := range t.args {
			if e := depth(a); e > d {
				d = e
			}
		}
		if t.kind == kQuant {
			d++
		}
		dm[t] = d
		return d
	}
	var keep []*Term
	for _, t := range flattenConj(pc) {
		switch depth(t) {
		case 0:
			keep = append(keep, t)
		case 1:
			hit := false
			seen = map[*Term]bool{}
			arrays(t, func(t *Term) { hit = hit || want[t] })
			if hit {
				keep = append(keep, t)
			}
		}
	}
	return x.query(keep, goal)
}

// lean leaves out the facts about recursive functions that the goal does not mention and, of the invariants of the
// goal's own loop, the other ones that claim an existence (two of those make each other produce ever new terms).
func (x *Exec) lean(pc []*Term, goal *Term) []*Term {
	rec := func(t *Term) []string {
		var ops []string
		collect([]*Term{t}, func(t *Term) {
			if t.kind == kApp {
				if d := x.cs.Prel.decls[t.op]; d != nil && d.rec {
					ops = append(ops, t.op)
				}
			}
		})
		return ops
	}
	in := map[string]bool{}
	for _, o := range rec(goal) {
		in[o] = true
	}
	own := x.tags[goal]
	loop, _, _ := strings.Cut(own, "#")
	var keep []*Term
	for _, t := range pc {
		if tg := x.tags[t]; tg != "" && own != "" && tg != own && (strings.HasPrefix(tg, loop+"#") || x.kind == "cut" && !strings.HasPrefix(tg, "after ")) {
			ex := false
			each := false
			collect([]*Term{t}, func(t *Term) {
				ex = ex || t.kind == kQuant && t.op == "exists"
				each = each || t.op == "lib_hit"
			})
			if ex && !each {
				continue
			}
		}
		keep = append(keep, t)
	}
	pc, keep = flattenConj(keep), nil
	for _, t := range pc {
		ok := true
		for _, o := range rec(t) {
			ok = ok && in[o]
		}
		if ok {
			keep = append(keep, t)
		}
	}
	return keep
}

// ground is the part of the facts without quantifiers.
func ground(pc []*Term) []*Term {
	var has func(t *Term) bool
	seen := map[*Term]bool{}
	has = func(t *Term) bool {
		if v, ok := seen[t]; ok {
			return v
		}
		r := t.kind == kQuant
		for _, a := range t.args {
			r = r || has(a)
		}
		seen[t] = r
		return r
	}
	var keep []*Term
	for _, t := range flattenConj(pc) {
		if !has(t) {
			keep = append(keep, t)
		}
	}
	return keep
}

type countSym struct {
	op     string
	v      *Term
	params []*Term
	body   *Term
}

// countTerm is the number of i < n with body: an uninterpreted function per closed body, unfolded once at
// every argument that occurs in a query.
func (x *Exec) countTerm(v, body, n *Term) *Term {
	body = alphaNorm(body, 0)
	// the body is closed by abstracting its free scalars, so that equal arguments give equal counts
	m := map[*Term]*Term{}
	args := []*Term{n}
	var params []*Term
	var rec func(t *Term, bound map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool) {
		if t.kind == kVar {
			if t == v || bound[t] || m[t] != nil || strings.HasPrefix(t.sort, "(Array") {
				return
			}
			p := Var(fmt.Sprintf("?cp%d", len(params)), t.sort)
			m[t] = p
			params = append(params, p)
			args = append(args, t)
			return
		}
		if t.kind == kQuant {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, b := range t.bound {
				nb[b] = true
			}
			bound = nb
		}
		for _, a := range t.args {
			rec(a, bound)
		}
	}
	rec(body, nil)
	body = Subst(body, m)
	for _, c := range x.counts {
		if c.body == body {
			return mk("Int", c.op, args...)
		}
	}
	op := fmt.Sprintf("count$%d", len(x.counts))
	x.counts = append(x.counts, &countSym{op, v, params, body})
	return mk("Int", op, args...)
}

func (x *Exec) countFacts(as []*Term) []*Term {
	if len(x.counts) == 0 {
		return as
	}
	by := map[string]*countSym{}
	for _, c := range x.counts {
		by[c.op] = c
	}
	used := map[string]bool{}
	var out []*Term
	seen := map[*Term]bool{}
	collect(as, func(t *Term) {
		if t.kind != kApp || by[t.op] == nil || seen[t] {
			return
		}
		seen[t] = true
		c := by[t.op]
		used[c.op] = true
		n := t.args[0]
		m := map[*Term]*Term{}
		for i, a := range t.args {
			if a.fv0() {
				return
			}
			if i > 0 {
				m[c.params[i-1]] = a
			}
		}
		at := func(i *Term) *Term { return mk("Int", c.op, append([]*Term{i}, t.args[1:]...)...) }
		hits := func(i *Term) *Term {
			mm := map[*Term]*Term{c.v: i}
			for k, v := range m {
				mm[k] = v
			}
			return Subst(c.body, mm)
		}
		prev := Sub(n, I(1))
		out = append(out, Eq(t, Ite(Le(n, I(0)), I(0), Add(at(prev), Ite(hits(prev), I(1), I(0))))))
		out = append(out, Implies(Le(I(0), n), Le(t, n)))
		// by induction on n: a positive count has a witness
		w := Var(fmt.Sprintf("cw$%s$%d", c.op, t.id), "Int")
		out = append(out, Or(Le(t, I(0)), And(Le(I(0), w), Lt(w, n), hits(w))))
	})
	for _, c := range x.counts {
		if used[c.op] {
			k := Var("?ck", "Int")
			as := append([]*Term{k}, c.params...)
			out = append(out, Quant("forall", as, Le(I(0), mk("Int", c.op, as...)), mk("Int", c.op, as...)))
		}
	}
	return append(append([]*Term{}, as...), out...)
}

func (x *Exec) rootCtx(st *State) *SpecCtx {
	c := &SpecCtx{x: x, st: st, old: x.entry, binds: map[string]Val{}}
	for k, v := range x.rootBinds {
		c.binds[k] = v
	}
	if x.rootFn != nil {
		c.pkg = x.rootFn.Pkg.Types
	}
	// variables a literal captures: their value now, and under name0 their value on entry
	for _, o := range x.captures {
		if _, dup := c.binds[o.Name()]; dup {
			continue
		}
		c.binds[o.Name()] = x.readVar(st, o)
		if x.entry != nil {
			c.binds[o.Name()+"0"] = x.readVar(x.entry, o)
		}
	}
	return c
}

type keySort struct{ key, sort string }

// expandKey lists the heap maps denoted by a modifies item.
func (x *Exec) expandKey(item string, pkg *types.Package) []keySort {
	var out []keySort
	c := &SpecCtx{x: x, pkg: pkg}
	add := func(k, s string) { out = append(out, keySort{k, s}) }
	switch {
	case strings.HasPrefix(item, "g:"):
		s := "Int"
		if strings.HasPrefix(item, "g:s_") {
			s = "String"
		}
		add(item, ArrSort("Int", s))
	case strings.HasPrefix(item, "gs:"):
		add(item, ArrSort("Int", "Int"))
	case strings.HasPrefix(item, "m:"):
		var el types.Type
		n := item[2:]
		for _, b := range types.Typ {
			if b.Name() == n {
				el = b
			}
		}
		if strings.HasPrefix(n, "[]") {
			el = types.NewSlice(c.lookupTypeB(n[2:]))
		}
		if el == nil {
			el = c.lookupType(n)
		}
		leafKeys(item, el, true, func(k, s string) { add(k, ArrSort("Int", ArrSort("Int", s))) })
	case strings.HasPrefix(item, "map:"):
		p := strings.SplitN(item[4:], ":", 2)
		kt, vt := c.lookupTypeB(p[0]), c.lookupTypeB(p[1])
		ks := keySortOf(kt)
		add(item+".dom", ArrSort("Int", ArrSort(ks, "Bool")))
		leafKeys(item+".val", vt, true, func(k, s string) { add(k, ArrSort("Int", ArrSort(ks, s))) })
	case strings.HasPrefix(item, "c:"):
		leafKeys(item, c.lookupTypeB(item[2:]), false, func(k, s string) { add(k, ArrSort("Int", s)) })
	case strings.HasPrefix(item, "v:"):
		nm := item[2:]
		k := strings.LastIndex(nm, ".")
		for _, p := range x.w.Pkgs {
			if shortPkg(p.Path) == nm[:k] {
				if o, ok := p.Types.Scope().Lookup(nm[k+1:]).(*types.Var); ok {
					leafKeys(item, o.Type(), false, func(k, s string) { add(k, ArrSort("Int", s)) })
				}
			}
		}
	default:
		// pkg.Type or pkg.Type.Field
		parts := strings.Split(item, ".")
		try := func(n int) bool {
			tn := strings.Join(parts[:n], ".")
			t := func() (t types.Type) {
				defer func() {
					if recover() != nil {
						t = nil
					}
				}()
				return c.lookupType(tn)
			}()
			if t == nil {
				return false
			}
			prefix := "f:" + typeKey(t)
			rest := parts[n:]
			if len(rest) == 0 {
				leafKeys(prefix, t, false, func(k, s string) { add(k, ArrSort("Int", s)) })
				return true
			}
			fs, _ := structFields(t)
			for _, f := range fs {
				if f.name == rest[0] {
					leafKeys(prefix+"."+f.name, f.typ, false, func(k, s string) { add(k, ArrSort("Int", s)) })
					return true
				}
			}
			return false
		}
		if !try(len(parts)) && !(len(parts) > 1 && try(len(parts)-1)) {
			unsup("modifies: unknown key %s", item)
		}
	}
	if len(out) == 0 {
		unsup("modifies: unknown key %s", item)
	}
	return out
}

func (c *SpecCtx) lookupTypeB(n string) types.Type {
	if strings.HasPrefix(n, "[]") {
		return types.NewSlice(c.lookupTypeB(n[2:]))
	}
	if strings.HasPrefix(n, "*") {
		return types.NewPointer(c.lookupTypeB(n[1:]))
	}
	if strings.HasPrefix(n, "map[") {
		i := strings.Index(n, "]")
		return types.NewMap(c.lookupTypeB(n[4:i]), c.lookupTypeB(n[i+1:]))
	}
	for _, b := range types.Typ {
		if b.Name() == n {
			return b
		}
	}
	return c.lookupType(n)
}

func refOf(v Val) *Term { return v.t }

// applyHavoc applies the modifies clause of a contract to st. ctx evaluates the index expressions in
// the pre-state.
func (x *Exec) applyHavoc(st *State, ct *Contract, ctx *SpecCtx) {
	var pkg *types.Package
	if fd := x.w.ByName[ct.Func]; fd != nil {
		pkg = fd.Pkg.Types
	}
	for _, m := range ct.Modifies {
		if m.Key == "*" {
			x.havocAll(st)
			continue
		}
		var at *Term
		if m.At != nil {
			av := ctx.eval(m.At)
			at = refOf(av)
			if at == nil || av.loc != nil && av.loc.kind == LLocal {
				continue // local storage: its new value is set by callContract
			}
			if at == I(0) {
				continue // nothing is stored at nil
			}
		}
		for _, ks := range x.expandKey(m.Key, pkg) {
			h := heapArr(st, ks.key, "Int", ks.sort)
			st.touched(ks.key)
			if strings.HasSuffix(ks.key, ".off") {
				continue // slices stored in the heap start at offset zero (listed assumption)
			}
			if at != nil {
				st.heap[ks.key] = Store(h, at, Fresh("Hv", elemSort(ks.sort)))
			} else if strings.HasPrefix(ks.key, "g:") || strings.HasPrefix(ks.key, "v:") {
				st.heap[ks.key] = Store(h, I(0), Fresh("Gv", elemSort(ks.sort)))
			} else {
				st.heap[ks.key] = Fresh("H", ks.sort)
			}
		}
	}
	if !ct.Pure {
		na := Fresh("alloc", "Int")
		st.assume(Le(st.alloc, na))
		st.alloc = na
	}
}

func (x *Exec) callContract(st *State, ct *Contract, fn *types.Func, sig *types.Signature, recv *Val, args []Val, pos token.Pos) []outV {
	x.contractsUsed[ct.Func] = true
	if ct.Trusted {
		x.trusted["contract of "+ct.Func+" (assumed, not verified)"] = true
	}
	for _, cb := range ct.Callbacks {
		if cb.Records != "" {
			unsup("call of %s: its contract is about an unknown callback", ct.Func)
		}
	}
	all := args
	if recv != nil {
		all = append([]Val{*recv}, args...)
	}
	binds := map[string]Val{}
	for i, v := range all {
		if i < len(ct.Params) {
			if v.loc != nil {
				// interior pointers are passed to contracts as opaque references
			}
			binds[ct.Params[i]] = v
		}
	}
	if len(all) != len(ct.Params) {
		unsup("contract of %s names %d parameters, the call has %d", ct.Func, len(ct.Params), len(all))
	}
	pre := st.clone()
	var pkg *types.Package
	if fn.Pkg() != nil {
		pkg = fn.Pkg()
		if p := x.w.Pkgs[fn.Pkg().Path()]; p != nil {
			pkg = p.Types
		}
	}
	ctx := &SpecCtx{x: x, st: st, old: pre, binds: binds, pkg: pkg}
	for i, r := range ct.Requires {
		st.oblige("requires", fmt.Sprintf("call.%s.requires.%s", ct.Func, clName(r, i)), ctx.Bool(r.E), pos)
	}
	// pointers to local storage handed to a contract: their target may change
	for _, v := range all {
		if v.loc != nil {
			if v.loc.kind == LLocal && isBuffer(v.loc.typ) || !ct.Pure {
				nv := st.freshVal("esc", v.loc.typ)
				x.storeLoc(st, v.loc, nv)
			}
		}
	}
	ctxPre := *ctx
	ctxPre.st = pre
	x.applyHavoc(st, ct, &ctxPre)
	var res Val
	asAtEntry := tFalse // the call gives what it would have given on entry
	if ct.Function {
		var as []*Term
		for _, v := range all {
			as = append(as, scalars(v)...)
		}
		res = x.functionVal(st, ct.Func, sig, as)
	} else if ct.Observer && x.observing() {
		var as []*Term
		known := tTrue
		for _, o := range ct.Of {
			v := ctx.eval(o.E)
			as = append(as, v.t)
			if v.t.sort == "Int" && !isIntType(v.T) {
				known = And(known, Lt(v.t, x.entry.alloc)) // an object made here may have changed since it was last observed
			}
		}
		x.trusted["observer: "+ct.Func+" gives equal results for equal arguments while the tree is unchanged"] = true
		x.unchangedSince(st, pos)
		res = x.resultVal(st, sig, "r."+fn.Name())
		st.assume(Implies(known, x.obsEq(st, ct.Func, sig, as, res)))
		asAtEntry = known
	} else {
		res = x.resultVal(st, sig, "r."+fn.Name())
	}
	n := *ctx
	n.binds = map[string]Val{}
	for k, v := range binds {
		n.binds[k] = v
	}
	bindResults(n.binds, ct, sig, res)
	for _, e := range ct.Ensures {
		if ct.Opaque {
			break
		}
		if e.Own {
			continue
		}
		if usesObs(x.cs, e.E) {
			if !x.observing() {
				continue // says nothing here: the caller changes the tree
			}
			x.unchangedSince(pre, pos)
		}
		st.assume(n.Bool(e.E))
		if asAtEntry != tFalse && mentions(e.E, "fresh") {
			m := n
			m.old = x.entry
			st.assume(Implies(asAtEntry, m.Bool(e.E)))
		}
	}
	return []outV{{st, res}}
}

// observing says whether observers have a meaning in the function being verified: it changes nothing, or its contract
// speaks of them itself.
func (x *Exec) observing() bool {
	if x.root == nil {
		return false
	}
	if len(x.root.Modifies) == 0 {
		return true
	}
	for _, e := range x.root.Ensures {
		if usesObs(x.cs, e.E) {
			return true
		}
	}
	for _, l := range x.root.Loops {
		for _, e := range l.Invs {
			if usesObs(x.cs, e.E) {
				return true
			}
		}
	}
	return false
}

func mentions(e ast.Expr, name string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return true
	})
	return found
}

func usesAnyObs(cs *Contracts, ct *Contract, name string) bool {
	for _, e := range ct.Ensures {
		if usesObs(cs, e.E) {
			return true
		}
	}
	return false
}

func usesObs(cs *Contracts, e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				if id.Name == "obs" || id.Name == "obsLen" || id.Name == "obsAt" {
					found = true
				} else if d := cs.Defs[id.Name]; d != nil && usesObs(cs, d.Body) {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// unchangedSince obliges that everything that existed at entry still has the contents it had then (where an observer
// is called).
func (x *Exec) unchangedSince(st *State, pos token.Pos) {
	if st.gen != "" {
		st.oblige("observer", "observer.everything", tFalse, pos)
		return
	}
	keys := map[string]bool{}
	for k := range st.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		h := st.heap[k]
		h0 := heapArr(x.entry, k, "", h.sort)
		if h == h0 {
			continue
		}
		sv := st.pc
		if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "v:") {
			st.oblige("observer", "observer."+k, Eq(Select(h, I(0)), Select(h0, I(0))), pos)
		} else {
			p := Fresh("p", "Int")
			g := []*Term{Lt(p, x.entry.alloc), Implies(Lt(p, I(0)), Lt(mk("Int", "embinv", p), x.entry.alloc))}
			st.oblige("observer", "observer."+k, Implies(And(g...), Eq(Select(h, p), Select(h0, p))), pos)
		}
		st.pc = sv
	}
}

// obsEq says that a value is what the observer gives for the dependencies.
func (x *Exec) obsEq(st *State, name string, sig *types.Signature, as []*Term, res Val) *Term {
	if sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok && sig.Results().Len() == 1 {
		n := "fn_" + sanitize(name)
		i := Var("?ob", "Int")
		srt, ok := scalarSort(sl.Elem())
		if !ok {
			unsup("observer %s: elements are not scalar", name)
		}
		el := st.rd(elemLoc(res, i), "", srt)
		at := mk(srt, n+".at", append(append([]*Term{}, as...), i)...)
		eq := Eq(el, at)
		if srt == "Int" && !isIntType(sl.Elem()) {
			eq = And(eq, Lt(at, st.alloc))
		}
		return And(Eq(res.n, mk("Int", n+".len", as...)),
			Quant("forall", []*Term{i}, Implies(And(Le(I(0), i), Lt(i, res.n)), eq), el),
			Quant("forall", []*Term{i}, Implies(And(Le(I(0), i), Lt(i, res.n)), eq), at))
	}
	return eqVals(x.functionVal(st, name, sig, as), res)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func eqVals(a, b Val) *Term {
	xs, ys := scalars(a), scalars(b)
	var c []*Term
	for i := range xs {
		c = append(c, Eq(xs[i], ys[i]))
	}
	return And(c...)
}

func bindResults(b map[string]Val, ct *Contract, sig *types.Signature, res Val) {
	switch sig.Results().Len() {
	case 0:
	case 1:
		if len(ct.Results) > 0 {
			b[ct.Results[0]] = res
		}
	default:
		for i, r := range ct.Results {
			if i < len(res.f) {
				b[r] = res.f[i]
			}
		}
	}
}

// scanAddr finds local struct variables whose address escapes.
func (x *Exec) scanAddr() {
	for _, p := range x.w.Pkgs {
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e := ast.Unparen(u.X)
					if id, ok := e.(*ast.Ident); ok {
						if o, ok := p.Info.Uses[id].(*types.Var); ok && o.Parent() != p.Types.Scope() && !isBuffer(o.Type()) {
							x.addrTaken[o] = true
						}
					}
				}
				return true
			})
		}
	}
}

// scanReslice finds local slice variables assigned re-sliced values (their offset may change in loops).
func (x *Exec) scanReslice() {
	for _, p := range x.w.Pkgs {
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok || len(as.Lhs) != len(as.Rhs) {
					return true
				}
				for i, l := range as.Lhs {
					if se, ok := ast.Unparen(as.Rhs[i]).(*ast.SliceExpr); ok && se.Low != nil {
						if id, ok := l.(*ast.Ident); ok {
							o := p.Info.Uses[id]
							if o == nil {
								o = p.Info.Defs[id]
							}
							if o != nil {
								x.reslice[o] = true
							}
						}
					}
				}
				return true
			})
		}
	}
}

type verifyErr struct{ msg string }

func (x *Exec) genFunc(ct *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				err = fmt.Errorf("not translatable: %s", r.msg)
			case unresolved:
				err = unresolvedErr{r.name}
			default:
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				if os.Getenv("GOVER_DEBUG") != "" {
					debug.PrintStack()
				}
				err = fmt.Errorf("not translatable: internal: %v", r)
			}
		}
	}()
	fd := x.w.ByName[ct.Func]
	if fd == nil || fd.Decl.Body == nil {
		return fmt.Errorf("function %s not found in the source", ct.Func)
	}
	x.rootFn = fd
	x.scanAddr()
	x.scanReslice()
	x.numberLoops(fd, ct)
	st := x.newState()
	sig := fd.Obj.Type().(*types.Signature)
	st.fr = &Frame{pkg: fd.Pkg, sig: sig, fn: ct.Func}
	st.defs = [][]deferred{nil}
	x.rootBinds = map[string]Val{}
	var fields []*ast.Field
	if fd.Decl.Recv != nil {
		fields = append(fields, fd.Decl.Recv.List...)
	}
	fields = append(fields, fd.Decl.Type.Params.List...)
	i := 0
	bindP := func(name *ast.Ident, t types.Type) {
		nm := fmt.Sprintf("p%d", i)
		if name != nil {
			nm = name.Name
		}
		if i < len(ct.Params) {
			nm = ct.Params[i]
		}
		v := st.freshVal(nm, t)
		if v.K == VFunc {
			v.fn = &Closure{opaque: nm}
		}
		if i < len(ct.Params) {
			x.rootBinds[ct.Params[i]] = v
		}
		if name != nil && name.Name != "_" {
			x.declare(st, fd.Pkg.Info.Defs[name], v)
		}
		i++
	}
	for _, f := range fields {
		t := fd.Pkg.Info.TypeOf(f.Type)
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			t = sig.Params().At(sig.Params().Len() - 1).Type()
		}
		if len(f.Names) == 0 {
			bindP(nil, t)
		}
		for _, n := range f.Names {
			bindP(n, t)
		}
	}
	if i != len(ct.Params) {
		return fmt.Errorf("contract of %s names %d parameters, the function has %d", ct.Func, len(ct.Params), i)
	}
	if fd.Lit != nil {
		outer := fd.Outer
		for _, o := range x.w.captured(fd) {
			v := st.freshVal(o.Name(), o.Type())
			if v.K == VFunc {
				if l := x.w.soleLiteral(outer, o); l != nil {
					v.fn = &Closure{lit: l, pkg: fd.Pkg}
				} else {
					v.fn = &Closure{opaque: o.Name()}
				}
			}
			x.declare(st, o, v)
			x.captures = append(x.captures, o)
		}
	}
	x.bindResults(st, st.fr, fd.Decl.Type, sig)
	x.entry = st // provisional, for requires
	ctx := x.rootCtx(st)
	ctx.old = st
	for _, r := range ct.Requires {
		st.assume(ctx.Bool(r.E))
	}
	x.entry = st.clone()
	x.entryPC = append([]*Term{}, st.pc...)
	x.stack = []*types.Func{fd.Obj}
	outs := x.block(st, fd.Decl.Body.List)
	var fin []*State
	for _, s := range outs {
		fin = append(fin, x.finish(s)...)
	}
	x.finals = nil
	for _, s := range fin {
		if s.flow == FPanic {
			continue
		}
		x.finals = append(x.finals, s)
		x.exitObls(s, ct, sig, fd)
	}
	if ct.MergeExit {
		// reserved
	}
	return nil
}

func (x *Exec) exitObls(s *State, ct *Contract, sig *types.Signature, fd *FuncDecl) {
	c := x.rootCtx(s)
	res := Val{}
	switch len(s.ret) {
	case 0:
	case 1:
		res = s.ret[0]
	default:
		res = Val{K: VTuple, f: s.ret}
	}
	bindResults(c.binds, ct, sig, res)
	pos := fd.Decl.Pos()
	for _, u := range ct.Uses {
		s.assume(c.Bool(u.E))
	}
	if ct.Observer && usesAnyObs(x.cs, ct, ct.Func) {
		// what the function gives is, by definition, what observing it gives
		ce := x.rootCtx(x.entry)
		var as []*Term
		for _, o := range ct.Of {
			as = append(as, ce.eval(o.E).t)
		}
		s.assume(x.obsEq(s, ct.Func, sig, as, res))
	}
	c.scope = func(name string) (Val, bool) { return x.exitLocal(s, fd, name) }
	for i, a := range ct.Asserts {
		s.oblige("assert", "assert."+clName(a, i), c.Bool(a.E), pos)
	}
	c.scope = nil
	if ct.Function {
		// a function of its arguments: its result may not come from a package variable or the heap
		for k := range x.initHeap {
			if strings.HasPrefix(k, "v:") || strings.HasPrefix(k, "f:") || strings.HasPrefix(k, "map:") {
				s.oblige("function", "function.reads."+k, tFalse, pos)
			}
		}
	}
	pcn := len(s.pc)
	var alt []*Term
	for i, e := range ct.Ensures {
		s.pc = s.pc[:pcn:pcn]
		if e.Own {
			c.scope = func(name string) (Val, bool) { return x.exitLocal(s, fd, name) }
		}
		g := c.Bool(e.E)
		c.scope = nil
		n := len(x.obls)
		s.oblige("ensures", "ensures."+clName(e, i), g, pos)
		if len(x.obls) > n {
			x.obls[n].Alt = alt[:len(alt):len(alt)]
		}
		alt = append(alt, g)
	}
	s.pc = s.pc[:pcn:pcn]
	// frame
	allowed, full, star := x.modifiable()
	if star {
		return
	}
	if s.gen != "" {
		s.oblige("frame", "frame.everything", tFalse, pos)
		return
	}
	keys := map[string]bool{}
	for k := range s.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if full[k] {
			continue
		}
		h := s.heap[k]
		h0 := heapArr(x.entry, k, "", h.sort)
		if h == h0 {
			continue
		}
		if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "v:") {
			s.oblige("frame", "frame."+k, Eq(Select(h, I(0)), Select(h0, I(0))), pos)
			continue
		}
		p := Fresh("p", "Int")
		g := []*Term{Lt(p, x.entry.alloc), Implies(Lt(p, I(0)), Lt(mk("Int", "embinv", p), x.entry.alloc))}
		for _, a := range allowed[k] {
			g = append(g, Not(Eq(p, a)))
		}
		sv := s.pc
		s.oblige("frame", "frame."+k, Implies(And(g...), Eq(Select(h, p), Select(h0, p))), pos)
		s.pc = sv
	}
}

// exitLocal is the value, on leaving the function, of one of its local variables.
func (x *Exec) exitLocal(s *State, fd *FuncDecl, name string) (Val, bool) {
	if r, ok := x.renames[name]; ok {
		name = r
	}
	var best types.Object
	for o := range s.env {
		if o != nil && o.Name() == name && o.Pos() >= fd.Decl.Type.Pos() && o.Pos() < fd.Decl.Body.End() && (best == nil || o.Pos() > best.Pos()) {
			best = o
		}
	}
	if best == nil {
		return Val{}, false
	}
	return x.readVar(s, best), true
}

// modifiable lists, per heap key, the references the root's modifies clause allows to change; the keys it allows to
// change everywhere; and whether it allows everything.
func (x *Exec) modifiable() (allowed map[string][]*Term, full map[string]bool, star bool) {
	allowed, full = map[string][]*Term{}, map[string]bool{}
	if x.root == nil {
		return
	}
	var pkg *types.Package
	if fd := x.w.ByName[x.root.Func]; fd != nil {
		pkg = fd.Pkg.Types
	}
	ce := x.rootCtx(x.entry)
	for _, m := range x.root.Modifies {
		if m.Key == "*" {
			star = true
			continue
		}
		for _, ks := range x.expandKey(m.Key, pkg) {
			if m.At != nil {
				allowed[ks.key] = append(allowed[ks.key], refOf(ce.eval(m.At)))
			} else {
				full[ks.key] = true
			}
		}
	}
	return
}

type unresolvedErr struct{ name string }

func (u unresolvedErr) Error() string {
	return "the contract names " + u.name + ", which the code no longer has"
}

func (x *Exec) genLemma(l *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				err = fmt.Errorf("lemma: %s", r.msg)
			case unresolved:
				err = fmt.Errorf("lemma: unresolved %s", r.name)
			default:
				panic(r)
			}
		}
	}()
	st := x.newState()
	st.fr = &Frame{}
	c := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}}
	for _, p := range l.LParams {
		c.binds[p.Name] = sc(Var(p.Name+"$L", p.Sort))
	}
	x.entry = st
	for _, r := range l.Requires {
		st.assume(c.Bool(r.E))
	}
	x.entryPC = append([]*Term{}, st.pc...)
	if l.Measure != nil {
		x.lemmaSelf = l
		x.lemmaMeasure = c.eval(l.Measure.E).t
	}
	for _, u := range l.Uses {
		st.assume(c.Bool(u.E))
	}
	x.lemmaSelf = nil
	for i, a := range l.Asserts {
		st.oblige("assert", "assert."+clName(a, i), c.Bool(a.E), token.NoPos)
	}
	n := len(st.pc)
	for i, e := range l.Ensures {
		st.pc = st.pc[:n:n]
		st.oblige("lemma", "lemma.ensures."+clName(e, i), c.Bool(e.E), token.NoPos)
	}
	return nil
}

// verify runs one contract and returns its report.
func verify(w *World, cs *Contracts, ct *Contract, ms int) *FuncReport {
	t0 := time.Now()
	rep := verifyOnce(w, cs, ct, ms, map[string]string{})
	if u, ok := rep.err.(unresolvedErr); ok {
		rep2 := retryRenamed(w, cs, ct, ms, u)
		if rep2 != nil {
			rep = rep2
		}
	}
	rep.WallMs = time.Since(t0).Milliseconds()
	return &rep.FuncReport
}

type reportE struct {
	FuncReport
	err error
}

func (r *reportE) failed() int {
	n := 0
	for _, o := range r.Obls {
		if o.Status != "unsat" {
			n++
		}
	}
	return n
}

// retryRenamed handles local variables that were renamed since the contract was written.
func retryRenamed(w *World, cs *Contracts, ct *Contract, ms int, u unresolvedErr) *reportE {
	ren := map[string]string{}
	var rec func(u unresolvedErr, depth int) *reportE
	tries := 0
	rec = func(u unresolvedErr, depth int) *reportE {
		if depth > 3 {
			return nil
		}
		fd := w.ByName[ct.Func]
		if fd == nil {
			return nil
		}
		names := map[string]bool{}
		ast.Inspect(fd.Decl, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := fd.Pkg.Info.Defs[id].(*types.Var); ok && !v.IsField() && id.Name != "_" {
					names[id.Name] = true
				}
			}
			return true
		})
		for _, c := range sortedKeys(names) {
			used := false
			for _, v := range ren {
				if v == c {
					used = true
				}
			}
			if used || tries > 12 {
				continue
			}
			tries++
			ren[u.name] = c
			rep := verifyOnce(w, cs, ct, ms, ren)
			if u2, ok := rep.err.(unresolvedErr); ok && u2.name != u.name {
				if r := rec(u2, depth+1); r != nil {
					return r
				}
			} else if rep.err == nil && rep.failed() == 0 {
				return rep
			}
			delete(ren, u.name)
		}
		return nil
	}
	return rec(u, 0)
}

func verifyOnce(w *World, cs *Contracts, ct *Contract, ms int, renames map[string]string) *reportE {
	x := newExec(w, cs, ct)
	for k, v := range renames {
		x.renames[k] = v
	}
	rep := &reportE{}
	rep.Func, rep.File, rep.Props, rep.Lemma, rep.Trusted = ct.Func, ct.File, sortedKeys(ct.Props), ct.IsLemma, ct.Trusted
	rep.Renames = renames
	if ct.Trusted {
		rep.Vacuous = "trusted"
		return rep
	}
	var err error
	if ct.IsLemma {
		err = x.genLemma(ct)
	} else {
		if fd := w.ByName[ct.Func]; fd != nil {
			rep.Pos = x.pos(fd.Decl.Pos())
		}
		err = x.genFunc(ct)
	}
	rep.Loops = len(x.loopIdx)
	rep.Inlined, rep.Used, rep.Models, rep.Notes = sortedKeys(x.inlined), sortedKeys(x.contractsUsed), sortedKeys(x.trusted), sortedKeys(x.notes)
	if err != nil {
		rep.err = err
		rep.Error = err.Error()
		rep.Obls = append(rep.Obls, &OblReport{Name: "translation", Kind: "translation", Pos: rep.Pos, Status: "failed", Solver: "-", Model: err.Error()})
		return rep
	}
	if ct.TimeoutMs > 0 {
		ms = ct.TimeoutMs
	}
	strats := ct.Strats
	if len(strats) == 0 {
		strats = []string{"z3-new", "cvc5", "z3"}
	}
	x.solveAll(ms, strats)
	for _, o := range x.obls {
		rep.Obls = append(rep.Obls, &OblReport{o.Name, o.Kind, o.Pos, o.Status, o.Solver, o.Ms, o.Model, o.Cex})
	}
	// vacuity: the precondition is satisfiable, and some exit is reachable
	rep.Vacuous = "ok"
	if r := Solve(x.query(x.entryPC, tFalse), 1500, []string{"z3-new"}, false); r.Status == "unsat" {
		rep.Vacuous = "contradictory precondition"
	}
	if !ct.IsLemma && rep.Vacuous == "ok" {
		live := len(x.finals) == 0 && ct.PanicOK
		for i, s := range x.finals {
			if i > 40 || live {
				break
			}
			if r := Solve(x.query(s.pc, tFalse), 700, []string{"z3-new"}, false); r.Status != "unsat" {
				live = true
			}
		}
		if !live {
			rep.Vacuous = "no reachable exit"
		}
	}
	if rep.Vacuous != "ok" {
		rep.Obls = append(rep.Obls, &OblReport{Name: "vacuity", Kind: "vacuity", Pos: rep.Pos, Status: "failed", Model: rep.Vacuous})
	}
	return rep
}

func (x *Exec) solveAll(ms int, strats []string) {
	type job struct {
		o    *Obl
		q    string
		slim []string
		alt  string
		pat  string
	}
	var wg sync.WaitGroup
	var jobs []job
	cache := map[string]*Obl{}
	var dup [][2]*Obl
	for _, o := range x.obls {
		if o.Trivial {
			continue
		}
		x.kind = o.Kind
		q := x.query(o.PC, o.Goal)
		if p, ok := cache[q]; ok {
			dup = append(dup, [2]*Obl{o, p})
			continue
		}
		cache[q] = o
		var slim []string
		alt := ""
		if len(o.Alt) > 0 {
			alt = x.query(append(append([]*Term{}, o.PC...), o.Alt...), o.Goal)
		}
		if o.Kind == "frame" || o.Kind == "loop-auto" {
			slim = append(slim, x.slimQuery(o.PC, o.Goal))
		}
		if o.Kind == "safety" {
			slim = append(slim, x.query(ground(o.PC), o.Goal))
		}
		if len(x.root.Cuts) > 0 && (o.Kind == "loop-preserve" || o.Kind == "cut") {
			// the facts stated along the body, the last loop's invariants and the invariant itself
			own := x.tags[o.Goal]
			last := ""
			for _, t := range o.PC {
				if tg := x.tags[t]; tg != "" && !strings.HasPrefix(tg, "after ") {
					last, _, _ = strings.Cut(tg, "#")
				}
			}
			fs := ground(o.PC)
			for _, t := range o.PC {
				if tg := x.tags[t]; tg != "" && (tg == own || strings.HasPrefix(tg, "after ") || o.Kind == "cut" && strings.HasPrefix(tg, last+"#")) {
					fs = append(fs, t)
				}
			}
			slim = append(slim, x.query(fs, o.Goal))
		}
		if len(slim) == 0 {
			slim = append(slim, x.query(x.lean(o.PC, o.Goal), o.Goal))
		} else if o.Kind == "cut" || o.Kind == "loop-preserve" {
			slim = append(slim, x.query(x.lean(o.PC, o.Goal), o.Goal))
		}
		if o.Own != nil {
			slim = []string{x.query(o.Own, o.Goal)}
		}
		x.repat = true
		pat := x.query(o.PC, o.Goal)
		x.repat = false
		if pat == q {
			pat = ""
		}
		wg.Add(1)
		jobs = append(jobs, job{o, q, slim, alt, pat})
		go func(j job) {
			defer wg.Done()
			for _, q := range j.slim {
				if q == j.q {
					continue
				}
				if r := Solve(q, 3000, []string{"z3-new"}, false); r.Status == "unsat" {
					j.o.Status, j.o.Solver, j.o.Ms = r.Status, r.Solver, r.Ms
					return
				}
			}
			r := Solve(j.q, ms, strats, false)
			if j.alt != "" && r.Status != "unsat" && r.Status != "sat" {
				if a := Solve(j.alt, ms, strats, false); a.Status == "unsat" {
					r = a
				}
			}
			if j.pat != "" && r.Status != "unsat" && r.Status != "sat" {
				if a := Solve(j.pat, ms, strats, false); a.Status == "unsat" {
					r = a
				}
			}
			j.o.Status, j.o.Solver, j.o.Ms = r.Status, r.Solver, r.Ms
			if r.Status != "unsat" {
				if r.Status == "error" {
					j.o.Model = r.Model
				}
				if debugDir != "" {
					os.WriteFile(fmt.Sprintf("%s/FAIL-%s-%s.smt2", debugDir, sanitize(x.root.Func), sanitize(j.o.Name)), []byte(j.q+"(check-sat)\n"), 0o644)
				}
			}
		}(job{o, q, slim, alt, pat})
	}
	wg.Wait()
	// a few open obligations get one more, longer try
	var open []job
	for _, j := range jobs {
		if j.o.Status != "unsat" && j.o.Status != "sat" {
			open = append(open, j)
		}
	}
	if len(open) <= 6 {
		for _, j := range open {
			wg.Add(1)
			go func(j job) {
				defer wg.Done()
				for _, q := range append([]string{j.q, j.pat}, j.slim...) {
					if q == "" {
						continue
					}
					if r := Solve(q, 2*ms, strats, false); r.Status == "unsat" {
						j.o.Status, j.o.Solver, j.o.Ms = r.Status, r.Solver, r.Ms
						return
					}
				}
			}(j)
		}
		wg.Wait()
	}
	ncex := 0
	for _, o := range x.obls {
		if o.Status == "sat" && !o.Trivial && ncex < 6 {
			ncex++
			o.Cex = x.counterexample(o)
		}
	}
	for _, d := range dup {
		d[0].Status, d[0].Solver, d[0].Ms = d[1].Status, "same as earlier", 0
	}
}

func propFuncs(cs *Contracts, prop string) []*Contract {
	// contracts of the property plus the contracts they use transitively (by the check of their users)
	var out []*Contract
	for _, c := range cs.Order {
		if prop == "" || c.Props[prop] {
			out = append(out, c)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	return out
}

// counterexample asks the solver for the scalar inputs of a refuted obligation (unsimplified query, so
// that every parameter still occurs).
func (x *Exec) counterexample(o *Obl) map[string]string {
	type ent struct {
		name string
		t    *Term
	}
	var es []ent
	var walk func(n string, v Val)
	walk = func(n string, v Val) {
		if v.t != nil && v.t.kind == kVar && (v.t.sort == "String" || v.t.sort == "Int" || v.t.sort == "Bool") && v.n == nil {
			es = append(es, ent{n, v.t})
			return
		}
		if st, ok := v.T.Underlying().(*types.Struct); ok {
			for i, f := range v.f {
				if i < st.NumFields() {
					walk(n+"."+st.Field(i).Name(), f)
				}
			}
		}
	}
	for _, n := range sortedVals(x.rootBinds) {
		if v := x.rootBinds[n]; v.T != nil {
			walk(n, v)
		}
	}
	if len(es) == 0 {
		return nil
	}
	as := append(append([]*Term{}, o.PC...), Not(o.Goal))
	as = flattenConj(as)
	q := "(set-option :produce-models true)\n" + renderQuery(x.cs.Prel, as, x.hidden())
	var names []string
	for _, e := range es {
		if strings.Contains(q, "(declare-const "+symName(e.t.op)+" ") {
			names = append(names, symName(e.t.op))
		}
	}
	if len(names) == 0 {
		return nil
	}
	q += "(check-sat)\n(get-value (" + strings.Join(names, " ") + "))\n"
	ctx, cancel := context.WithTimeout(context.Background(), 9*time.Second)
	defer cancel()
	out, _ := runSolver(ctx, "z3-new", 4000, []string{"-in", "-T:8"}, q)
	if first(out) != "sat" {
		return nil
	}
	k := strings.Index(out, "((")
	if k < 0 {
		return nil
	}
	cex := map[string]string{}
	for _, pr := range inner(strings.TrimSpace(out[k:])) {
		kv := inner(pr)
		if len(kv) != 2 {
			continue
		}
		for _, e := range es {
			if symName(e.t.op) == kv[0] {
				v := kv[1]
				if e.t.sort == "String" {
					v = unquoteSMT(v)
				}
				cex[e.name] = v
			}
		}
	}
	return cex
}

func unquoteSMT(s string) string {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "\""), "\"")
	s = strings.ReplaceAll(s, "\"\"", "\"")
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.HasPrefix(s[i:], "\\u{") {
			if e := strings.IndexByte(s[i:], '}'); e > 0 {
				var n int
				fmt.Sscanf(s[i+3:i+e], "%x", &n)
				if n < 256 {
					sb.WriteByte(byte(n))
				} else {
					sb.WriteRune(rune(n))
				}
				i += e
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func sortedVals(m map[string]Val) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// repattern gives quantifiers over one index the patterns that see through the stores made since: an element of
// the array as it was is as good a reason to instantiate as an element of the array as it is.
func repattern(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			ch = ch || as[i] != a
		}
		r := t
		if t.kind == kQuant {
			body := as[0]
			if len(t.args) == 1 && len(t.bound) == 1 {
				if ps := storePatterns(body, t.bound[0]); len(ps) > 0 {
					r = Quant(t.op, t.bound, body, ps...)
					memo[t] = r
					return r
				}
			}
			if ch {
				r = Quant(t.op, t.bound, body, t.args[1:]...)
			}
		} else if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func mentionsVar(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func storePatterns(body, v *Term) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	peeled := false
	add := func(p *Term) {
		if p.op == "select" && !have[p] && len(out) < 8 {
			have[p] = true
			out = append(out, p)
		}
	}
	seen := map[*Term]bool{}
	var peel func(a, i *Term)
	peel = func(a, i *Term) {
		add(Select(a, i))
		switch a.op {
		case "store":
			peeled = true
			peel(a.args[0], i)
		case "ite":
			peeled = true
			peel(a.args[1], i)
			peel(a.args[2], i)
		case "select": // a row of a memory that was written to
			var rows func(m *Term) []*Term
			rows = func(m *Term) []*Term {
				if m.op == "store" {
					return append(rows(m.args[0]), m.args[2])
				}
				return []*Term{Select(m, a.args[1])}
			}
			if a.args[0].op == "store" {
				peeled = true
				for _, r := range rows(a.args[0]) {
					if r != a {
						peel(r, i)
					}
				}
			}
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if len(t.args) == 0 || seen[t] || t.kind == kQuant {
			return
		}
		seen[t] = true
		if t.kind == kApp && t.op == "select" && !mentionsVar(t.args[0], v) && mentionsVar(t.args[1], v) {
			peel(t.args[0], t.args[1])
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if !peeled {
		return nil
	}
	return out
}

func (x *Exec) hidden() map[string]bool {
	if x.root == nil {
		return nil
	}
	return x.root.Hide
}

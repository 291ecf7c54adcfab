//pkg: build

// Bounded replay driver of P14: traversals visit every node once, with its ancestors, and replace nodes in place.
package build_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	vgen "github.com/bazelbuild/buildtools/zz_vgen"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

var exprType = reflect.TypeOf((*build.Expr)(nil)).Elem()

// children finds the nodes directly below a node by reflection. Type annotations are no part of the traversal.
func children(e build.Expr) []build.Expr {
	var out []build.Expr
	add := func(v reflect.Value) {
		if c, ok := v.Interface().(build.Expr); ok && !v.IsNil() {
			out = append(out, c)
		}
	}
	var fields func(v reflect.Value)
	fields = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f, n := v.Field(i), t.Field(i)
			if n.PkgPath != "" && !n.Anonymous || n.Name == "Comments" || n.Name == "End" {
				continue
			}
			switch {
			case n.Anonymous && f.Kind() == reflect.Struct:
				fields(f)
			case f.Kind() == reflect.Slice && f.Type().Elem().Implements(exprType):
				for j := 0; j < f.Len(); j++ {
					add(f.Index(j))
				}
			case f.Type().Implements(exprType) && (f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr):
				if n.Name != "Type" {
					add(f)
				}
			}
		}
	}
	if _, ok := e.(*build.TypedIdent); ok {
		return nil
	}
	fields(reflect.ValueOf(e).Elem())
	return out
}

type visit struct {
	node  build.Expr
	stack []build.Expr
}

// all lists every node below e with its ancestors; below(e) false: the nodes below e are left out.
func all(e build.Expr, stack []build.Expr, below func(build.Expr) bool) []visit {
	out := []visit{{e, append([]build.Expr{}, stack...)}}
	if below(e) {
		for _, c := range children(e) {
			out = append(out, all(c, append(stack[:len(stack):len(stack)], e), below)...)
		}
	}
	return out
}

func always(build.Expr) bool { return true }

func what(e build.Expr) string {
	if e == nil {
		return "nil"
	}
	start, _ := e.Span()
	return fmt.Sprintf("%T %q at %d:%d", e, build.FormatString(e), start.Line, start.LineRune)
}

func sameNodes(a, b []build.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// compare checks that got are the nodes of want, each once with its ancestors, ancestors first and siblings in order.
func compare(got, want []visit) string {
	at := map[build.Expr]int{}
	for i, g := range got {
		if g.node == nil {
			return fmt.Sprintf("visit %d is of no node", i)
		}
		if j, ok := at[g.node]; ok {
			return fmt.Sprintf("%s is visited twice, as %d and %d", what(g.node), j, i)
		}
		at[g.node] = i
	}
	for _, w := range want {
		i, ok := at[w.node]
		if !ok {
			return fmt.Sprintf("%s is not visited", what(w.node))
		}
		if !sameNodes(got[i].stack, w.stack) {
			return fmt.Sprintf("%s is visited with %d ancestors %v, it has %d", what(w.node), len(got[i].stack), names(got[i].stack), len(w.stack))
		}
		for _, s := range w.stack {
			if at[s] > i {
				return fmt.Sprintf("%s is visited before %s around it", what(w.node), what(s))
			}
		}
	}
	if len(got) != len(want) {
		for _, w := range want {
			delete(at, w.node)
		}
		for n := range at {
			return fmt.Sprintf("%s is visited", what(n))
		}
	}
	// siblings in the order of the source; the two names of a loaded symbol and of a comprehension's body aside
	last := map[build.Expr]build.Position{}
	for _, g := range got {
		if len(g.stack) == 0 {
			continue
		}
		p := g.stack[len(g.stack)-1]
		if _, ok := p.(*build.LoadStmt); ok {
			continue
		}
		start, _ := g.node.Span()
		if l := last[p]; l.Line > start.Line || l.Line == start.Line && l.LineRune > start.LineRune {
			return fmt.Sprintf("%s is visited behind a sibling that follows it", what(g.node))
		}
		last[p] = start
	}
	return ""
}

func names(es []build.Expr) string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprintf("%T", e))
	}
	return strings.Join(out, ", ")
}

func walked(walk func(rec func(e build.Expr, stk []build.Expr))) []visit {
	var got []visit
	walk(func(e build.Expr, stk []build.Expr) { got = append(got, visit{e, append([]build.Expr{}, stk...)}) })
	return got
}

func isStmtParent(e build.Expr) []build.Expr {
	switch e := e.(type) {
	case *build.File:
		return e.Stmt
	case *build.DefStmt:
		return e.Body
	case *build.IfStmt:
		return append(append([]build.Expr{}, e.True...), e.False...)
	case *build.ForStmt:
		return e.Body
	}
	return nil
}

func stmtsOf(e build.Expr, stack []build.Expr, below func(build.Expr) bool) []visit {
	out := []visit{{e, append([]build.Expr{}, stack...)}}
	if below(e) {
		for _, c := range isStmtParent(e) {
			out = append(out, stmtsOf(c, append(stack[:len(stack):len(stack)], e), below)...)
		}
	}
	return out
}

func checkWalks(r *vlib.R, name, text string) {
	f := vgen.Parse(name, text)
	if f == nil {
		return
	}
	r.Case("walk", text, func() string {
		want := all(f, nil, always)
		if m := compare(walked(func(rec func(build.Expr, []build.Expr)) { build.Walk(f, rec) }), want); m != "" {
			return "Walk: " + m
		}
		if m := compare(walked(func(rec func(build.Expr, []build.Expr)) {
			build.WalkPointers(f, func(e *build.Expr, stk []build.Expr) { rec(*e, stk) })
		}), want); m != "" {
			return "WalkPointers: " + m
		}
		if m := compare(walked(func(rec func(build.Expr, []build.Expr)) {
			build.Edit(f, func(e build.Expr, stk []build.Expr) build.Expr { rec(e, stk); return nil })
		}), want); m != "" {
			return "Edit without edits: " + m
		}
		if m := compare(walked(func(rec func(build.Expr, []build.Expr)) {
			build.EditChildren(f, func(e build.Expr, stk []build.Expr) build.Expr { rec(e, stk); return nil })
		}), want[1:]); m != "" {
			return "EditChildren: " + m
		}
		for _, w := range want {
			if m := compare(walked(func(rec func(build.Expr, []build.Expr)) {
				build.WalkOnce(w.node, func(e *build.Expr) {
					if *e != nil { // the operand of a lone star
						rec(*e, nil)
					}
				})
			}), walked(func(rec func(build.Expr, []build.Expr)) {
				for _, c := range children(w.node) {
					rec(c, nil)
				}
			})); m != "" {
				return "WalkOnce of " + what(w.node) + ": " + m
			}
		}
		if m := compare(walked(func(rec func(build.Expr, []build.Expr)) {
			build.WalkStatements(f, func(e build.Expr, stk []build.Expr) error { rec(e, stk); return nil })
		}), stmtsOf(f, nil, always)); m != "" {
			return "WalkStatements: " + m
		}
		return ""
	})
	// stopping
	salt := r.Rand.Intn(1000)
	r.Case("stop", text, func() string {
		n := 0
		stop := map[build.Expr]bool{}
		for _, v := range all(f, nil, always) {
			n++
			if (n*7+salt)%6 == 0 {
				stop[v.node] = true
			}
		}
		below := func(e build.Expr) bool { return !stop[e] }
		verdict := func(e build.Expr) error {
			if stop[e] {
				return &build.StopTraversalError{}
			}
			if salt%2 == 0 {
				return fmt.Errorf("another error")
			}
			return nil
		}
		if m := compare(walked(func(rec func(build.Expr, []build.Expr)) {
			build.WalkInterruptable(f, func(e build.Expr, stk []build.Expr) error { rec(e, stk); return verdict(e) })
		}), all(f, nil, below)); m != "" {
			return "WalkInterruptable: " + m
		}
		if m := compare(walked(func(rec func(build.Expr, []build.Expr)) {
			build.WalkStatements(f, func(e build.Expr, stk []build.Expr) error { rec(e, stk); return verdict(e) })
		}), stmtsOf(f, nil, below)); m != "" {
			return "WalkStatements with stops: " + m
		}
		return ""
	})
	// replacing: some nodes by copies, which must then stand where the nodes stood
	for _, how := range []string{"Edit", "EditChildren", "WalkPointers"} {
		r.Case("replace", text, func() string {
			g := vgen.Parse(name, text)
			before := vgen.Dump(g, vgen.Opt{Comments: true})
			n, kept := 0, 0
			fresh := map[build.Expr]bool{}
			old := map[build.Expr]bool{}
			pick := func(e build.Expr) build.Expr {
				n++
				if _, ok := e.(*build.File); ok || fresh[e] || (n*5+salt)%3 != 0 {
					return nil
				}
				c := e.Copy()
				fresh[c], old[e] = true, true
				kept++
				return c
			}
			switch how {
			case "Edit":
				if res := build.Edit(g, func(e build.Expr, stk []build.Expr) build.Expr { return pick(e) }); res != build.Expr(g) {
					return "Edit returned another node"
				}
			case "EditChildren":
				build.EditChildren(g, func(e build.Expr, stk []build.Expr) build.Expr { return pick(e) })
			case "WalkPointers":
				build.WalkPointers(g, func(e *build.Expr, stk []build.Expr) {
					if c := pick(*e); c != nil {
						*e = c
					}
				})
			}
			now := 0
			for _, v := range all(g, nil, always) {
				if old[v.node] {
					return how + ": " + what(v.node) + " was replaced and is still there"
				}
				if fresh[v.node] {
					now++
				}
			}
			if now != kept {
				return fmt.Sprintf("%s: %d nodes were replaced, %d of the new ones are in the tree", how, kept, now)
			}
			if after := vgen.Dump(g, vgen.Opt{Comments: true}); after != before {
				return fmt.Sprintf("%s: replacing nodes by copies changed the tree from\n%s\nto\n%s", how, before, after)
			}
			return ""
		})
	}
}

func TestVerifWalkSmall(t *testing.T) {
	r := vlib.New(t, "small", "each kind of node once")
	defer r.Done()
	for _, text := range []string{
		"a.b\n", "a[b]\n", "a[b:c:d]\n", "a[:]\n", "a[::b]\n", "a[b:]\n", "a[:b]\n", "(a)\n", "not a\n", "-a\n", "a + b\n", "a = b\n", "a += b\n",
		"lambda: a\n", "lambda a, b = c, *d, **e: f\n", "a(b, c = d, *e, **f)\n", "[a, b]\n", "[]\n", "{a}\n", "{a, b}\n", "(a, b)\n", "()\n", "a, b\n",
		"{}\n", "{a: b, c: d}\n", "[a for b in c if d for e, f in g]\n", "{a: b for c in d if e}\n", "a if b else c\n",
		"load(\"//a:b.bzl\", \"c\", d = \"e\")\n", "load(\"//a:b.bzl\")\n", "def a():\n    pass\n", "def a(b, c = d, *, e, *f, **g):\n    h\n    return i\n",
		"def a():\n    return\n", "if a:\n    b\nelif c:\n    d\nelse:\n    e\n", "for a, b in c:\n    d\n    break\n    continue\n", "\"a\"\n", "1\n", "# a\n\nb\n", "",
	} {
		for i := 0; i < 6; i++ {
			checkWalks(r, "x.bzl", text)
		}
	}
}

func TestVerifWalk(t *testing.T) {
	r := vlib.New(t, "walk", "traversals of generated files")
	r.Budget(20, 300)
	defer r.Done()
	g := vgen.G{R: r.Rand, Wide: true}
	n := vlib.N(6000, 100000)
	for k := 0; k < n && !r.Expired() && !r.TooMany(); k++ {
		if r.Rand.Intn(3) == 0 {
			checkWalks(r, "BUILD", g.BuildFile())
		} else {
			checkWalks(r, "x.bzl", g.BzlFile())
		}
	}
}

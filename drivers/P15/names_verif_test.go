//pkg: bzlenv

// Bounded replay driver of P15: what a name refers to, against scoping rules computed from the tree alone.
package bzlenv_test

import (
	"fmt"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/bzlenv"
	vgen "github.com/bazelbuild/buildtools/zz_vgen"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

type def struct {
	kind bzlenv.ValueKind
	node build.Expr
}

// targets lists the names an assignment to e binds.
func targets(e build.Expr) []string {
	switch e := e.(type) {
	case *build.Ident:
		return []string{e.Name}
	case *build.ParenExpr:
		return targets(e.X)
	case *build.TupleExpr:
		return manyTargets(e.List)
	case *build.ListExpr:
		return manyTargets(e.List)
	}
	return nil
}

func manyTargets(es []build.Expr) []string {
	var out []string
	for _, e := range es {
		out = append(out, targets(e)...)
	}
	return out
}

func bindBody(m map[string]def, stmts []build.Expr) {
	for _, s := range stmts {
		switch s := s.(type) {
		case *build.AssignExpr:
			for _, n := range targets(s.LHS) {
				m[n] = def{bzlenv.Local, s}
			}
		case *build.IfStmt:
			bindBody(m, s.True)
			bindBody(m, s.False)
		case *build.ForStmt:
			for _, n := range targets(s.Vars) {
				m[n] = def{bzlenv.Local, s}
			}
			bindBody(m, s.Body)
		case *build.DefStmt:
			m[s.Name] = def{bzlenv.Function, s}
		}
	}
}

func paramName(p build.Expr) string {
	switch p := p.(type) {
	case *build.Ident:
		return p.Name
	case *build.TypedIdent:
		return p.Ident.Name
	case *build.AssignExpr:
		return paramName(p.LHS)
	case *build.UnaryExpr:
		if p.X != nil {
			return paramName(p.X)
		}
	}
	return ""
}

// bindings of one node, and names whose binding there is left open (statements a file cannot contain at its top).
func bindings(e build.Expr) (m map[string]def, open map[string]bool) {
	m, open = map[string]def{}, map[string]bool{}
	switch e := e.(type) {
	case *build.File:
		for _, s := range e.Stmt {
			switch s := s.(type) {
			case *build.LoadStmt:
				for _, to := range s.To {
					m[to.Name] = def{bzlenv.Imported, to}
				}
			case *build.AssignExpr:
				for _, n := range targets(s.LHS) {
					m[n] = def{bzlenv.Global, s}
				}
			case *build.DefStmt:
				m[s.Name] = def{bzlenv.Function, s}
			case *build.IfStmt, *build.ForStmt:
				o := map[string]def{}
				bindBody(o, []build.Expr{s})
				for n := range o {
					open[n] = true
				}
			}
		}
	case *build.DefStmt:
		for _, p := range e.Params {
			if n := paramName(p); n != "" {
				m[n] = def{bzlenv.Parameter, p}
			}
		}
		bindBody(m, e.Body)
	case *build.Comprehension:
		for _, c := range e.Clauses {
			if f, ok := c.(*build.ForClause); ok {
				for _, n := range targets(f.Vars) {
					m[n] = def{bzlenv.Local, e}
				}
			}
		}
	}
	return
}

func names(r *vlib.R, name, text string) {
	f := vgen.Parse(name, text)
	if f == nil {
		return
	}
	r.Case("names", text, func() string {
		bad := ""
		fail := func(e build.Expr, format string, args ...interface{}) {
			if bad == "" {
				start, _ := e.Span()
				bad = fmt.Sprintf("at %d:%d: ", start.Line, start.LineRune) + fmt.Sprintf(format, args...)
			}
		}
		cache := map[build.Expr]map[string]def{}
		opens := map[build.Expr]map[string]bool{}
		all := map[string]bool{"never": true}
		build.Walk(f, func(e build.Expr, _ []build.Expr) {
			switch e := e.(type) {
			case *build.File, *build.DefStmt, *build.Comprehension:
				m, o := bindings(e)
				cache[e], opens[e] = m, o
				for n := range m {
					all[n] = true
				}
			case *build.Ident:
				all[e.Name] = true
			}
		})
		env := bzlenv.NewEnvironment()
		var stack []build.Expr
		ids := map[int]build.Expr{}
		visits := 0
		var walk func(e *build.Expr, env *bzlenv.Environment)
		walk = func(e *build.Expr, env *bzlenv.Environment) {
			if *e == nil {
				return
			}
			visits++
			if len(env.Stack) != len(stack) {
				fail(*e, "%d nodes around it are reported, there are %d", len(env.Stack), len(stack))
				return
			}
			var fun *build.DefStmt
			for i, s := range stack {
				if env.Stack[i] != s {
					fail(*e, "the nodes around it are wrong")
					return
				}
				if d, ok := s.(*build.DefStmt); ok {
					fun = d
				}
			}
			if env.Function != fun {
				fail(*e, "the function around it is reported as %v, it is %v", funName(env.Function), funName(fun))
			}
			check := func(n string) {
				var want *def
				for i := len(stack) - 1; i >= 0 && want == nil; i-- {
					if opens[stack[i]][n] {
						return
					}
					if d, ok := cache[stack[i]][n]; ok {
						want = &d
					}
				}
				got := env.Get(n)
				switch {
				case (got == nil) != (want == nil):
					fail(*e, "%s: is it defined? %v, should be %v", n, got != nil, want != nil)
				case got != nil && (got.Name != n || got.Kind != want.kind || got.Definition != want.node):
					fail(*e, "%s is the %s defined by %q, should be the %s defined by %q", n, got.Kind, build.FormatString(got.Definition), want.kind, build.FormatString(want.node))
				case got != nil:
					if o, ok := ids[got.ID]; ok && o != got.Definition {
						fail(*e, "%s shares its number with another definition", n)
					}
					ids[got.ID] = got.Definition
				}
			}
			if id, ok := (*e).(*build.Ident); ok {
				check(id.Name)
			} else if visits%5 == 0 {
				for n := range all {
					check(n)
				}
			}
			stack = append(stack, *e)
			bzlenv.WalkOnceWithEnvironment(*e, env, walk)
			stack = stack[:len(stack)-1]
		}
		var root build.Expr = f
		walk(&root, env)
		if bad == "" {
			if len(env.Stack) != 0 || env.Function != nil || len(env.Blocks) != 1 {
				bad = "the environment is not as it was at the start"
			}
			n := 0
			build.Walk(f, func(build.Expr, []build.Expr) { n++ })
			if n != visits {
				bad = fmt.Sprintf("%d nodes are visited, there are %d", visits, n)
			}
		}
		return bad
	})
}

func funName(d *build.DefStmt) string {
	if d == nil {
		return "none"
	}
	return d.Name
}

func TestVerifNamesSmall(t *testing.T) {
	r := vlib.New(t, "small", "each kind of scope and definition")
	defer r.Done()
	for _, text := range []string{
		"a = 1\nb = a\n", "a, (b, [c]) = d\n", "(a) = 1\na\n", "load(\":x.bzl\", \"a\", b = \"c\")\na(b, c)\n", "def f(a, b = c, *d, **e):\n    return a + b + d + e + f\n",
		"def f(*, a):\n    a\n", "def f(a: int, b: int = 1):\n    a\n    b\n", "def f(a):\n    a = 1\n    return a\n", "a = 1\ndef f():\n    if a:\n        a = 2\n    else:\n        b = 3\n    return a, b\n",
		"def f():\n    for a, b in c:\n        d = a\n        for e in d:\n            g = e\n    return a, b, d, e, g\n", "a = [a for a in b for c in a if c]\na\nc\n",
		"a = {b: c for b, c in d}\nb\n", "def f(a):\n    b = [a for a in a]\n    def g(a):\n        c = 1\n        return a, b, c\n    d = 2\n    return g(a), c, d\n",
		"def f():\n    def g():\n        pass\n    x = 1\n    [x for y in z]\n    g()\n    def h():\n        g()\n    h\ng\n", "f = 1\ndef f():\n    pass\nf\n", "def f():\n    pass\nf = 1\nf\n", "a += 1\na.b = 1\na[c] = 1\nb\nc\n",
		"def f(a):\n    a.b = 1\n    c[a] = 2\n    c\n", "x = [[a for b in a] for a in b]\n", "def f():\n    (a), [b] = c\n    for (d) in e:\n        a, b, d\n", "",
	} {
		names(r, "x.bzl", text)
	}
}

func TestVerifNames(t *testing.T) {
	r := vlib.New(t, "names", "names in generated files")
	r.Budget(20, 300)
	defer r.Done()
	g := vgen.G{R: r.Rand, Wide: true}
	n := vlib.N(6000, 100000)
	for k := 0; k < n && !r.Expired() && !r.TooMany(); k++ {
		names(r, "x.bzl", g.BzlFile())
	}
}

//pkg: edit

// Bounded replay driver of P07: load statements against a model.
package edit_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

type sym struct{ to, from string }

// st is a statement: a load (mod set) or something else ('c' comment block, 's' string, 'w' workspace call, 'r' rule, 'x' assignment).
type st struct {
	kind byte
	id   int
	mod  string
	syms []sym
}

func mkStmt(s st) build.Expr {
	id := fmt.Sprintf("id%d", s.id)
	switch s.kind {
	case 'l':
		l := &build.LoadStmt{Module: &build.StringExpr{Value: s.mod}}
		for _, y := range s.syms {
			l.From = append(l.From, &build.Ident{Name: y.from})
			l.To = append(l.To, &build.Ident{Name: y.to})
		}
		return l
	case 'c':
		c := &build.CommentBlock{}
		c.After = []build.Comment{{Token: "# " + id}}
		return c
	case 's':
		return &build.StringExpr{Value: id}
	case 'w':
		return &build.CallExpr{X: &build.Ident{Name: "workspace"}, List: []build.Expr{&build.StringExpr{Value: id}}}
	case 'r':
		return &build.CallExpr{X: &build.Ident{Name: "rule"}, List: []build.Expr{&build.StringExpr{Value: id}}}
	}
	return &build.AssignExpr{LHS: &build.Ident{Name: id}, Op: "=", RHS: &build.Ident{Name: "y"}}
}

func mk(ss []st) []build.Expr {
	var out []build.Expr
	for _, s := range ss {
		out = append(out, mkStmt(s))
	}
	return out
}

func showStmt(e build.Expr) string {
	if l, ok := e.(*build.LoadStmt); ok {
		var xs []string
		for i := range l.To {
			f := "?"
			if i < len(l.From) {
				f = l.From[i].Name
			}
			xs = append(xs, l.To[i].Name+"="+f)
		}
		if len(l.From) != len(l.To) {
			xs = append(xs, fmt.Sprintf("%d from and %d to symbols", len(l.From), len(l.To)))
		}
		return "load(" + l.Module.Value + ": " + strings.Join(xs, " ") + ")"
	}
	if c, ok := e.(*build.CommentBlock); ok {
		return c.After[0].Token
	}
	return strings.TrimSpace(build.FormatString(e))
}

func show(es []build.Expr) string {
	var xs []string
	for _, e := range es {
		xs = append(xs, showStmt(e))
	}
	return strings.Join(xs, "; ")
}

func cp(ss []st) []st {
	out := append([]st{}, ss...)
	for i := range out {
		out[i].syms = append([]sym{}, out[i].syms...)
	}
	return out
}

func has(ys []sym, to string) bool {
	for _, y := range ys {
		if y.to == to {
			return true
		}
	}
	return false
}

// wanted: the symbols of a request, the last name given for an alias wins.
func wanted(req []sym) []sym {
	var out []sym
	for _, y := range req {
		if !has(out, y.to) {
			for _, z := range req {
				if z.to == y.to {
					y.from = z.from
				}
			}
			out = append(out, y)
		}
	}
	return out
}

func modelInsert(ss []st, mod string, req []sym) []st {
	out := cp(ss)
	last := -1
	for i, s := range out {
		if s.kind == 'l' && s.mod == mod {
			last = i
		}
	}
	if last >= 0 {
		for _, y := range wanted(req) {
			loaded := false
			for _, s := range ss {
				loaded = loaded || s.kind == 'l' && s.mod == mod && has(s.syms, y.to)
			}
			if !loaded {
				out[last].syms = append(out[last].syms, y)
			}
		}
		return out
	}
	at := 0
	for at < len(out) && (out[at].kind == 'c' || out[at].kind == 's' && at == 0 || out[at].kind == 'w') {
		at++
	}
	res := append([]st{}, out[:at]...)
	res = append(res, st{kind: 'l', mod: mod, syms: append([]sym{}, req...)})
	return append(res, out[at:]...)
}

func modelReplace(ss []st, mod string, req []sym) []st {
	var out []st
	for _, s := range cp(ss) {
		if s.kind == 'l' {
			var keep []sym
			for _, y := range s.syms {
				if !has(req, y.to) {
					keep = append(keep, y)
				}
			}
			if len(keep) == 0 {
				continue
			}
			s.syms = keep
		}
		out = append(out, s)
	}
	return modelInsert(out, mod, req)
}

func split(req []sym) (from, to []string) {
	for _, y := range req {
		from, to = append(from, y.from), append(to, y.to)
	}
	return
}

// same: the statements of the first list that are no loads are, in the same order, those of the second.
func same(a, b []build.Expr) bool {
	var x, y []build.Expr
	for _, e := range a {
		if _, ok := e.(*build.LoadStmt); !ok {
			x = append(x, e)
		}
	}
	for _, e := range b {
		if _, ok := e.(*build.LoadStmt); !ok {
			y = append(y, e)
		}
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func check(ss []st, mod string, req []sym) string {
	from, to := split(req)
	text := fmt.Sprintf("%s, %v", mod, req)
	base := show(mk(ss))
	l := edit.NewLoad(mod, from, to)
	if g, w := showStmt(l), showStmt(mkStmt(st{kind: 'l', mod: mod, syms: req})); g != w {
		return fmt.Sprintf("NewLoad(%s) = %s, want %s", text, g, w)
	}
	for _, s := range ss {
		if s.kind != 'l' {
			continue
		}
		l := mkStmt(s).(*build.LoadStmt)
		b := edit.AppendToLoad(l, from, to)
		m := modelInsert([]st{s}, s.mod, req)
		if g, w := showStmt(l), showStmt(mkStmt(m[0])); g != w || b != (len(m[0].syms) > len(s.syms)) {
			return fmt.Sprintf("AppendToLoad(%s, %v) = %v and leaves %s, want %s", showStmt(mkStmt(s)), req, b, g, w)
		}
	}
	in := mk(ss)
	out := edit.InsertLoad(in, mod, from, to)
	if g, w := show(out), show(mk(modelInsert(ss, mod, req))); g != w || !same(in, out) {
		return fmt.Sprintf("InsertLoad(%s; %s) = %s, want %s", base, text, g, w)
	}
	in = mk(ss)
	out = edit.ReplaceLoad(in, mod, from, to)
	if g, w := show(out), show(mk(modelReplace(ss, mod, req))); g != w || !same(in, out) {
		return fmt.Sprintf("ReplaceLoad(%s; %s) = %s, want %s", base, text, g, w)
	}
	// the commands, twice with the same arguments on two files
	var args []string
	for _, y := range req {
		if y.to == y.from && len(args)%2 == 0 {
			args = append(args, y.to)
		} else {
			args = append(args, y.to+"="+y.from)
		}
	}
	args = append([]string{mod}, args...)
	was := strings.Join(args, " ")
	for _, c := range []string{"new_load", "replace_load"} {
		m := modelInsert(ss, mod, req)
		if c == "replace_load" {
			m = modelReplace(ss, mod, req)
		}
		for i := 0; i < 2; i++ {
			f := &build.File{Stmt: mk(ss), Type: build.TypeBuild}
			g, err := edit.AllCommands[c].Fn(edit.NewOpts(), edit.CmdEnvironment{File: f, Args: args})
			if err != nil {
				return fmt.Sprintf("%s %s: error %v", c, was, err)
			}
			if g, w := show(g.Stmt), show(mk(m)); g != w {
				return fmt.Sprintf("%s %s on file %d (%s) gives %s, want %s", c, was, i+1, base, g, w)
			}
		}
	}
	return ""
}

func TestVerifLoads(t *testing.T) {
	r := vlib.New(t, "loads", "creating, extending, inserting and replacing loads against a model")
	defer r.Done()
	names := []string{"a", "b", "c", "d", "e"}
	symsOf := func(max int, uniq bool) []sym {
		var out []sym
		for k := r.Rand.Intn(max + 1); k > 0; k-- {
			y := sym{r.Pick(names...), ""}
			y.from = y.to
			if r.Rand.Intn(3) == 0 {
				y.from = r.Pick("x", "y", "a")
			}
			if !uniq || !has(out, y.to) {
				out = append(out, y)
			}
		}
		return out
	}
	// every subset of a load's symbols replaced
	for mask := 0; mask < 1<<5; mask++ {
		var all, req []sym
		for i, n := range names {
			all = append(all, sym{n, n})
			if mask>>i&1 == 1 {
				req = append(req, sym{n, n})
			}
		}
		for _, mod := range []string{":m.bzl", ":o.bzl"} {
			ss := []st{{kind: 'c', id: 1}, {kind: 'l', mod: ":m.bzl", syms: all}, {kind: 'r', id: 2}}
			r.Case("loads", fmt.Sprintf("%s <- %s %v", show(mk(ss)), mod, req), func() string { return check(ss, mod, req) })
		}
	}
	n := vlib.N(12000, 400000)
	for i := 0; i < n && !r.Expired() && !r.TooMany(); i++ {
		var ss []st
		for k, n := 0, r.Rand.Intn(6); k < n; k++ {
			s := st{kind: "lllcswrx"[r.Rand.Intn(8)], id: k}
			if s.kind == 'l' {
				s.mod, s.syms = r.Pick(":m.bzl", ":o.bzl", "//p:m.bzl"), symsOf(5, r.Rand.Intn(4) > 0)
			}
			ss = append(ss, s)
		}
		mod, req := r.Pick(":m.bzl", ":o.bzl", ":new.bzl"), symsOf(4, r.Rand.Intn(4) > 0)
		r.Case("loads", fmt.Sprintf("%s <- %s %v", show(mk(ss)), mod, req), func() string { return check(ss, mod, req) })
	}
}

//pkg: build

// Bounded replay driver of P09: what formatting sorts, against independent models.
package build_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/labels"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

func coms(cs []build.Comment) string {
	var xs []string
	for _, c := range cs {
		xs = append(xs, c.Token)
	}
	return strings.Join(xs, ",")
}

// elem is an element of a list: a string or something else with an identity.
type elem struct {
	str    bool
	val    string
	before string // comment tokens, comma separated
	suffix string
}

func mkElem(e elem) build.Expr {
	var x build.Expr
	if e.str {
		x = &build.StringExpr{Value: e.val}
	} else {
		x = &build.Ident{Name: e.val}
	}
	for _, t := range strings.Split(e.before, ",") {
		if t != "" {
			x.Comment().Before = append(x.Comment().Before, build.Comment{Token: t})
		}
	}
	if e.suffix != "" {
		x.Comment().Suffix = []build.Comment{{Token: e.suffix}}
	}
	return x
}

func elemOf(x build.Expr) elem {
	e := elem{before: coms(x.Comment().Before), suffix: coms(x.Comment().Suffix)}
	switch x := x.(type) {
	case *build.StringExpr:
		e.str, e.val = true, x.Value
	case *build.Ident:
		e.val = x.Name
	default:
		e.val = build.FormatString(x)
	}
	return e
}

func showElem(e elem) string {
	s := e.val
	if e.str {
		s = `"` + s + `"`
	}
	if e.before != "" {
		s = "{" + e.before + "}" + s
	}
	if e.suffix != "" {
		s += "{" + e.suffix + "}"
	}
	return s
}

func showElems(es []elem) string {
	var xs []string
	for _, e := range es {
		xs = append(xs, showElem(e))
	}
	return strings.Join(xs, " ")
}

func elems(xs []build.Expr) []elem {
	var out []elem
	for _, x := range xs {
		out = append(out, elemOf(x))
	}
	return out
}

func phase(s string) int {
	switch {
	case strings.HasPrefix(s, ":"):
		return 1
	case strings.HasPrefix(s, "//"):
		return 2
	case strings.HasPrefix(s, "@"):
		return 3
	}
	return 0
}

// strLess is the documented order of strings.
func strLess(a, b string) bool {
	if p, q := phase(a), phase(b); p != q {
		return p < q
	}
	x, y := strings.Split(strings.ReplaceAll(a, ":", "."), "."), strings.Split(strings.ReplaceAll(b, ":", "."), ".")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	return a < b
}

// modelSort sorts each chunk; a string that repeats one of its chunk goes.
func modelSort(es []elem) []elem {
	var out []elem
	for i := 0; i < len(es); {
		if !es[i].str {
			out = append(out, es[i])
			i++
			continue
		}
		j := i + 1
		for j < len(es) && es[j].str && es[j].before == "" {
			j++
		}
		chunk := append([]elem{}, es[i:j]...)
		before := chunk[0].before
		chunk[0].before = ""
		sort.SliceStable(chunk, func(a, b int) bool { return strLess(chunk[a].val, chunk[b].val) })
		n := 0
		for k := range chunk {
			if k == 0 || chunk[k].val != chunk[n-1].val {
				chunk[n] = chunk[k]
				n++
			}
		}
		chunk = chunk[:n]
		chunk[0].before = before
		out = append(out, chunk...)
		i = j
	}
	return out
}

// modelDedup keeps the order; returns the comments left for the end of the list.
func modelDedup(es []elem) ([]elem, string) {
	var out []elem
	seen := map[string]bool{}
	pend := ""
	join := func(a, b string) string { return strings.Trim(a+","+b, ",") }
	for _, e := range es {
		if !e.str {
			out = append(out, e)
			continue
		}
		if seen[e.val] {
			pend = join(pend, e.before)
			continue
		}
		seen[e.val] = true
		e.before = join(pend, e.before)
		pend = ""
		out = append(out, e)
	}
	return out, pend
}

func same(a, b []elem) bool { return showElems(a) == showElems(b) }

var words = []string{"a", "b", "c", "a:b", "a.b", "a.b.c", "ab", "a-b", "a_b", ":a", ":b", ":a.b", "//a", "//a:b", "//a/b:c", "//b", "@a//b", "@b", "", "A", ".", ":", "//", "a.", "a..b", "$(x)", "é"}

func randElems(r *vlib.R, max int) []elem {
	var es []elem
	n := r.Rand.Intn(max + 1)
	narrow := r.Rand.Intn(3) == 0
	for i := 0; i < n; i++ {
		e := elem{str: r.Rand.Intn(7) != 0}
		if !e.str {
			e.val = fmt.Sprintf("v%d", i)
		} else if narrow {
			e.val = r.Pick("b", "a", ":a", "//a")
		} else {
			e.val = r.Pick(words...)
		}
		if r.Rand.Intn(12) == 0 {
			e.suffix = fmt.Sprintf("# s%d", i)
		}
		es = append(es, e)
	}
	return es
}

func addBefore(r *vlib.R, es []elem) {
	for i := range es {
		if r.Rand.Intn(4) == 0 {
			es[i].before = fmt.Sprintf("# b%d", i)
			if r.Rand.Intn(4) == 0 {
				es[i].before += fmt.Sprintf(",# bb%d", i)
			}
		}
	}
}

// expectList is what sorting does to one list.
func expectList(es []elem, own, endCom string) (out []elem, end string) {
	end = endCom
	if len(es) < 2 {
		return es, end
	}
	low := strings.ToLower
	if strings.Contains(low(es[0].before+es[0].suffix), "do not sort") {
		out, p := modelDedup(es)
		return out, strings.Trim(p+","+end, ",")
	}
	forced := strings.Contains(low(own), "keep sorted") || strings.Contains(low(es[0].before+es[0].suffix), "keep sorted")
	line := own != "" || end != ""
	for _, e := range es {
		line = line || e.before != ""
	}
	if !forced && line {
		out, p := modelDedup(es)
		return out, strings.Trim(p+","+end, ",")
	}
	return modelSort(es), end
}

func mkList(es []elem, own, end string) *build.ListExpr {
	l := &build.ListExpr{}
	for _, e := range es {
		l.List = append(l.List, mkElem(e))
	}
	if own != "" {
		l.Comment().Before = []build.Comment{{Token: own}}
	}
	if end != "" {
		l.End.Before = []build.Comment{{Token: end}}
	}
	return l
}

func checkList(es []elem, own, end string) string {
	l := mkList(es, own, end)
	build.SortStringList(l)
	want, wend := expectList(es, own, end)
	if !same(elems(l.List), want) {
		return fmt.Sprintf("sorted to  %s\nwant %s", showElems(elems(l.List)), showElems(want))
	}
	if g := coms(l.End.Before); g != wend {
		return fmt.Sprintf("comments at the end are %q, want %q", g, wend)
	}
	if strings.Contains(own, "keep") {
		build.SortStringList(l)
		if !same(elems(l.List), want) {
			return fmt.Sprintf("sorting again gives %s, once %s", showElems(elems(l.List)), showElems(want))
		}
	}
	return ""
}

func TestVerifStrings(t *testing.T) {
	r := vlib.New(t, "strings", "string lists in chunks against a model of the documented order")
	defer r.Done()
	// every list of up to four elements over a small alphabet, with comments that cut it into chunks
	small := []elem{{str: true, val: "b"}, {str: true, val: "a"}, {str: true, val: ":a"}, {str: true, val: "b", before: "# x"}, {str: true, val: "a", before: "# y"}, {val: "V"}}
	var rec func(es []elem)
	rec = func(es []elem) {
		for _, own := range []string{"", "# keep sorted"} {
			r.Case("lists", own+" "+showElems(es), func() string { return checkList(es, own, "") })
		}
		if len(es) < vlib.N(4, 5) {
			for _, e := range small {
				rec(append(append([]elem{}, es...), e))
			}
		}
	}
	rec(nil)
	for i := 0; i < vlib.N(20000, 300000) && !r.Expired() && !r.TooMany(); i++ {
		es := randElems(r, r.Rand.Intn(20)+1)
		own, end := "", ""
		switch r.Rand.Intn(4) {
		case 0:
			own = "# Keep sorted"
			addBefore(r, es)
		case 1:
			addBefore(r, es)
			if len(es) > 0 {
				es[0].before = r.Pick("# do not sort", "# keep sorted", "# foo", "")
			}
		case 2:
			if r.Rand.Intn(4) == 0 {
				own = "# hello"
			}
		}
		if r.Rand.Intn(6) == 0 {
			end = "# the end"
		}
		r.Case("lists", own+" "+showElems(es)+" "+end, func() string { return checkList(es, own, end) })
	}
}

func TestVerifUseRepo(t *testing.T) {
	r := vlib.New(t, "userepo", "use_repo calls against the model of lists")
	defer r.Done()
	for i := 0; i < vlib.N(6000, 60000) && !r.Expired() && !r.TooMany(); i++ {
		es := append([]elem{{val: "proxy"}}, randElems(r, 8)...)
		if r.Rand.Intn(2) == 0 {
			addBefore(r, es)
		}
		if r.Rand.Intn(4) == 0 {
			es[r.Rand.Intn(len(es))].before = "# do not sort"
		}
		name := r.Pick("use_repo", "use_repo", "use_repo", "other")
		own := r.Pick("", "", "", "# do not sort")
		r.Case("use_repo", own+" "+name+"("+showElems(es)+")", func() string {
			c := &build.CallExpr{X: &build.Ident{Name: name}}
			for _, e := range es {
				c.List = append(c.List, mkElem(e))
			}
			if own != "" {
				c.Comment().Before = []build.Comment{{Token: own}}
			}
			f := &build.File{Type: build.TypeModule, Stmt: []build.Expr{c}}
			(&build.Rewriter{RewriteSet: []string{"useRepoPositionalsSort"}}).Rewrite(f)
			want, end := es, ""
			if name == "use_repo" && len(es) >= 3 {
				if strings.Contains(own+es[0].before+es[1].before, "do not sort") {
					want, end = modelDedup(es)
				} else {
					want = modelSort(es)
				}
			}
			if !same(elems(c.List), want) {
				return fmt.Sprintf("sorted to %s\nwant %s", showElems(elems(c.List)), showElems(want))
			}
			if g := coms(c.End.Before); g != end {
				return fmt.Sprintf("comments at the end are %q, want %q", g, end)
			}
			return ""
		})
	}
}

func TestVerifCallArgs(t *testing.T) {
	r := vlib.New(t, "callargs", "arguments of calls: the keyword arguments at the end in the order of priority, name, place")
	defer r.Done()
	names := []string{"name", "srcs", "deps", "visibility", "a", "b", "c", "zz"}
	prio := map[string]int{"name": -99, "srcs": -90, "deps": 4, "visibility": 10, "cc.zz": -100, "cc.srcs": 50, "a": 0}
	var run func(kind string, args []string, leave bool, nested bool)
	run = func(kind string, args []string, leave bool, nested bool) {
		in := kind + "(" + strings.Join(args, ", ") + ")"
		if leave {
			in += " # buildifier: leave-alone"
		}
		r.Case("arguments", in, func() string {
			var rule build.Expr = &build.Ident{Name: kind}
			if kind == "" {
				rule = &build.CallExpr{X: &build.Ident{Name: "f"}}
			}
			c := &build.CallExpr{X: rule}
			for i, a := range args {
				val := &build.LiteralExpr{Token: fmt.Sprint(i)}
				switch {
				case a == "*" || a == "**":
					c.List = append(c.List, &build.UnaryExpr{Op: a, X: val})
				case a == "+":
					c.List = append(c.List, val)
				default:
					c.List = append(c.List, &build.AssignExpr{LHS: &build.Ident{Name: a}, Op: "=", RHS: val})
				}
			}
			if leave {
				c.Comment().Suffix = []build.Comment{{Token: "# buildifier: leave-alone"}}
			}
			var top build.Expr = c
			if nested {
				top = &build.AssignExpr{LHS: &build.Ident{Name: "x"}, Op: "=", RHS: &build.ListExpr{List: []build.Expr{c}}}
			}
			type arg struct {
				p    int
				name string
				e    build.Expr
			}
			var want []arg
			start := len(args)
			for start > 0 && !strings.Contains("*+**", args[start-1]) {
				start--
			}
			for i, a := range args {
				p, ok := prio[kind+"."+a]
				if !ok {
					p = prio[a]
				}
				want = append(want, arg{p, a, c.List[i]})
			}
			if !leave {
				tail := want[start:]
				sort.SliceStable(tail, func(i, j int) bool {
					if tail[i].p != tail[j].p {
						return tail[i].p < tail[j].p
					}
					return tail[i].name < tail[j].name
				})
			}
			f := &build.File{Type: build.TypeBuild, Stmt: []build.Expr{top}}
			(&build.Rewriter{RewriteSet: []string{"callsort"}, NamePriority: prio}).Rewrite(f)
			if len(c.List) != len(want) {
				return fmt.Sprintf("%d arguments remain of %d", len(c.List), len(want))
			}
			for i := range want {
				if c.List[i] != want[i].e {
					return fmt.Sprintf("argument %d is %s, want %s", i, build.FormatString(c.List[i]), build.FormatString(want[i].e))
				}
			}
			return ""
		})
	}
	for i := 0; i < vlib.N(10000, 100000) && !r.Expired() && !r.TooMany(); i++ {
		var args []string
		n := r.Rand.Intn(6)
		if r.Rand.Intn(4) == 0 {
			n = 12 + r.Rand.Intn(20)
		}
		for k := 0; k < n; k++ {
			if r.Rand.Intn(8) == 0 && k < 5 {
				args = append(args, r.Pick("*", "**", "+"))
			} else if r.Rand.Intn(3) == 0 {
				args = append(args, r.Pick("name", "srcs"))
			} else {
				args = append(args, r.Pick(names...))
			}
		}
		run(r.Pick("cc", "java", ""), args, r.Rand.Intn(10) == 0, r.Rand.Intn(4) == 0)
	}
}

// lst is a statement of the load tests.
type lst struct {
	kind byte // l load, s string, c comment, w workspace call, r other
	id   int
	mod  string
	to   []string
	from []string
	com  string
}

func (s lst) show() string {
	x := fmt.Sprintf("%c%d", s.kind, s.id)
	if s.kind == 'l' {
		x += "<" + s.mod
		for i := range s.to {
			x += " " + s.to[i] + "=" + s.from[i]
		}
		x += ">"
	}
	if s.com != "" {
		x += "{" + s.com + "}"
	}
	return x
}

func mkLst(s lst) build.Expr {
	id := fmt.Sprintf("id%d", s.id)
	var e build.Expr
	switch s.kind {
	case 'l':
		l := &build.LoadStmt{Module: &build.StringExpr{Value: s.mod}}
		for i := range s.to {
			l.To = append(l.To, &build.Ident{Name: s.to[i]})
			l.From = append(l.From, &build.Ident{Name: s.from[i]})
		}
		l.Comment().Suffix = []build.Comment{{Token: "# suffix " + id}}
		l.Rparen.Before = []build.Comment{{Token: "# end " + id}}
		l.Module.Comment().Before = []build.Comment{{Token: "# module " + id}}
		l.Module.Comment().Suffix = []build.Comment{{Token: "# file " + id}}
		e = l
	case 's':
		e = &build.StringExpr{Value: id}
	case 'c':
		e = &build.CommentBlock{}
	case 'w':
		e = &build.CallExpr{X: &build.Ident{Name: "workspace"}, List: []build.Expr{&build.Ident{Name: id}}}
	case 'n':
		return nil
	default:
		e = &build.CallExpr{X: &build.Ident{Name: "rule"}, List: []build.Expr{&build.Ident{Name: id}}}
	}
	if s.com != "" {
		e.Comment().Before = []build.Comment{{Token: s.com}}
	}
	return e
}

func pathLess(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if p, q := strings.ToLower(x[i]), strings.ToLower(y[i]); p != q {
			return p < q
		}
	}
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	return a < b
}

func modLess(a, b string) bool {
	ra, rb := strings.HasPrefix(a, "@"), strings.HasPrefix(b, "@")
	if ra != rb {
		return ra
	}
	// relative labels after all packages
	x, y := labels.ParseRelative(a, "\x7f"), labels.ParseRelative(b, "\x7f")
	if x.Repository != y.Repository {
		return x.Repository < y.Repository
	}
	if (x.Package == "") != (y.Package == "") {
		return x.Package == ""
	}
	if x.Package != y.Package {
		return pathLess(x.Package, y.Package)
	}
	return pathLess(x.Target, y.Target)
}

func symbols(es []build.Expr, dedup bool) []string {
	var xs []string
	seen := map[string]bool{}
	for _, e := range es {
		if l, ok := e.(*build.LoadStmt); ok {
			if len(l.From) != len(l.To) {
				xs = append(xs, fmt.Sprintf("%s: %d from, %d to", l.Module.Value, len(l.From), len(l.To)))
				continue
			}
			for i := range l.To {
				s := l.Module.Value + " " + l.To[i].Name + "=" + l.From[i].Name
				if !dedup || !seen[s] {
					xs = append(xs, s)
				}
				seen[s] = true
			}
		}
	}
	sort.Strings(xs)
	return xs
}

func loadComs(es []build.Expr) []string {
	var xs []string
	for _, e := range es {
		if l, ok := e.(*build.LoadStmt); ok {
			for _, c := range []*build.Comments{l.Comment(), l.Module.Comment(), l.Rparen.Comment()} {
				for _, cs := range [][]build.Comment{c.Before, c.Suffix, c.After} {
					for _, x := range cs {
						xs = append(xs, x.Token)
					}
				}
			}
		}
	}
	sort.Strings(xs)
	return xs
}

func apply(f *build.File, names ...string) {
	for _, n := range names {
		(&build.Rewriter{RewriteSet: []string{n}}).Rewrite(f)
	}
}

func checkLoads(ss []lst, typ build.FileType) string {
	file := func() *build.File {
		f := &build.File{Type: typ}
		for _, s := range ss {
			f.Stmt = append(f.Stmt, mkLst(s))
		}
		return f
	}
	ids := map[build.Expr]string{}
	mark := func(f *build.File) {
		for i, e := range f.Stmt {
			if e != nil {
				ids[e] = ss[i].show()
			}
		}
	}
	line := func(es []build.Expr) string {
		var xs []string
		for _, e := range es {
			if e == nil {
				xs = append(xs, "nil")
			} else {
				xs = append(xs, ids[e])
			}
		}
		return strings.Join(xs, "; ")
	}
	anyCom := func(text string) bool {
		for _, s := range ss {
			if strings.Contains(s.com, text) {
				return true
			}
		}
		return false
	}

	// loads move to the top
	f := file()
	mark(f)
	old := append([]build.Expr{}, f.Stmt...)
	apply(f, "loadTop")
	want := append([]build.Expr{}, old...)
	if typ != build.TypeWorkspace && !anyCom("disable=load-on-top") {
		at := 0
		for ; at < len(ss) && strings.Contains("scwnl", string(ss[at].kind)); at++ {
		}
		var moved, rest []build.Expr
		for i := at; i < len(ss); i++ {
			if ss[i].kind == 'l' {
				moved = append(moved, old[i])
			} else {
				rest = append(rest, old[i])
			}
		}
		want = append(append(append([]build.Expr{}, old[:at]...), moved...), rest...)
	}
	if g, w := line(f.Stmt), line(want); g != w {
		return fmt.Sprintf("moving loads on top gives %s\nwant %s", g, w)
	}

	// loads of the same file are merged
	f = file()
	mark(f)
	old = append([]build.Expr{}, f.Stmt...)
	before, beforeComs := symbols(f.Stmt, false), loadComs(f.Stmt)
	apply(f, "sameOriginLoad")
	if len(f.Stmt) != len(old) {
		return fmt.Sprintf("merging loads leaves %d of %d statements", len(f.Stmt), len(old))
	}
	if g := symbols(f.Stmt, false); strings.Join(g, "|") != strings.Join(before, "|") {
		return fmt.Sprintf("merging loads leaves the symbols %q, were %q", g, before)
	}
	if g := loadComs(f.Stmt); strings.Join(g, "|") != strings.Join(beforeComs, "|") {
		return fmt.Sprintf("merging loads leaves the comments %q, were %q", g, beforeComs)
	}
	first := map[string]int{}
	var order []string
	for i, e := range f.Stmt {
		s := ss[i]
		if s.kind != 'l' {
			if e != old[i] {
				return "merging loads changes a statement that is no load: " + line(f.Stmt)
			}
			continue
		}
		at, ok := first[s.mod]
		if !ok {
			first[s.mod] = i
		}
		kept := !ok || strings.Contains(s.com, "disable=same-origin-load") || strings.Contains(ss[at].com, "disable=same-origin-load")
		// a merged comment can switch merging off for the loads that follow
		if kept != (e != nil) {
			return fmt.Sprintf("merging loads: statement %d (%s) kept %v, want %v", i, s.show(), e != nil, kept)
		}
		if e != nil && e != old[i] {
			return fmt.Sprintf("merging loads: statement %d is another one", i)
		}
		if !kept {
			for k := range s.to {
				order = append(order, fmt.Sprintf("%d %s", at, s.to[k]))
			}
		}
	}
	_ = order
	for mod, at := range first {
		l := f.Stmt[at].(*build.LoadStmt)
		var w []string
		for i, s := range ss {
			if s.kind == 'l' && s.mod == mod && (i == at || f.Stmt[i] == nil) {
				for k := range s.to {
					w = append(w, s.to[k]+"="+s.from[k])
				}
			}
		}
		var g []string
		for k := range l.To {
			g = append(g, l.To[k].Name+"="+l.From[k].Name)
		}
		if strings.Join(g, " ") != strings.Join(w, " ") {
			return fmt.Sprintf("merging loads of %s gives %q, want %q", mod, g, w)
		}
	}

	// adjacent loads are sorted
	f = file()
	mark(f)
	old = append([]build.Expr{}, f.Stmt...)
	apply(f, "sortLoadStatements")
	want = append([]build.Expr{}, old...)
	if !anyCom("disable=out-of-order-load") {
		var idx []int
		flush := func() {
			var ls []build.Expr
			for _, i := range idx {
				ls = append(ls, old[i])
			}
			sort.SliceStable(ls, func(a, b int) bool {
				return modLess(ls[a].(*build.LoadStmt).Module.Value, ls[b].(*build.LoadStmt).Module.Value)
			})
			for k, i := range idx {
				want[i] = ls[k]
			}
			idx = nil
		}
		for i, s := range ss {
			if s.kind == 'l' {
				idx = append(idx, i)
			} else if s.kind != 'n' {
				flush()
			}
		}
		flush()
	}
	if g, w := line(f.Stmt), line(want); g != w {
		return fmt.Sprintf("sorting loads gives %s\nwant %s", g, w)
	}

	// the symbols of a load are sorted
	f = file()
	apply(f, "loadsort")
	for i, s := range ss {
		if s.kind != 'l' {
			continue
		}
		l := f.Stmt[i].(*build.LoadStmt)
		type sy struct{ to, from string }
		var ys []sy
		for k := range s.to {
			ys = append(ys, sy{s.to[k], s.from[k]})
		}
		sort.SliceStable(ys, func(a, b int) bool {
			if ea, eb := ys[a].to == ys[a].from, ys[b].to == ys[b].from; ea != eb {
				return ea
			}
			return ys[a].to < ys[b].to
		})
		var w, g []string
		for k, y := range ys {
			if k+1 < len(ys) && ys[k+1].to == y.to {
				continue // the later one counts
			}
			w = append(w, y.to+"="+y.from)
		}
		for k := range l.To {
			g = append(g, l.To[k].Name+"="+l.From[k].Name)
		}
		if strings.Join(g, " ") != strings.Join(w, " ") {
			return fmt.Sprintf("sorting the symbols of %s gives %q, want %q", s.show(), g, w)
		}
	}

	// all of them: the same symbols under the same names, and a second time changes nothing
	f = file()
	all := []string{"loadTop", "sameOriginLoad", "sortLoadStatements", "loadsort"}
	dup := map[string]bool{}
	for _, s := range ss {
		for _, to := range s.to {
			if dup[to] {
				return "" // loads one name twice: not a valid file
			}
			dup[to] = true
		}
	}
	apply(f, all...)
	if g := symbols(f.Stmt, false); strings.Join(g, "|") != strings.Join(before, "|") {
		return fmt.Sprintf("all rewrites of loads leave the symbols %q, were %q", g, before)
	}
	var kept []build.Expr
	for _, e := range f.Stmt {
		if e != nil {
			kept = append(kept, e)
		}
	}
	f.Stmt = kept
	text := func() string {
		var xs []string
		for _, e := range f.Stmt {
			if l, ok := e.(*build.LoadStmt); ok {
				x := "load " + l.Module.Value
				for k := range l.To {
					x += " " + l.To[k].Name + "=" + l.From[k].Name
				}
				xs = append(xs, x)
			} else {
				xs = append(xs, ids[e]+build.FormatString(e))
			}
		}
		return strings.Join(xs, "; ")
	}
	once := text()
	apply(f, all...)
	if g := text(); g != once {
		return fmt.Sprintf("again gives %s, once %s", g, once)
	}
	return ""
}

func TestVerifLoadOrder(t *testing.T) {
	r := vlib.New(t, "loadorder", "files with loads: moved to the top, merged, sorted, their symbols sorted, against models")
	defer r.Done()
	mods := []string{":a.bzl", ":b.bzl", "a.bzl", "//a:a.bzl", "//a:A.bzl", "//A:a.bzl", "//a/b:a.bzl", "//a-b:a.bzl", "//:a.bzl", "//:b/c.bzl", "@r//a:a.bzl", "@r//:a.bzl", "@q//a:a.bzl", "@@c//a:a.bzl", "//a:a/b.bzl", "//a:a-b.bzl", "//a/B:a.bzl", "//b", "@r"}
	names := []string{"x", "y", "z", "X", "x1", "_p", "w", "v", "u", "t", "s", "r", "q", "p", "o", "n"}
	for i := 0; i < vlib.N(20000, 250000) && !r.Expired() && !r.TooMany(); i++ {
		var ss []lst
		n := r.Rand.Intn(6)
		if r.Rand.Intn(5) == 0 {
			n = 10 + r.Rand.Intn(12)
		}
		few := r.Rand.Intn(2) == 0
		loadsOnly := r.Rand.Intn(4) == 0
		for k := 0; k < n; k++ {
			s := lst{id: k, kind: r.Pick("l", "l", "l", "r", "s", "c", "w", "n")[0]}
			if loadsOnly {
				s.kind = 'l'
			}
			if s.kind == 'l' {
				s.mod = r.Pick(mods...)
				if few {
					s.mod = r.Pick(":a.bzl", "//a:a.bzl", "//a:A.bzl", "@r//a:a.bzl")
				}
				m := 1 + r.Rand.Intn(3)
				if r.Rand.Intn(8) == 0 {
					m = 14 + r.Rand.Intn(10)
				}
				for ; m > 0; m-- {
					to := r.Pick(names...)
					if r.Rand.Intn(2) == 0 {
						to += fmt.Sprint(k)
					}
					from := to
					if r.Rand.Intn(3) == 0 {
						from = r.Pick(names...)
					}
					s.to, s.from = append(s.to, to), append(s.from, from)
				}
			}
			if r.Rand.Intn(5) == 0 && s.kind != 'n' {
				s.com = fmt.Sprintf("# c%d", k)
			}
			if r.Rand.Intn(40) == 0 && s.kind != 'n' {
				s.com = "# buildifier: disable=" + r.Pick("load-on-top", "same-origin-load", "out-of-order-load")
				if s.kind != 'l' && strings.Contains(s.com, "same") {
					s.com = ""
				}
			}
			ss = append(ss, s)
		}
		typ := []build.FileType{build.TypeBuild, build.TypeBzl, build.TypeDefault, build.TypeWorkspace, build.TypeModule}[r.Rand.Intn(5)]
		var xs []string
		for _, s := range ss {
			xs = append(xs, s.show())
		}
		r.Case("loads", fmt.Sprintf("type %d: %s", typ, strings.Join(xs, "; ")), func() string { return checkLoads(ss, typ) })
	}
	// every order of three modules
	for _, a := range mods {
		for _, b := range mods {
			for _, c := range mods {
				ss := []lst{{kind: 'l', id: 0, mod: a, to: []string{"x"}, from: []string{"x"}}, {kind: 'l', id: 1, mod: b, to: []string{"y"}, from: []string{"y"}}, {kind: 'l', id: 2, mod: c, to: []string{"z"}, from: []string{"z"}}}
				r.Case("loads", a+" "+b+" "+c, func() string { return checkLoads(ss, build.TypeBzl) })
			}
		}
	}
}

// TestVerifWhere: which lists are sorted at all.
func TestVerifWhere(t *testing.T) {
	r := vlib.New(t, "where", "which lists of a file are sorted: by attribute, by rule and attribute, by comment")
	defer r.Done()
	w := &build.Rewriter{
		RewriteSet:        []string{"listsort"},
		IsSortableListArg: map[string]bool{"deps": true, "srcs": true},
		SortableDenylist:  map[string]bool{"cc.srcs": true},
		SortableAllowlist: map[string]bool{"cc.data": true},
	}
	for i := 0; i < vlib.N(10000, 80000) && !r.Expired() && !r.TooMany(); i++ {
		kind, attr := r.Pick("cc", "java"), r.Pick("deps", "srcs", "data", "copts")
		typ := []build.FileType{build.TypeBuild, build.TypeBzl, build.TypeDefault, build.TypeWorkspace, build.TypeModule}[r.Rand.Intn(5)]
		argCom := r.Pick("", "", "", "# do not sort", "# keep sorted", "# buildifier: leave-alone", "# hm")
		callCom := r.Pick("", "", "", "", "# buildifier: leave-alone")
		var lists []*build.ListExpr
		var specs []string
		var in [][]elem
		var owns []string
		var roles []string
		leaf := func(role string) build.Expr {
			es := randElems(r, 6)
			own := r.Pick("", "", "", "# keep sorted")
			l := mkList(es, own, "")
			lists, in, owns, roles = append(lists, l), append(in, es), append(owns, own), append(roles, role)
			specs = append(specs, role+own+"["+showElems(es)+"]")
			return l
		}
		var expr func(d int, role string) build.Expr
		expr = func(d int, role string) build.Expr {
			k := r.Rand.Intn(5)
			switch {
			case d > 2 || k == 0:
				return leaf(role)
			case k == 1:
				return &build.BinaryExpr{Op: "+", X: expr(d+1, role), Y: expr(d+1, role)}
			case k == 2:
				dict := &build.DictExpr{}
				for m := r.Rand.Intn(3); m >= 0; m-- {
					dict.List = append(dict.List, &build.KeyValueExpr{Key: &build.StringExpr{Value: "k"}, Value: expr(d+1, role)})
				}
				return &build.CallExpr{X: &build.Ident{Name: "select"}, List: []build.Expr{dict}}
			case k == 3:
				return &build.CallExpr{X: &build.Ident{Name: "glob"}, List: []build.Expr{expr(d+1, "out")}}
			}
			return &build.BinaryExpr{Op: "%", X: expr(d+1, "out"), Y: expr(d+1, "out")}
		}
		e := expr(0, "top")
		_, direct := e.(*build.ListExpr)
		as := &build.AssignExpr{LHS: &build.Ident{Name: attr}, Op: "=", RHS: e}
		if argCom != "" {
			as.Comment().Before = []build.Comment{{Token: argCom}}
		}
		c := &build.CallExpr{X: &build.Ident{Name: kind}, List: []build.Expr{as}}
		if callCom != "" {
			c.Comment().Before = []build.Comment{{Token: callCom}}
		}
		isRule := typ != build.TypeBzl && typ != build.TypeDefault
		r.Case("where", fmt.Sprintf("type %d %s %s(%s %s = %s)", typ, callCom, kind, argCom, attr, strings.Join(specs, " ")), func() string {
			w.Rewrite(&build.File{Type: typ, Stmt: []build.Expr{c}})
			sortable := isRule && callCom == "" && !strings.Contains(argCom, "leave-alone") &&
				!(kind == "cc" && attr == "srcs") && (attr == "deps" || attr == "srcs" || kind == "cc" && attr == "data")
			for k, l := range lists {
				got := elems(l.List)
				want, end := in[k], ""
				ownKeep := strings.Contains(owns[k], "keep sorted")
				switch {
				case roles[k] == "top" && sortable && !strings.Contains(argCom, "do not sort"),
					roles[k] == "top" && strings.Contains(argCom, "keep sorted"):
					want, end = expectList(in[k], owns[k], "")
				case roles[k] == "top" && sortable && direct:
					want, end = modelDedup(in[k])
				}
				if ownKeep { // sorts wherever it stands
					want, end = expectList(want, owns[k], end)
				}
				if !same(got, want) {
					return fmt.Sprintf("list %d (%s) is %s, want %s", k, specs[k], showElems(got), showElems(want))
				}
				if g := coms(l.End.Before); g != end {
					return fmt.Sprintf("list %d (%s): comments at the end %q, want %q", k, specs[k], g, end)
				}
			}
			return ""
		})
	}
}

func TestVerifArgKinds(t *testing.T) {
	r := vlib.New(t, "argkinds", "positional, keyword, *args, **kwargs arguments in this order, those of one kind in the order they had")
	defer r.Done()
	run := func(args []string) {
		r.Case("reorder", "f("+strings.Join(args, ", ")+")", func() string {
			c := &build.CallExpr{X: &build.Ident{Name: "f"}}
			kinds := [5][]build.Expr{}
			for i, a := range args {
				val := &build.LiteralExpr{Token: fmt.Sprint(i)}
				var e build.Expr = val
				k := 1
				switch a {
				case "*", "**":
					e, k = &build.UnaryExpr{Op: a, X: val}, 2+len(a)
				case "-":
					e = &build.UnaryExpr{Op: a, X: val}
				case "=":
					e, k = &build.AssignExpr{LHS: &build.Ident{Name: "a"}, Op: "=", RHS: val}, 2
				case "==":
					e = &build.BinaryExpr{X: val, Op: "==", Y: val}
				}
				c.List = append(c.List, e)
				kinds[k] = append(kinds[k], e)
			}
			var want []build.Expr
			for _, k := range kinds {
				want = append(want, k...)
			}
			f := &build.File{Type: build.TypeDefault, Stmt: []build.Expr{&build.AssignExpr{LHS: &build.Ident{Name: "x"}, Op: "=", RHS: &build.ListExpr{List: []build.Expr{c}}}}}
			(&build.Rewriter{RewriteSet: []string{"reorderarguments"}}).Rewrite(f)
			if len(c.List) != len(want) {
				return fmt.Sprintf("%d arguments remain of %d", len(c.List), len(want))
			}
			for i := range want {
				if c.List[i] != want[i] {
					return "reordered to " + build.FormatString(c)
				}
			}
			return ""
		})
	}
	all := []string{"+", "=", "*", "**", "-", "=="}
	vlib.Strings([]string{"0", "1", "2", "3", "4", "5"}, vlib.N(5, 6), func(s string) bool {
		var args []string
		for _, c := range s {
			args = append(args, all[c-'0'])
		}
		run(args)
		return !r.TooMany()
	})
	for i := 0; i < vlib.N(3000, 30000) && !r.TooMany(); i++ {
		var args []string
		for n := r.Rand.Intn(40); n > 0; n-- {
			args = append(args, all[r.Rand.Intn(len(all))])
		}
		run(args)
	}
}

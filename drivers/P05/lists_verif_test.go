//pkg: edit

// Bounded replay driver of P05: list-valued expressions (lists, selects and other terms joined by +) against a model.
package edit_test

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/labels"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

// el is an element: a string, or an identifier when it starts with '$'; a '#' suffix carries a comment.
type el string

func (e el) ident() bool   { return strings.HasPrefix(string(e), "$") }
func (e el) comment() bool { return strings.HasSuffix(string(e), "#") }
func (e el) str() string   { return strings.TrimSuffix(string(e), "#") }

// seg is a term of the sum.
type seg struct {
	kind     byte // 'L' list, 'S' select over a dictionary, 'I' identifier, 'N' select without arguments, 'G' glob call, 'M' select over a name
	els      []el
	branches [][]el // nil branch: not a list
}

func mkEl(e el) build.Expr {
	if e.ident() {
		return &build.Ident{Name: e.str()[1:]}
	}
	s := &build.StringExpr{Value: e.str()}
	if e.comment() {
		s.Suffix = []build.Comment{{Token: "# on " + e.str()}}
	}
	return s
}

func mkList(es []el) *build.ListExpr {
	l := &build.ListExpr{}
	for _, e := range es {
		l.List = append(l.List, mkEl(e))
	}
	return l
}

func mkSeg(s seg) build.Expr {
	switch s.kind {
	case 'L':
		return mkList(s.els)
	case 'S':
		d := &build.DictExpr{}
		for i, b := range s.branches {
			kv := &build.KeyValueExpr{Key: &build.StringExpr{Value: fmt.Sprintf("//c:%d", i)}}
			if b == nil {
				kv.Value = &build.Ident{Name: "V"}
			} else {
				kv.Value = mkList(b)
			}
			d.List = append(d.List, kv)
		}
		return &build.CallExpr{X: &build.Ident{Name: "select"}, List: []build.Expr{d}}
	case 'N':
		return &build.CallExpr{X: &build.Ident{Name: "select"}}
	case 'M':
		return &build.CallExpr{X: &build.Ident{Name: "select"}, List: []build.Expr{&build.Ident{Name: "D"}}}
	case 'G':
		return &build.CallExpr{X: &build.Ident{Name: "glob"}, List: []build.Expr{mkList(s.els)}}
	}
	return &build.Ident{Name: "VAR"}
}

// mk joins the segments; shape picks the nesting.
func mk(ss []seg, shape int) build.Expr {
	if len(ss) == 0 {
		return nil
	}
	if len(ss) == 1 {
		return mkSeg(ss[0])
	}
	k := len(ss) - 1
	if shape%2 == 1 {
		k = 1
	}
	return &build.BinaryExpr{Op: "+", X: mk(ss[:k], shape/2), Y: mk(ss[k:], shape/2)}
}

func showEls(es []build.Expr) string {
	var xs []string
	for _, e := range es {
		xs = append(xs, showEl(e))
	}
	return "[" + strings.Join(xs, ",") + "]"
}

func showEl(e build.Expr) string {
	switch e := e.(type) {
	case *build.StringExpr:
		c := ""
		for _, x := range append(append(append([]build.Comment{}, e.Before...), e.Suffix...), e.After...) {
			c += x.Token
		}
		return fmt.Sprintf("%q%s", e.Value, c)
	case *build.Ident:
		return "$" + e.Name
	}
	return show(e)
}

func show(e build.Expr) string {
	switch e := e.(type) {
	case nil:
		return "nil"
	case *build.ListExpr:
		return showEls(e.List)
	case *build.BinaryExpr:
		return "(" + show(e.X) + e.Op + show(e.Y) + ")"
	case *build.Ident:
		return e.Name
	case *build.StringExpr:
		return showEl(e)
	case *build.CallExpr:
		var xs []string
		for _, a := range e.List {
			xs = append(xs, show(a))
		}
		return show(e.X) + "(" + strings.Join(xs, ",") + ")"
	case *build.DictExpr:
		var xs []string
		for _, kv := range e.List {
			xs = append(xs, show(kv.Key)+":"+show(kv.Value))
		}
		return "{" + strings.Join(xs, ",") + "}"
	}
	return fmt.Sprintf("%T", e)
}

func copySegs(ss []seg) []seg {
	var out []seg
	for _, s := range ss {
		t := seg{kind: s.kind, els: append([]el{}, s.els...)}
		for _, b := range s.branches {
			if b == nil {
				t.branches = append(t.branches, nil)
			} else {
				t.branches = append(t.branches, append([]el{}, b...))
			}
		}
		out = append(out, t)
	}
	return out
}

func eq(e el, item, pkg string) bool { return !e.ident() && labels.Equal(e.str(), item, pkg) }

func drop(es []el, item, pkg string, withComments bool) ([]el, bool) {
	out, any := []el{}, false
	for _, e := range es {
		if eq(e, item, pkg) && (withComments || !e.comment()) {
			any = true
			continue
		}
		out = append(out, e)
	}
	return out, any
}

func modelDelete(ss []seg, item, pkg string, wc, lists bool) ([]seg, bool) {
	out, any := copySegs(ss), false
	for i := range out {
		if out[i].kind == 'L' && lists {
			es, a := drop(out[i].els, item, pkg, wc)
			out[i].els, any = es, any || a
		}
		if out[i].kind == 'S' {
			for j, b := range out[i].branches {
				if b != nil {
					es, a := drop(b, item, pkg, wc)
					out[i].branches[j], any = es, any || a
				}
			}
		}
	}
	return out, any
}

func cls(e el) int {
	if e.ident() {
		return 0
	}
	if strings.HasPrefix(e.str(), "//") {
		return 2
	}
	return 1
}

func before(a, b el) bool {
	if cls(a) != cls(b) {
		return cls(a) < cls(b)
	}
	return cls(a) != 0 && a.str() < b.str()
}

func modelAdd(ss []seg, item el, pkg string, sorted, wc bool) ([]seg, bool) { // bool: a new list is joined at the end
	out := copySegs(ss)
	if !item.ident() {
		for _, s := range ss {
			if s.kind == 'L' {
				for _, e := range s.els {
					if eq(e, item.str(), pkg) {
						return out, false
					}
				}
			}
		}
		out, _ = modelDelete(ss, item.str(), pkg, wc, false)
	}
	for i := range out {
		if out[i].kind == 'L' {
			k := len(out[i].els)
			if sorted {
				for j, e := range out[i].els {
					if before(item, e) {
						k = j
						break
					}
				}
			}
			es := append([]el{}, out[i].els[:k]...)
			es = append(es, item)
			out[i].els = append(es, out[i].els[k:]...)
			return out, false
		}
	}
	return out, true
}

func segsText(ss []seg, shape int) string { return show(mk(ss, shape)) }

// configs lists, for every choice of one branch per select, the elements of the whole expression in that configuration.
func configs(e build.Expr, pkg string) []string {
	var sels []*build.CallExpr
	var walk func(e build.Expr)
	walk = func(e build.Expr) {
		switch e := e.(type) {
		case *build.BinaryExpr:
			if e.Op == "+" {
				walk(e.X)
				walk(e.Y)
			}
		case *build.CallExpr:
			if show(e.X) == "select" && len(e.List) == 1 {
				if d, ok := e.List[0].(*build.DictExpr); ok && len(d.List) > 0 {
					sels = append(sels, e)
				}
			}
		}
	}
	walk(e)
	keys := map[string]bool{}
	for _, s := range sels {
		for _, kv := range s.List[0].(*build.DictExpr).List {
			keys[show(kv.Key)] = true
		}
	}
	var out []string
	for i := 0; i < 4; i++ { // configuration i matches condition //c:i and the selects without it match their last branch
		var els []string
		var eval func(e build.Expr)
		eval = func(e build.Expr) {
			switch e := e.(type) {
			case nil:
			case *build.BinaryExpr:
				if e.Op == "+" {
					eval(e.X)
					eval(e.Y)
					return
				}
				els = append(els, show(e))
			case *build.ListExpr:
				for _, x := range e.List {
					if s, ok := x.(*build.StringExpr); ok {
						els = append(els, fmt.Sprintf("%q", labels.ParseRelative(s.Value, pkg).Format()))
					} else {
						els = append(els, showEl(x))
					}
				}
			case *build.CallExpr:
				if show(e.X) == "select" && len(e.List) == 1 {
					if d, ok := e.List[0].(*build.DictExpr); ok && len(d.List) > 0 {
						v := d.List[len(d.List)-1].Value
						for _, kv := range d.List {
							if show(kv.Key) == fmt.Sprintf("%q", fmt.Sprintf("//c:%d", i)) {
								v = kv.Value
							}
						}
						eval(v)
						return
					}
					if _, ok := e.List[0].(*build.DictExpr); ok {
						return
					}
				}
				if show(e.X) == "select" && len(e.List) == 0 {
					return
				}
				els = append(els, show(e))
			default:
				els = append(els, "term "+show(e))
			}
		}
		eval(e)
		out = append(out, strings.Join(canon(els), " "))
	}
	return out
}

// canon: strings as a set, everything else as a multiset.
func canon(els []string) []string {
	sort.Strings(els)
	var out []string
	for i, x := range els {
		if i > 0 && els[i-1] == x && strings.HasPrefix(x, `"`) {
			continue
		}
		out = append(out, x)
	}
	return out
}

func allComments(e build.Expr) map[string]bool {
	out := map[string]bool{}
	build.Walk(e, func(x build.Expr, stk []build.Expr) {
		c := x.Comment()
		for _, k := range append(append(append([]build.Comment{}, c.Before...), c.Suffix...), c.After...) {
			out[k.Token] = true
		}
		if l, ok := x.(*build.ListExpr); ok {
			for _, k := range l.End.Before {
				out[k.Token] = true
			}
		}
	})
	return out
}

func ruleOf(e build.Expr) *build.Rule {
	call := &build.CallExpr{X: &build.Ident{Name: "r"}}
	call.List = append(call.List, &build.AssignExpr{LHS: &build.Ident{Name: "name"}, Op: "=", RHS: &build.StringExpr{Value: "n"}})
	r := build.NewRule(call)
	if e != nil {
		r.SetAttr("deps", e)
	}
	return r
}

func resolved(e build.Expr) string {
	// no adjacent literal lists, no select with only empty lists
	var msg string
	var walk func(e build.Expr)
	walk = func(e build.Expr) {
		switch e := e.(type) {
		case *build.BinaryExpr:
			if e.Op != "+" {
				return
			}
			walk(e.X)
			walk(e.Y)
			_, a := e.X.(*build.ListExpr)
			_, b := e.Y.(*build.ListExpr)
			if a && b {
				msg = "two literal lists are still joined by +"
			}
		case *build.CallExpr:
			if show(e.X) != "select" || len(e.List) != 1 {
				return
			}
			d, ok := e.List[0].(*build.DictExpr)
			if !ok || len(d.List) == 0 {
				return
			}
			empty := true
			for _, kv := range d.List {
				l, ok := kv.Value.(*build.ListExpr)
				if !ok {
					return
				}
				if len(l.List) > 0 {
					empty = false
				}
			}
			if empty {
				msg = "a select of empty lists remains"
			}
		}
	}
	walk(e)
	return msg
}

func checkExpr(ss []seg, shape int, item, repl el, pkg string, wc bool) string {
	edit.DeleteWithComments = wc
	defer func() { edit.DeleteWithComments = true }()
	base := segsText(ss, shape)
	inList, anywhere := false, false
	for _, s := range ss {
		for _, e := range s.els {
			if s.kind == 'L' && eq(e, item.str(), pkg) {
				inList, anywhere = true, true
			}
		}
		for _, b := range s.branches {
			for _, e := range b {
				if eq(e, item.str(), pkg) {
					anywhere = true
				}
			}
		}
	}
	_ = anywhere
	if len(ss) > 0 && !item.ident() {
		e := mk(ss, shape)
		s := edit.ListFind(e, item.str(), pkg)
		if (s != nil) != inList {
			return fmt.Sprintf("ListFind(%s, %q) found %v, want %v", base, item.str(), s != nil, inList)
		}
		if s != nil && !labels.Equal(s.Value, item.str(), pkg) {
			return fmt.Sprintf("ListFind(%s, %q) = %q", base, item.str(), s.Value)
		}
		if g := show(e); g != base {
			return fmt.Sprintf("ListFind changed %s to %s", base, g)
		}
	}
	for _, sorted := range []bool{false, true} {
		e := mk(ss, shape)
		it := mkEl(item)
		g := show(edit.AddValueToList(e, pkg, it, sorted))
		var want string
		if len(ss) == 0 {
			want = "[" + showEl(it) + "]"
		} else {
			m, joined := modelAdd(ss, item, pkg, sorted, wc)
			want = segsText(m, shape)
			if joined {
				want = "(" + want + "+[" + showEl(it) + "])"
			}
		}
		if g != want {
			return fmt.Sprintf("AddValueToList(%s, %q, sorted %v) = %s, want %s", base, item, sorted, g, want)
		}
		if !item.ident() && len(ss) > 0 {
			// once more: nothing happens
			e2 := edit.AddValueToList(mk(ss, shape), pkg, mkEl(item), sorted)
			was := show(e2)
			if g := show(edit.AddValueToList(e2, pkg, mkEl(item), sorted)); g != was {
				return fmt.Sprintf("AddValueToList(%s, %q) a second time = %s, want %s", base, item, g, was)
			}
		}
	}
	if len(ss) > 0 && !item.ident() {
		for _, quoted := range []bool{false, true} {
			e := mk(ss, shape)
			it := item.str()
			if quoted {
				it = `"` + it + `"`
			}
			d := edit.ListDelete(e, it, pkg)
			m, any := modelDelete(ss, item.str(), pkg, wc, true)
			if g, want := show(e), segsText(m, shape); g != want {
				return fmt.Sprintf("ListDelete(%s, %q) = %s, want %s", base, it, g, want)
			}
			if (d != nil) != any || d != nil && !labels.Equal(d.Value, item.str(), pkg) {
				return fmt.Sprintf("ListDelete(%s, %q) reports %v, want %v", base, it, d, any)
			}
		}
		if !repl.ident() {
			e := mk(ss, shape)
			ok := edit.ListReplace(e, item.str(), repl.str(), pkg)
			m, any := copySegs(ss), false
			// lists inside selects count unless some select is not over a single dictionary
			selOK := true
			for _, s := range ss {
				if s.kind == 'N' || s.kind == 'M' {
					selOK = false
				}
			}
			rep := func(es []el) {
				for j, x := range es {
					if eq(x, item.str(), pkg) {
						es[j] = el(labels.Shorten(repl.str(), pkg))
						if x.comment() {
							es[j] += "#"
						}
						any = true
					}
				}
			}
			for i := range m {
				if m[i].kind == 'L' {
					rep(m[i].els)
				}
				if m[i].kind == 'S' && selOK {
					for _, b := range m[i].branches {
						rep(b)
					}
				}
			}
			g := regexp.MustCompile("# on [^\\],]*").ReplaceAllString(show(e), "#")
			want := regexp.MustCompile("# on [^\\],]*").ReplaceAllString(segsText(m, shape), "#")
			if g != want || ok != any {
				return fmt.Sprintf("ListReplace(%s, %q, %q) = %s, %v, want %s, %v", base, item.str(), repl.str(), g, ok, want, any)
			}
			re := regexp.MustCompile("a")
			e = mk(ss, shape)
			ok = edit.ListSubstitute(e, re, "<${0}>")
			m, any = copySegs(ss), false
			sub := func(es []el) {
				for j, x := range es {
					if !x.ident() && strings.Contains(x.str(), "a") {
						es[j] = el(strings.Replace(x.str(), "a", "<a>", 1))
						if x.comment() {
							es[j] += "#"
						}
						any = true
					}
				}
			}
			for i := range m {
				if m[i].kind == 'L' {
					sub(m[i].els)
				}
				if m[i].kind == 'S' && selOK {
					for _, b := range m[i].branches {
						sub(b)
					}
				}
			}
			g = regexp.MustCompile("# on [^\\],]*").ReplaceAllString(show(e), "#")
			want = regexp.MustCompile("# on [^\\],]*").ReplaceAllString(segsText(m, shape), "#")
			if g != want || ok != any {
				return fmt.Sprintf("ListSubstitute(%s) = %s, %v, want %s, %v", base, g, ok, want, any)
			}
		}
		// through a rule: the attribute goes when its list is emptied
		r := ruleOf(mk(ss, shape))
		d := edit.ListAttributeDelete(r, "deps", item.str(), pkg)
		m, any := modelDelete(ss, item.str(), pkg, wc, true)
		want := segsText(m, shape)
		if any && len(m) == 1 && m[0].kind == 'L' && len(m[0].els) == 0 {
			want = "nil"
		}
		if g := show(r.Attr("deps")); g != want || (d != nil) != any {
			return fmt.Sprintf("ListAttributeDelete(%s, %q) = %s, want %s", base, item.str(), g, want)
		}
	}
	// resolving keeps the meaning in every configuration; with comments kept in place only the strings are compared
	if wc {
		e := mk(ss, shape)
		for i, s := range ss {
			_ = i
			_ = s
		}
		n := 0
		build.Walk(orEmpty(e), func(x build.Expr, stk []build.Expr) {
			if l, ok := x.(*build.ListExpr); ok && len(stk) >= 0 {
				inSel := false
				for _, p := range stk {
					if _, ok := p.(*build.CallExpr); ok {
						inSel = true
					}
				}
				if !inSel && len(l.List) > 0 {
					n++
					l.End.Before = append(l.End.Before, build.Comment{Token: fmt.Sprintf("# end %d", n)})
				}
			}
		})
		r := ruleOf(e)
		want := configs(e, pkg)
		edit.ResolveAttr(r, "deps", pkg)
		got := r.Attr("deps")
		if g := configs(got, pkg); strings.Join(g, "|") != strings.Join(want, "|") {
			return fmt.Sprintf("ResolveAttr(%s) = %s: values per configuration were %q, are %q", base, show(got), want, g)
		}
		if msg := resolved(got); msg != "" {
			return fmt.Sprintf("ResolveAttr(%s) = %s: %s", base, show(got), msg)
		}
		cs := allComments(orEmpty(got))
		for i := 1; i <= n; i++ {
			if !cs[fmt.Sprintf("# end %d", i)] {
				return fmt.Sprintf("ResolveAttr(%s) = %s: the comment at the end of a list is gone", base, show(got))
			}
		}
		// A branch that holds something else than a string takes its select out of the
		// extraction only if the search meets it, so that a second pass can find more.
		if strings.Contains(show(got), "$") || strings.Contains(base, "$") {
			return ""
		}
		once := show(got)
		edit.ResolveAttr(r, "deps", pkg)
		if g := show(r.Attr("deps")); g != once {
			return fmt.Sprintf("ResolveAttr(%s) twice = %s, once %s", base, g, once)
		}
	}
	return ""
}

func orEmpty(e build.Expr) build.Expr {
	if e == nil {
		return &build.ListExpr{}
	}
	return e
}

// checkMove: moving all values of one attribute to another.
func checkMove(from []seg, to []seg, shape int, pkg string) string {
	r := ruleOf(mk(to, shape))
	if len(from) > 0 {
		r.SetAttr("srcs", mk(from, shape))
	}
	text := fmt.Sprintf("MoveAllListAttributeValues(srcs = %s, deps = %s)", segsText(from, shape), segsText(to, shape))
	err := edit.MoveAllListAttributeValues(r, "srcs", "deps", pkg, nil)
	gs, gd := show(r.Attr("srcs")), show(r.Attr("deps"))
	var ws, wd string
	we := false
	switch {
	case len(from) == 0:
		ws, wd, we = "nil", segsText(to, shape), true
	case len(to) == 0:
		ws, wd = "nil", segsText(from, shape)
	case len(from) == 1 && from[0].kind == 'L':
		cur := copySegs(to)
		var extra []el
		for _, x := range from[0].els {
			if len(extra) > 0 {
				m, _ := modelAdd([]seg{{kind: 'L', els: extra}}, x, pkg, true, true)
				extra = m[0].els
				continue
			}
			m, joined := modelAdd(cur, x, pkg, true, true)
			cur = m
			if joined {
				extra = []el{x}
			}
		}
		ws, wd = "nil", segsText(cur, shape)
		if len(extra) > 0 {
			wd = "(" + wd + "+" + show(mkList(extra)) + ")"
			// values added after the new list was joined still leave the selects
			for _, x := range from[0].els {
				if !x.ident() {
					cur, _ = modelDelete(cur, x.str(), pkg, true, false)
				}
			}
			wd = "(" + segsText(cur, shape) + "+" + show(mkList(extra)) + ")"
		}
	default:
		ws, wd, we = segsText(from, shape), segsText(to, shape), true
	}
	if gs != ws || gd != wd || (err != nil) != we {
		return fmt.Sprintf("%s gives srcs = %s, deps = %s, error %v; want %s, %s, error %v", text, gs, gd, err, ws, wd, we)
	}
	return ""
}

// checkAttr: adding to an attribute, directly or through a variable.
func checkAttr(ss []seg, shape int, item el, attr, pkg string) string {
	r := ruleOf(nil)
	if len(ss) > 0 {
		r.SetAttr(attr, mk(ss, shape))
	}
	edit.AddValueToListAttribute(r, attr, pkg, mkEl(item), nil)
	want := show(edit.AddValueToList(mk(ss, shape), pkg, mkEl(item), attr != "args"))
	if g := show(r.Attr(attr)); g != want {
		return fmt.Sprintf("AddValueToListAttribute(%s = %s, %q) = %s, want %s", attr, segsText(ss, shape), item, g, want)
	}
	if len(ss) == 0 {
		return ""
	}
	r = ruleOf(nil)
	r.SetAttr(attr, &build.Ident{Name: "VAR"})
	as := &build.AssignExpr{LHS: &build.Ident{Name: "VAR"}, Op: "=", RHS: mk(ss, shape)}
	vars := map[string]*build.AssignExpr{"VAR": as}
	edit.AddValueToListAttribute(r, attr, pkg, mkEl(item), &vars)
	if g := show(r.Attr(attr)); g != "VAR" {
		return fmt.Sprintf("AddValueToListAttribute through a variable sets the attribute to %s", g)
	}
	if g := show(as.RHS); g != want {
		return fmt.Sprintf("AddValueToListAttribute(VAR = %s, %q) = %s, want %s", segsText(ss, shape), item, g, want)
	}
	return ""
}

func TestVerifLists(t *testing.T) {
	r := vlib.New(t, "lists", "adding, deleting, replacing and resolving list values against a model")
	defer r.Done()
	words := []el{":a", "a", "//p:a", "//p", "b#", ":p", "//q:a", "$X", "z", "a.txt"}
	pick := func() el { return words[r.Rand.Intn(len(words))] }
	els := func(max int) []el {
		out := []el{}
		for n := r.Rand.Intn(max + 1); n > 0; n-- {
			out = append(out, pick())
		}
		return out
	}
	// every one-term and two-term expression over short lists
	small := [][]el{{}, {":a"}, {"b#"}, {"$X"}, {"z", "//p:a"}, {"a", "b#", ":a"}}
	var terms []seg
	for _, es := range small {
		terms = append(terms, seg{kind: 'L', els: es})
		terms = append(terms, seg{kind: 'S', branches: [][]el{es}}, seg{kind: 'S', branches: [][]el{es, {":a", "z"}}}, seg{kind: 'S', branches: [][]el{{"a", ":a"}, nil, es}})
	}
	terms = append(terms, seg{kind: 'I'}, seg{kind: 'N'}, seg{kind: 'M'}, seg{kind: 'S'}, seg{kind: 'G', els: []el{":a"}})
	one := func(ss []seg, shape int, item, repl el, pkg string, wc bool) {
		r.Case("lists", fmt.Sprintf("%s shape %d item %q replacement %q package %q delete-with-comments %v", segsText(ss, shape), shape, item, repl, pkg, wc),
			func() string { return checkExpr(ss, shape, item, repl, pkg, wc) })
		r.Case("attributes", fmt.Sprintf("%s item %q", segsText(ss, shape), item), func() string {
			if m := checkAttr(ss, shape, item, "deps", pkg); m != "" {
				return m
			}
			return checkAttr(ss, shape, item, "args", pkg)
		})
	}
	for _, a := range append([]seg{{kind: '0'}}, terms...) {
		for _, b := range append([]seg{{kind: '0'}}, terms...) {
			var ss []seg
			if a.kind != '0' {
				ss = append(ss, a)
			}
			if b.kind != '0' {
				ss = append(ss, b)
			}
			for _, it := range []el{":a", "$X", "b", "//p"} {
				if r.Expired() || r.TooMany() {
					return
				}
				one(ss, 0, it, ":new", "p", it != "b")
			}
			r.Case("move", segsText(ss, 0), func() string { return checkMove(ss[:len(ss)/2], ss[len(ss)/2:], 0, "p") })
		}
	}
	n := vlib.N(6000, 200000)
	for i := 0; i < n && !r.Expired() && !r.TooMany(); i++ {
		var ss []seg
		gen := func(max int) []seg {
			var ss []seg
			for k := r.Rand.Intn(max + 1); k > 0; k-- {
				s := seg{kind: "LLLSSSSINMG"[r.Rand.Intn(11)]}
				switch s.kind {
				case 'L', 'G':
					s.els = els(4)
				case 'S':
					for b := r.Rand.Intn(4); b > 0; b-- {
						if r.Rand.Intn(12) == 0 {
							s.branches = append(s.branches, nil)
						} else {
							s.branches = append(s.branches, els(4))
						}
					}
				}
				ss = append(ss, s)
			}
			return ss
		}
		ss = gen(5)
		shape := r.Rand.Intn(16)
		pkg := r.Pick("p", "p", "q", "")
		one(ss, shape, pick(), pick(), pkg, r.Rand.Intn(3) > 0)
		from := gen(1)
		if len(from) == 1 && r.Rand.Intn(3) > 0 {
			from = []seg{{kind: 'L', els: els(4)}}
		}
		r.Case("move", segsText(from, 0)+" to "+segsText(ss, shape), func() string { return checkMove(from, ss, shape, pkg) })
	}
}

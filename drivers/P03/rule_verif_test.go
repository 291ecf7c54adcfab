//pkg: edit

// Bounded replay driver of P03: a rule's attributes as an ordered map, against an association-list model.
package edit_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

type arg struct {
	key string // "" for a positional argument
	val string // printed value
}

// render makes a call with the arguments; kinds of value: n<digit> number, i identifier, s string, l list, m mixed list.
func value(v string) string {
	switch v[0] {
	case 's':
		return `"` + v[1:] + `"`
	case 'l':
		return `["` + strings.Join(strings.Split(v[1:], "."), `", "`) + `"]`
	case 'e':
		return "[]"
	case 'm':
		return `["a", x]`
	}
	return v
}

func render(as []arg) string {
	var out []string
	for _, a := range as {
		s := value(a.val)
		if a.key != "" {
			s = a.key + " = " + s
		}
		out = append(out, s)
	}
	return "rule(" + strings.Join(out, ", ") + ")"
}

func mkRule(as []arg) *build.Rule {
	call := &build.CallExpr{X: &build.Ident{Name: "rule"}}
	for i, a := range as {
		v := mkVal(a.val)
		switch {
		case a.key == "" && i%2 == 0:
			call.List = append(call.List, v)
		case a.key == "":
			call.List = append(call.List, &build.AssignExpr{LHS: &build.StringExpr{Value: "a"}, Op: "=", RHS: v}) // not an attribute
		default:
			call.List = append(call.List, &build.AssignExpr{LHS: &build.Ident{Name: a.key}, Op: "=", RHS: v})
		}
	}
	return build.NewRule(call)
}

func mkVal(v string) build.Expr {
	switch v[0] {
	case 's':
		return &build.StringExpr{Value: v[1:]}
	case 'l':
		l := &build.ListExpr{}
		for _, s := range strings.Split(v[1:], ".") {
			l.List = append(l.List, &build.StringExpr{Value: s})
		}
		return l
	case 'e':
		return &build.ListExpr{}
	case 'm':
		return &build.ListExpr{List: []build.Expr{&build.StringExpr{Value: "a"}, &build.Ident{Name: "x"}}}
	case 'i':
		return &build.Ident{Name: v}
	}
	return &build.LiteralExpr{Token: v}
}

func show(e build.Expr) string {
	if e == nil {
		return "nil"
	}
	switch e := e.(type) {
	case *build.StringExpr:
		return "s" + e.Value
	case *build.Ident:
		return e.Name
	case *build.LiteralExpr:
		return e.Token
	case *build.ListExpr:
		var xs []string
		for _, x := range e.List {
			xs = append(xs, show(x))
		}
		return "[" + strings.Join(xs, ",") + "]"
	case *build.AssignExpr:
		return show(e.LHS) + e.Op + show(e.RHS)
	}
	return fmt.Sprintf("%T", e)
}

func state(r *build.Rule) string {
	var xs []string
	for _, e := range r.Call.List {
		xs = append(xs, show(e))
	}
	return strings.Join(xs, ";")
}

func find(as []arg, k string) int {
	for i, a := range as {
		if a.key == k {
			return i
		}
	}
	return -1
}

func wantState(as []arg) string { return state(mkRule(as)) }

// same as mkRule(as) but positional encoding must not depend on the index after an edit: drop/keep by list
func stateOf(list []string) string { return strings.Join(list, ";") }

func check(as []arg, k, k2 string) string {
	base := mkRule(as)
	items := func() []string {
		var xs []string
		for _, e := range mkRule(as).Call.List {
			xs = append(xs, show(e))
		}
		return xs
	}
	i := find(as, k)
	// reading
	want := "nil"
	if i >= 0 {
		want = show(mkVal(as[i].val))
	}
	if g := show2(base.Attr(k)); g != want {
		return fmt.Sprintf("Attr(%q) = %s, want %s", k, g, want)
	}
	if d := base.AttrDefn(k); (d == nil) != (i < 0) || d != nil && build.Expr(d) != base.Call.List[i] {
		return fmt.Sprintf("AttrDefn(%q) is not the first definition", k)
	}
	ws, wl, wss, isl := "", "", "nil", false
	if i >= 0 {
		switch v := mkVal(as[i].val).(type) {
		case *build.StringExpr:
			ws = v.Value
		case *build.Ident:
			wl = v.Name
		case *build.LiteralExpr:
			wl = v.Token
		case *build.ListExpr:
			isl = true
			var xs []string
			for _, x := range v.List {
				s, ok := x.(*build.StringExpr)
				if !ok {
					isl = false
					break
				}
				xs = append(xs, s.Value)
			}
			if isl {
				wss = fmt.Sprintf("%q", append([]string{}, xs...))
			}
		}
	}
	if g := base.AttrString(k); g != ws {
		return fmt.Sprintf("AttrString(%q) = %q, want %q", k, g, ws)
	}
	if g := base.AttrLiteral(k); g != wl {
		return fmt.Sprintf("AttrLiteral(%q) = %q, want %q", k, g, wl)
	}
	gss := "nil"
	if g := base.AttrStrings(k); g != nil {
		gss = fmt.Sprintf("%q", g)
	}
	if gss != wss {
		return fmt.Sprintf("AttrStrings(%q) = %s, want %s", k, gss, wss)
	}
	var keys []string
	for _, a := range as {
		if a.key != "" {
			keys = append(keys, a.key)
		}
	}
	if g := base.AttrKeys(); strings.Join(g, ",") != strings.Join(keys, ",") {
		return fmt.Sprintf("AttrKeys() = %v, want %v", g, keys)
	}
	if state(base) != stateOf(items()) {
		return "reading changed the rule"
	}
	// setting: in place or appended
	{
		r := mkRule(as)
		r.SetAttr(k, mkVal("snew"))
		xs := items()
		if i >= 0 {
			xs[i] = k + "=" + "snew"
		} else {
			xs = append(xs, k+"=snew")
		}
		if g := state(r); g != stateOf(xs) {
			return fmt.Sprintf("after SetAttr(%q): %s, want %s", k, g, stateOf(xs))
		}
		if g := show2(r.Attr(k)); g != "snew" {
			return fmt.Sprintf("after SetAttr(%q), Attr = %s", k, g)
		}
	}
	// deleting
	{
		r := mkRule(as)
		got := show2(r.DelAttr(k))
		if got != want {
			return fmt.Sprintf("DelAttr(%q) = %s, want %s", k, got, want)
		}
		xs := items()
		if i >= 0 {
			xs = append(xs[:i:i], xs[i+1:]...)
		}
		if g := state(r); g != stateOf(xs) {
			return fmt.Sprintf("after DelAttr(%q): %s, want %s", k, g, stateOf(xs))
		}
	}
	// set after delete appends; delete after set removes
	{
		r := mkRule(as)
		r.DelAttr(k)
		r.SetAttr(k2, mkVal("sx"))
		r.DelAttr(k2)
		j := find(as, k2)
		xs := items()
		if i >= 0 {
			xs[i] = "\x00"
		}
		if k2 == k {
			j = -1
			for q := i + 1; i >= 0 && q < len(as); q++ {
				if as[q].key == k2 {
					j = q
					break
				}
			}
		}
		if j >= 0 {
			xs[j] = "\x00"
		}
		var ys []string
		for _, x := range xs {
			if x != "\x00" {
				ys = append(ys, x)
			}
		}
		if g := state(r); g != stateOf(ys) {
			return fmt.Sprintf("after DelAttr(%q), SetAttr(%q), DelAttr(%q): %s, want %s", k, k2, k2, g, stateOf(ys))
		}
	}
	// renaming
	{
		r := mkRule(as)
		err := edit.RenameAttribute(r, k, k2)
		j := find(as, k2)
		wantErr := j >= 0 || i < 0
		if (err != nil) != wantErr {
			return fmt.Sprintf("RenameAttribute(%q, %q) error %v, want error: %v", k, k2, err, wantErr)
		}
		xs := items()
		if !wantErr {
			xs[i] = k2 + "=" + show(mkVal(as[i].val))
		}
		if g := state(r); g != stateOf(xs) {
			return fmt.Sprintf("after RenameAttribute(%q, %q): %s, want %s", k, k2, g, stateOf(xs))
		}
	}
	return ""
}

func show2(e build.Expr) string {
	if e == nil {
		return "nil"
	}
	return show(e)
}

func TestVerifRule(t *testing.T) {
	r := vlib.New(t, "rule", "every argument list of at most 3 arguments over 3 keys, positional ones and 6 kinds of value, with every pair of keys; random longer ones with repeated keys; non-trivial: not seen before")
	defer r.Done()
	keys := []string{"", "a", "b", "name"}
	vals := []string{"s1", "s", "iv", "7", "lx.y", "e", "m"}
	var run func(as []arg, n int)
	run = func(as []arg, n int) {
		for _, k := range keys[1:] {
			for _, k2 := range keys[1:] {
				r.Case("attr", fmt.Sprintf("%s with %s, %s", render(as), k, k2), func() string { return check(as, k, k2) })
			}
		}
		if n == 0 || r.Expired() {
			return
		}
		for _, k := range keys {
			for _, v := range vals {
				run(append(append([]arg{}, as...), arg{k, v}), n-1)
			}
		}
	}
	run(nil, vlib.N(2, 3))
	ks := []string{"", "a", "b", "c", "name", "deps"}
	for i := 0; i < vlib.N(30000, 300000) && !r.Expired(); i++ {
		var as []arg
		for n := r.Rand.Intn(9); n > 0; n-- {
			as = append(as, arg{r.Pick(ks...), r.Pick(vals...)})
		}
		k, k2 := r.Pick(ks[1:]...), r.Pick(append(ks[1:], "zz")...)
		r.Case("attr", fmt.Sprintf("%s with %s, %s", render(as), k, k2), func() string { return check(as, k, k2) })
	}
}

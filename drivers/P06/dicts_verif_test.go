//pkg: edit

// Bounded replay driver of P06: dictionary edits against a model, on the functions and on the commands built on them.
package edit_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/labels"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

// ent is an entry: its key text (identifiers start with '$') and its value text (identifiers '$', lists "[a,b]").
type ent struct{ k, v string }

func mkVal(v string) build.Expr {
	if strings.HasPrefix(v, "$") {
		return &build.Ident{Name: v[1:]}
	}
	if strings.HasPrefix(v, "[") {
		l := &build.ListExpr{}
		for _, x := range strings.Split(strings.Trim(v, "[]"), ",") {
			if x != "" {
				l.List = append(l.List, &build.StringExpr{Value: x})
			}
		}
		return l
	}
	return &build.StringExpr{Value: v}
}

func mkDict(es []ent) *build.DictExpr {
	d := &build.DictExpr{}
	for _, e := range es {
		d.List = append(d.List, &build.KeyValueExpr{Key: mkVal(e.k), Value: mkVal(e.v)})
	}
	return d
}

func showVal(e build.Expr) string {
	switch e := e.(type) {
	case nil:
		return "nil"
	case *build.Ident:
		return "$" + e.Name
	case *build.StringExpr:
		return e.Value
	case *build.ListExpr:
		var xs []string
		for _, x := range e.List {
			xs = append(xs, showVal(x))
		}
		return "[" + strings.Join(xs, ",") + "]"
	case *build.DictExpr:
		var xs []string
		for _, kv := range e.List {
			xs = append(xs, showVal(kv.Key)+": "+showVal(kv.Value))
		}
		return "{" + strings.Join(xs, "; ") + "}"
	case *build.KeyValueExpr:
		return showVal(e.Key) + ": " + showVal(e.Value)
	}
	return fmt.Sprintf("%T", e)
}

func showEnts(es []ent) string { return showVal(mkDict(es)) }

func find(es []ent, k string) int {
	for i, e := range es {
		if e.k == k && !strings.HasPrefix(k, "$") {
			return i
		}
	}
	return -1
}

func set(es []ent, k, v string) []ent {
	out := append([]ent{}, es...)
	if i := find(out, k); i >= 0 {
		out[i].v = v
		return out
	}
	return append(out, ent{k, v})
}

func del(es []ent, k string) []ent {
	out := []ent{}
	for _, e := range es {
		if e.k != k {
			out = append(out, e)
		}
	}
	return out
}

func unq(s string) string {
	if len(s) > 1 && strings.HasPrefix(s, `"`) && strings.HasSuffix(s, `"`) {
		return s[1 : len(s)-1]
	}
	return s
}

func short(v, pkg string) string { return labels.Shorten(v, pkg) }

func checkFns(es []ent, k, v string) string {
	base := showEnts(es)
	d := mkDict(es)
	ptrs := append([]*build.KeyValueExpr{}, d.List...)
	g := showVal(edit.DictionaryGet(d, k))
	want := "nil"
	if i := find(es, k); i >= 0 {
		want = es[i].v
	}
	if g != want {
		return fmt.Sprintf("DictionaryGet(%s, %q) = %s, want %s", base, k, g, want)
	}
	if s := showVal(d); s != base {
		return fmt.Sprintf("DictionaryGet changed %s to %s", base, s)
	}
	r := showVal(edit.DictionarySet(d, k, nil))
	if r != want || showVal(d) != base {
		return fmt.Sprintf("DictionarySet(%s, %q, nil) = %s and leaves %s, want %s", base, k, r, showVal(d), want)
	}
	r = showVal(edit.DictionarySet(d, k, mkVal(v)))
	wr := "nil"
	if find(es, k) >= 0 {
		wr = v
	}
	if s, w := showVal(d), showEnts(set(es, k, v)); s != w || r != wr {
		return fmt.Sprintf("DictionarySet(%s, %q, %s) leaves %s and returns %s, want %s and %s", base, k, v, s, r, w, wr)
	}
	for i, p := range ptrs {
		if d.List[i] != p {
			return fmt.Sprintf("DictionarySet(%s, %q) exchanged entry %d", base, k, i)
		}
	}
	for _, kk := range []string{k, `"` + k + `"`} {
		if strings.HasPrefix(k, "$") {
			continue
		}
		d = mkDict(es)
		r := edit.DictionaryDelete(d, kk)
		if s, w := showVal(d), showEnts(del(es, k)); s != w {
			return fmt.Sprintf("DictionaryDelete(%s, %q) leaves %s, want %s", base, kk, s, w)
		}
		if (r != nil) != (find(es, k) >= 0) {
			return fmt.Sprintf("DictionaryDelete(%s, %q) returns %s", base, kk, showVal(r))
		}
		if r != nil && !strings.HasPrefix(showVal(r), k+": ") {
			return fmt.Sprintf("DictionaryDelete(%s, %q) returns %s", base, kk, showVal(r))
		}
	}
	return ""
}

func run(cmd string, r *build.Rule, pkg string, args ...string) error {
	_, err := edit.AllCommands[cmd].Fn(edit.NewOpts(), edit.CmdEnvironment{File: &build.File{}, Rule: r, Pkg: pkg, Args: append([]string{"d"}, args...)})
	return err
}

func rule(es []ent, none bool) *build.Rule {
	c := &build.CallExpr{X: &build.Ident{Name: "r"}}
	add := func(k string, v build.Expr) {
		c.List = append(c.List, &build.AssignExpr{LHS: &build.Ident{Name: k}, Op: "=", RHS: v})
	}
	add("name", &build.StringExpr{Value: "n"})
	if !none {
		add("d", mkDict(es))
	}
	add("z", &build.StringExpr{Value: "z"})
	return build.NewRule(c)
}

func state(r *build.Rule) string {
	var xs []string
	for _, k := range r.AttrKeys() {
		xs = append(xs, k+" = "+showVal(r.Attr(k)))
	}
	return strings.Join(xs, ", ")
}

func wantState(es []ent, absent, newly bool) string {
	switch {
	case absent:
		return "name = n, z = z"
	case newly:
		return "name = n, z = z, d = " + showEnts(es)
	}
	return "name = n, d = " + showEnts(es) + ", z = z"
}

func checkCmds(es []ent, none bool, kvs [][2]string, old, pkg string) string {
	base := showEnts(es)
	if none {
		base, es = "no attribute", nil
	}
	var args, keys []string
	for _, kv := range kvs {
		args = append(args, kv[0]+":"+kv[1])
		keys = append(keys, kv[0])
	}
	// dict_set and dict_add
	m, a := es, es
	for _, kv := range kvs {
		v := short(unq(kv[1]), pkg)
		m = set(m, kv[0], v)
		if find(a, kv[0]) < 0 {
			a = set(a, kv[0], v)
		}
	}
	for _, t := range []struct {
		cmd string
		w   []ent
	}{{"dict_set", m}, {"dict_add", a}} {
		r := rule(es, none)
		err := run(t.cmd, r, pkg, args...)
		if g, w := state(r), wantState(t.w, false, none); err != nil || g != w {
			return fmt.Sprintf("%s d %q on %s: %s (error %v), want %s", t.cmd, args, base, g, err, w)
		}
	}
	// a malformed pair is an error
	if err := run("dict_set", rule(es, none), pkg, "nocolon"); err == nil {
		return "dict_set d nocolon: no error"
	}
	if err := run("dict_add", rule(es, none), pkg, "nocolon"); err == nil {
		return "dict_add d nocolon: no error"
	}
	// dict_remove
	r := rule(es, none)
	w := append([]ent{}, es...)
	for _, k := range keys {
		w = del(w, k)
	}
	err := run("dict_remove", r, pkg, keys...)
	if g, w := state(r), wantState(w, none || len(w) == 0, false); err != nil || g != w {
		return fmt.Sprintf("dict_remove d %q on %s: %s (error %v), want %s", keys, base, g, err, w)
	}
	// dict_replace_if_equal
	k, v := kvs[0][0], kvs[0][1]
	r = rule(es, none)
	err = run("dict_replace_if_equal", r, pkg, k, old, v)
	w = append([]ent{}, es...)
	we := false
	if i := find(es, k); none {
	} else if i < 0 {
		we = true
	} else {
		cur := es[i].v
		if strings.HasPrefix(cur, "$") && cur[1:] == old || !strings.HasPrefix(cur, "$") && !strings.HasPrefix(cur, "[") && labels.Equal(cur, old, pkg) {
			w = set(w, k, short(unq(v), pkg))
		}
	}
	if g, w := state(r), wantState(w, none, false); (err != nil) != we || g != w {
		return fmt.Sprintf("dict_replace_if_equal d %s %s %s on %s: %s (error %v), want %s (error %v)", k, old, v, base, g, err, w, we)
	}
	// dict_list_add, on an absent key or a list
	if i := find(es, k); i < 0 || strings.HasPrefix(es[i].v, "[") {
		r = rule(es, none)
		cur := "[]"
		if i >= 0 {
			cur = es[i].v
		}
		items := []string{unq(v), "zz", unq(v)}
		e := mkVal(cur)
		for _, it := range items {
			e = edit.AddValueToList(e, pkg, &build.StringExpr{Value: short(it, pkg)}, true)
		}
		w := set(es, k, showVal(e))
		err := run("dict_list_add", r, pkg, append([]string{k}, items...)...)
		if g, w := state(r), wantState(w, false, none); err != nil || g != w {
			return fmt.Sprintf("dict_list_add d %s %q on %s: %s (error %v), want %s", k, items, base, g, err, w)
		}
	}
	// set_select: later values of a key replace earlier ones, in the order of the first occurrence
	r = rule(es, none)
	var flat []string
	var sel []ent
	for _, kv := range kvs {
		flat = append(flat, kv[0], kv[1])
		sel = set(sel, kv[0], short(unq(kv[1]), pkg))
	}
	err = run("set_select", r, pkg, flat...)
	c, ok := r.Attr("d").(*build.CallExpr)
	if err != nil || !ok || len(c.List) != 1 || showVal(c.List[0]) != showEnts(sel) || showVal(c.X) != "$select" {
		return fmt.Sprintf("set_select d %q on %s: %v (error %v), want a select over %s", flat, base, build.FormatString(r.Call), err, showEnts(sel))
	}
	return ""
}

func TestVerifDicts(t *testing.T) {
	r := vlib.New(t, "dicts", "setting, reading and deleting keys of dictionaries against a model")
	defer r.Done()
	keys := []string{"a", "b", "$K", "//c:x", "a:b", ""}
	vals := []string{"v", "$V", "[x,y]", "//p:t", ":t", "//p", "[]", "", "p"}
	var dicts [][]ent
	dicts = append(dicts, nil)
	for _, k := range keys {
		dicts = append(dicts, []ent{{k, "v"}})
		for _, k2 := range keys {
			dicts = append(dicts, []ent{{k, "$V"}, {k2, "w"}})
			for _, k3 := range keys {
				dicts = append(dicts, []ent{{k, "1"}, {k2, "[x]"}, {k3, "3"}})
			}
		}
	}
	n := vlib.N(8000, 300000)
	for i := 0; i < n && !r.Expired() && !r.TooMany(); i++ {
		var es []ent
		if i < len(dicts) {
			es = dicts[i]
		} else {
			for k := r.Rand.Intn(7); k > 0; k-- {
				es = append(es, ent{r.Pick(keys...), r.Pick(vals...)})
			}
		}
		for _, k := range keys {
			v := r.Pick(vals...)
			r.Case("dictionary functions", fmt.Sprintf("%s key %q value %q", showEnts(es), k, v), func() string { return checkFns(es, k, v) })
		}
		var kvs [][2]string
		for k := 1 + r.Rand.Intn(3); k > 0; k-- {
			kvs = append(kvs, [2]string{r.Pick("a", "b", "K", "new"), r.Pick("v", `"v"`, "//p:t", ":t", "x:y", "//p")})
		}
		none, old, pkg := r.Rand.Intn(6) == 0, r.Pick("v", "V", "//p:t", ":t", "//p", "x"), r.Pick("p", "q", "")
		if !none && len(es) == 0 && i < 2 {
			none = false
		}
		r.Case("dictionary commands", fmt.Sprintf("%s absent %v, pairs %q, old value %q, package %q", showEnts(es), none, kvs, old, pkg), func() string {
			return checkCmds(es, none, kvs, old, pkg)
		})
	}
}

//pkg: warn

// Bounded replay driver of P11: which findings are reported, fixed and suggested, against an independent model.
package warn_test

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/warn"
	vgen "github.com/bazelbuild/buildtools/zz_vgen"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

var exprType = reflect.TypeOf((*build.Expr)(nil)).Elem()

// nodes lists every expression of the tree, found by reflection.
func nodes(f *build.File) []build.Expr {
	var out []build.Expr
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if v.Type().Implements(exprType) {
				seen[v.Pointer()] = true
				out = append(out, v.Interface().(build.Expr))
			}
			rec(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					rec(v.Field(i))
				}
			}
			// an End holds the closing token, which may bear comments
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		}
	}
	rec(reflect.ValueOf(f))
	return out
}

type span struct {
	from, to int
	toks     []string
}

// scopes lists the line ranges that comments govern.
func scopes(f *build.File) []span {
	var out []span
	for _, e := range nodes(f) {
		c := e.Comment()
		if len(c.Before)+len(c.Suffix)+len(c.After) == 0 {
			continue
		}
		s, t := e.Span()
		sp := span{from: s.Line, to: t.Line}
		if len(c.Before) > 0 {
			sp.from = c.Before[0].Start.Line
		}
		if n := len(c.After); n > 0 {
			sp.to = c.After[n-1].Start.Line
		}
		for _, g := range [][]build.Comment{c.Before, c.Suffix, c.After} {
			for _, x := range g {
				sp.toks = append(sp.toks, x.Token)
			}
		}
		out = append(out, sp)
	}
	return out
}

var marker = regexp.MustCompile(`(?i)build(?:ifier|ozer): disable=([-_a-z0-9]*)`)

func names(tok, cat string) bool {
	for i := range tok {
		if m := marker.FindStringSubmatchIndex(tok[i:]); m != nil && m[0] == 0 && strings.EqualFold(tok[i+m[2]:i+m[3]], cat) {
			return true
		}
	}
	return false
}

func suppressed(sc []span, line int, cat string) bool {
	for _, s := range sc {
		if line < s.from || line > s.to {
			continue
		}
		for _, t := range s.toks {
			if names(t, cat) {
				return true
			}
		}
	}
	return false
}

// check runs the function behind a category.
func check(f *build.File, cat string) []*warn.LinterFinding {
	if fn, ok := warn.FileWarningMap[cat]; ok {
		return fn(f)
	}
	if fn, ok := warn.MultiFileWarningMap[cat]; ok {
		return fn(f, nil)
	}
	fn := warn.RuleWarningMap[cat]
	if f.Type != build.TypeBuild {
		return nil
	}
	var out []*warn.LinterFinding
	for _, s := range f.Stmt {
		if c, ok := s.(*build.Comprehension); ok {
			s = c.Body
		}
		if c, ok := s.(*build.CallExpr); ok {
			if w := fn(c, f.Pkg); w != nil {
				out = append(out, w)
			}
		}
	}
	return out
}

func line(cat string, start, end build.Position, msg string) string {
	return fmt.Sprintf("%d:%d-%d:%d %s: %s", start.Line, start.LineRune, end.Line, end.LineRune, cat, msg)
}

func inOrder(fs []*warn.Finding) string {
	var out []string
	for _, f := range fs {
		out = append(out, line(f.Category, f.Start, f.End, f.Message))
	}
	return strings.Join(out, "\n")
}

func got(fs []*warn.Finding) []string {
	var out []string
	for _, f := range fs {
		out = append(out, line(f.Category, f.Start, f.End, f.Message))
	}
	sort.Strings(out)
	return out
}

func parse(name, text string) *build.File {
	f := vgen.Parse(name, text)
	if f != nil {
		f.Pkg = "pkg"
		f.Label = name
	}
	return f
}

func diff(what string, g, w []string) string {
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return fmt.Sprintf("%s: got %q, want %q", what, g, w)
	}
	return ""
}

func judge(name, text string, cats []string) string {
	// the text as buildifier leaves it: formatting again changes nothing, whether the tree is asked or the text
	for i := 0; ; i++ {
		f := parse(name, text)
		if f == nil || i == 4 {
			return ""
		}
		s := string(build.Format(f))
		if s == text {
			break
		}
		text = s
	}
	f := parse(name, text)
	before := string(build.FormatWithoutRewriting(f))
	sorted := append([]string{}, cats...)
	sort.Strings(sorted)

	// what is reported
	model := parse(name, text)
	var want []string
	type sug struct{ key, text string }
	var sugs []sug
	for _, c := range sorted {
		sc := scopes(model)
		for i, w := range check(model, c) {
			if suppressed(sc, w.Start.Line, c) {
				continue
			}
			want = append(want, line(c, w.Start, w.End, w.Message))
			if len(w.Replacement) > 0 {
				m2 := parse(name, text)
				w2 := check(m2, c)
				if i >= len(w2) {
					return "the check is not deterministic: " + c
				}
				for _, r := range w2[i].Replacement {
					*r.Old = r.New
				}
				sugs = append(sugs, sug{line(c, w.Start, w.End, w.Message), string(build.Format(m2))})
			}
		}
	}
	sort.Strings(want)
	fs := warn.FileWarnings(f, cats, nil, warn.ModeWarn, nil)
	if m := diff("findings", got(fs), want); m != "" {
		return m
	}
	for i := 0; i < 3; i++ {
		if a, b := inOrder(fs), inOrder(warn.FileWarnings(f, cats, nil, warn.ModeWarn, nil)); a != b {
			return fmt.Sprintf("the same file is reported differently:\n%s\nthen\n%s", a, b)
		}
	}
	for i, x := range fs {
		if x.Replacement != nil {
			return "a replacement was given in warn mode"
		}
		if i > 0 && fs[i-1].Start.Line > x.Start.Line {
			return "findings are not ordered by line"
		}
	}
	if s := string(build.FormatWithoutRewriting(f)); s != before {
		return "reporting changed the file:\n" + s
	}

	// what is suggested
	fs = warn.FileWarnings(f, cats, nil, warn.ModeSuggest, nil)
	if m := diff("findings with suggestions", got(fs), want); m != "" {
		return m
	}
	if s := string(build.FormatWithoutRewriting(f)); s != before {
		return "suggesting changed the file:\n" + s
	}
	var gs, ws []string
	for _, x := range fs {
		if x.AutoFixable != (x.Replacement != nil) {
			return fmt.Sprintf("%s: auto-fixable %v, suggestion %v", x.Message, x.AutoFixable, x.Replacement != nil)
		}
		if r := x.Replacement; r != nil {
			if r.Start < 0 || r.Start > r.End || r.End > len(before) {
				return fmt.Sprintf("%s: replacement of bytes %d to %d of %d", x.Message, r.Start, r.End, len(before))
			}
			gs = append(gs, line(x.Category, x.Start, x.End, x.Message)+"\n"+before[:r.Start]+r.Content+before[r.End:])
		}
	}
	for _, s := range sugs {
		ws = append(ws, s.key+"\n"+s.text)
	}
	sort.Strings(gs)
	sort.Strings(ws)
	if m := diff("suggestions", gs, ws); m != "" {
		return m
	}

	// what is fixed
	model = parse(name, text)
	want = nil
	for _, c := range sorted {
		for _, w := range check(model, c) {
			if suppressed(scopes(model), w.Start.Line, c) {
				continue
			}
			if len(w.Replacement) == 0 {
				want = append(want, line(c, w.Start, w.End, w.Message))
				continue
			}
			for _, r := range w.Replacement {
				*r.Old = r.New
			}
		}
	}
	sort.Strings(want)
	fs = warn.FileWarnings(f, cats, nil, warn.ModeFix, nil)
	if m := diff("findings left", got(fs), want); m != "" {
		return m
	}
	if g, w := string(build.Format(f)), string(build.Format(model)); g != w {
		return fmt.Sprintf("fixed file\n%s\nwant\n%s", g, w)
	}
	return ""
}

var bzlSnips = []string{
	"load(\":a.bzl\", \"a\", b1 = \"b\")\n", "load(\":a.bzl\", \"a\")\n", "def f(x):\n    print(x)\n", "def _g(ctx, y = []):\n    z = 1\n    return 5 / 2\n",
	"x = 5 / 2\n", "d = {\n    \"b\": 1,\n    \"a\": 5 / 2,\n}\n", "attr.label(cfg = \"data\")\n", "r = rule(\n    implementation = _g,\n    attrs = {\"b\": attr.label_list(non_empty = True), \"a\": attr.label(cfg = \"data\", single_file = True)},\n)\n",
	"l = []\nl += [3]\n", "def h():\n    l = []\n    for i in range(3):\n        l += [i]\n        print(i / 2)\n    return l\n", "\"no effect\"\n", "1 + 2\n",
	"def k(ctx):\n    \"\"\"K.\n\n    Args:\n      foo: x\n    \"\"\"\n    ctx.file_action()\n    return struct(a = 1)\n    print(1)\n",
	"d2 = depset([1]) | depset([2])\n", "for_all = [a for a in depset([1])]\n", "dd = dict([(1, 2)]) + {}\n", "native.cc_library(name = \"x\")\n", "def m(name):\n    native.cc_binary(name = name)\n    native.cc_binary(name = \"y\")\n",
	"y = FileType([\".c\"])\n", "s = [c for c in \"abc\"]\n", "p = provider(fields = [])\n", "def n():\n    for i in []:\n        pass\n    return CcInfo()\n",
}
var buildSnips = []string{
	"load(\":a.bzl\", \"a\", \"b\")\n", "cc_library(\n    name = \"x\",\n    srcs = glob([\"a.c\"]),\n)\n", "cc_library(\n    \"x\",\n    \"y\",\n)\n", "my_rule(\"x\", name = \"y\")\n", "[my_rule(\"z\") for i in [1]]\n",
	"package(default_visibility = [])\n", "java_library(name = \"x\", licenses = [\"notice\"])\n", "py_binary(name = \"p\", x = 5 / 2)\n", "sh_test(name = \"s\")\n", "x = 7 / 2\n", "print(\"a\")\n", "foo(*args, **kwargs)\n",
	"f = {\n    \"z\": 1,\n    \"b\": 2,\n}\n", "native.existing_rule(\"x\")\n", "PACKAGE_NAME\n", "x = PACKAGE_NAME + REPOSITORY_NAME\n", "proto_library(name = \"x\")\n",
}

func label(set []string) string {
	if len(set) > 6 {
		return "(all categories)"
	}
	return strings.Join(set, ",")
}

func allCats() []string {
	var out []string
	for _, c := range warn.AllWarnings {
		if c != "skylark-docstring" && c != "skylark-comment" { // these two look for comments themselves
			out = append(out, c)
		}
	}
	return out
}

func TestVerifFindings(t *testing.T) {
	r := vlib.New(t, "findings", "Reported findings are those of the checks that no comment disables; suggestions and fixes apply exactly those.")
	defer r.Done()
	cats := allCats()
	g := &vgen.G{R: r.Rand}
	comment := func(found []string) string {
		c := r.Pick(cats...)
		if len(found) > 0 && r.Rand.Intn(4) > 0 {
			c = r.Pick(found...)
		}
		switch r.Rand.Intn(9) {
		case 0:
			c += r.Pick("s", "-x", "_1")
		case 1:
			if i := strings.LastIndex(c, "-"); i > 0 {
				c = c[:i]
			}
		case 2:
			c = strings.ToUpper(c)
		case 3:
			c += r.Pick(" because", ", foo", ".", "(x)", ";é") + r.Pick("", " buildifier: disable="+r.Pick(cats...))
		}
		return "# " + r.Pick("", "TODO ", "buildifier: disable=x ") + r.Pick("buildifier: disable=", "buildozer: disable=", "Buildifier: Disable=", "buildifier:disable=", "buildifier: disable= ") + c
	}
	n := vlib.N(2500, 40000)
	for i := 0; i < n && !r.Expired() && !r.TooMany(); i++ {
		name, sn := "f.bzl", bzlSnips
		if r.Rand.Intn(2) == 0 {
			name, sn = "BUILD", buildSnips
		}
		var sb strings.Builder
		if r.Rand.Intn(6) == 0 {
			if name == "BUILD" {
				sb.WriteString(g.BuildFile())
			} else {
				sb.WriteString(g.BzlFile())
			}
		}
		for k := 1 + r.Rand.Intn(4); k > 0; k-- {
			sb.WriteString(r.Pick(sn...))
			if r.Rand.Intn(4) == 0 {
				sb.WriteString("\n")
			}
		}
		text := sb.String()
		f := parse(name, text)
		if f == nil {
			continue
		}
		set := append([]string{}, cats...)
		if r.Rand.Intn(3) == 0 {
			set = nil
			for k := 1 + r.Rand.Intn(5); k > 0; k-- {
				set = append(set, r.Pick(cats...))
			}
		}
		var found []string
		lines := map[int]bool{}
		for _, c := range cats {
			for _, w := range check(f, c) {
				found = append(found, c)
				lines[w.Start.Line] = true
			}
		}
		// comments, mostly near findings
		ls := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		var out []string
		for j, l := range ls {
			p := 14
			if lines[j+1] || lines[j+2] || lines[j] {
				p = 4
			}
			if r.Rand.Intn(p) == 0 {
				out = append(out, l[:len(l)-len(strings.TrimLeft(l, " "))]+comment(found))
				if r.Rand.Intn(5) == 0 {
					out = append(out, "")
				}
			}
			if r.Rand.Intn(p) == 0 && l != "" && !strings.Contains(l, "\"\"\"") {
				l += "  " + comment(found)
			}
			out = append(out, l)
		}
		text = strings.Join(out, "\n") + "\n"
		if parse(name, text) == nil {
			continue
		}
		r.Case(fmt.Sprintf("%s/%d", name, len(found)%7), name+" "+label(set)+"\n"+text, func() string { return judge(name, text, set) })
	}
}

// Every category, disabled at every line near its finding.
func TestVerifDisableEach(t *testing.T) {
	r := vlib.New(t, "disable", "A comment disables exactly the category it names, where it stands.")
	defer r.Done()
	cats := allCats()
	for fi, sn := range [][]string{bzlSnips, buildSnips} {
		name := []string{"f.bzl", "BUILD"}[fi]
		for si, s := range sn {
			f := parse(name, s)
			if f == nil {
				continue
			}
			for _, c := range cats {
				if len(check(parse(name, s), c)) == 0 {
					continue
				}
				ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
				for j, l := range ls {
					for k, cm := range []string{c, c + "-more", strings.TrimSuffix(c, c[len(c)-1:]), c + " reason"} {
						for _, suffix := range []bool{false, true} {
							x := append([]string{}, ls...)
							if suffix {
								x[j] = l + "  # buildifier: disable=" + cm
							} else {
								x[j] = l[:len(l)-len(strings.TrimLeft(l, " "))] + "# buildozer: disable=" + cm + "\n" + l
							}
							text := strings.Join(x, "\n") + "\nother = 5 / 2\n"
							if parse(name, text) == nil {
								continue
							}
							r.Case(fmt.Sprintf("%s/%d/%s/%d", name, si, c, k), name+" "+c+"\n"+text, func() string { return judge(name, text, []string{c, "integer-division"}) })
						}
					}
					if r.TooMany() {
						return
					}
				}
			}
		}
	}
}

func TestVerifCategories(t *testing.T) {
	r := vlib.New(t, "categories", "The categories asked for are the defaults with and without the signed ones, or exactly the unsigned ones, each once.")
	defer r.Done()
	all := []string{"a", "a-b", "b", "c", "d"}
	def := []string{"a", "a-b", "c"}
	set := func(xs []string) string {
		ys := append([]string{}, xs...)
		sort.Strings(ys)
		return strings.Join(ys, " ")
	}
	try := func(text string) {
		r.Case(fmt.Sprint(strings.Count(text, ","), strings.ContainsAny(text, "+-")), text, func() string {
			s, a, d := text, append([]string{}, all...), append([]string{}, def...)
			got, err := config.ValidateWarnings(&s, &a, &d)
			if set(a) != set(all) || set(d) != set(def) || s != text {
				return "the arguments were changed"
			}
			want := map[string]bool{}
			bad := false
			switch text {
			case "", "default":
				for _, x := range def {
					want[x] = true
				}
			case "all":
				for _, x := range all {
					want[x] = true
				}
			default:
				raw, signed := false, false
				for _, x := range strings.Split(text, ",") {
					if x != "" && (x[0] == '+' || x[0] == '-') {
						signed = true
					} else {
						raw = true
						want[x] = true
					}
				}
				bad = raw && signed
				if !raw {
					for _, x := range def {
						want[x] = true
					}
					for _, sign := range "-+" {
						for _, x := range strings.Split(text, ",") {
							if rune(x[0]) == sign {
								want[x[1:]] = sign == '+'
							}
						}
					}
				}
			}
			if bad != (err != nil) {
				return fmt.Sprintf("error %v", err)
			}
			if bad {
				return ""
			}
			var w []string
			for x, in := range want {
				if in {
					w = append(w, x)
				}
			}
			if set(got) != set(w) {
				return fmt.Sprintf("got %s, want %s", set(got), set(w))
			}
			return ""
		})
	}
	for _, s := range []string{"", "default", "all"} {
		try(s)
	}
	words := []string{"a", "-a", "+a", "+b", "-b", "b", "+d", "-a-b", "", "+", "all"}
	for _, x := range words {
		try(x)
		for _, y := range words {
			try(x + "," + y)
			for _, z := range words {
				try(x + "," + y + "," + z)
			}
		}
	}
}

func TestVerifFlags(t *testing.T) {
	r := vlib.New(t, "flags", "Modes, formats and file kinds are accepted exactly in their documented combinations.")
	defer r.Done()
	for _, m := range []string{"", "check", "diff", "fix", "print_if_changed", "extra", "x", "Fix"} {
		for _, l := range []string{"", "off", "warn", "fix", "x"} {
			for _, d := range []bool{false, true} {
				for _, extra := range [][]string{nil, {"extra"}} {
					r.Case(fmt.Sprint(m, l, d), fmt.Sprint(m, " ", l, " ", d, extra), func() string {
						gm, gl, gd := m, l, d
						err := config.ValidateModes(&gm, &gl, &gd, extra...)
						em, el := m, l
						if d {
							em = "diff"
						} else if m == "" {
							em = "fix"
						}
						if l == "" {
							el = "off"
						}
						valid := map[string]bool{"check": true, "diff": true, "fix": true, "print_if_changed": true, "extra": extra != nil}
						ok := !(d && m != "") && valid[em] && (el == "off" || el == "warn" || el == "fix" && em == "fix")
						if ok != (err == nil) {
							return fmt.Sprintf("error %v, want ok %v", err, ok)
						}
						if ok && (gm != em || gl != el) {
							return fmt.Sprintf("mode %q lint %q, want %q %q", gm, gl, em, el)
						}
						return ""
					})
				}
			}
		}
		for _, fm := range []string{"", "text", "json", "x"} {
			r.Case("format", m+" "+fm, func() string {
				a, b := fm, m
				if ok := fm == "" || (fm == "text" || fm == "json") && m == "check"; ok != (config.ValidateFormat(&a, &b) == nil) {
					return fmt.Sprintf("want ok %v", ok)
				}
				return ""
			})
		}
	}
	for _, k := range []string{"build", "bzl", "workspace", "default", "module", "auto", "", "Build", "x"} {
		r.Case("type", k, func() string {
			a := k
			if ok := strings.Contains(" build bzl workspace default module auto ", " "+k+" ") && k != ""; ok != (config.ValidateInputType(&a) == nil) {
				return fmt.Sprintf("want ok %v", ok)
			}
			return ""
		})
	}
}

// Suggested replacements between any two short texts, through a check that replaces one string by another.
func TestVerifReplacement(t *testing.T) {
	r := vlib.New(t, "replacement", "A suggested replacement, applied to the formatted text, gives the formatted text of the fixed file.")
	defer r.Done()
	var to build.Expr
	warn.FileWarningMap["zz-verif"] = func(f *build.File) []*warn.LinterFinding {
		s, e := f.Stmt[0].Span()
		return []*warn.LinterFinding{{Start: s, End: e, Message: "m", Replacement: []warn.LinterReplacement{{Old: &f.Stmt[0], New: to}}}}
	}
	defer delete(warn.FileWarningMap, "zz-verif")
	n := vlib.N(5, 7)
	all := []string{""}
	for i := 0; len(all[i]) < n; i++ {
		all = append(all, all[i]+"a", all[i]+"b")
	}
	for _, a := range all {
		for _, b := range all {
			if r.Expired() || r.TooMany() {
				return
			}
			r.Case(fmt.Sprintf("%d/%d", len(a), len(b)), a+" -> "+b, func() string {
				f := parse("f.bzl", "x"+a+"\n")
				to = &build.Ident{Name: "x" + b}
				fs := warn.FileWarnings(f, []string{"zz-verif"}, nil, warn.ModeSuggest, nil)
				if len(fs) != 1 || fs[0].Replacement == nil {
					return "no suggestion"
				}
				old, rep := "x"+a+"\n", fs[0].Replacement
				if rep.Start < 0 || rep.Start > rep.End || rep.End > len(old) {
					return fmt.Sprintf("replaces bytes %d to %d of %d", rep.Start, rep.End, len(old))
				}
				if s := old[:rep.Start] + rep.Content + old[rep.End:]; s != "x"+b+"\n" {
					return fmt.Sprintf("gives %q", s)
				}
				return ""
			})
		}
	}
}

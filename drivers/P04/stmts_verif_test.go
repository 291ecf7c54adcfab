//pkg: edit

// Bounded replay driver of P04: statement-level edits against a list model of the file.
package edit_test

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	vgen "github.com/bazelbuild/buildtools/zz_vgen"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

// stmt is one top-level statement of the model.
type stmt struct {
	text  string
	kind  string // callee path of a call, "" otherwise
	name  string // explicit name
	plain bool   // the callee is a plain identifier
	args  int
	class string // call, comment, load, string, other
}

func call(kind string, args ...string) stmt {
	s := stmt{text: kind + "(" + strings.Join(args, ", ") + ")", kind: kind, plain: !strings.Contains(kind, "."), args: len(args), class: "call"}
	for _, a := range args {
		if strings.HasPrefix(a, "name = \"") {
			s.name = strings.Trim(a[len("name = "):], "\"")
		}
	}
	return s
}

var pool = []stmt{
	{text: "# a comment block", class: "comment"},
	{text: `load(":a.bzl", "a")`, class: "load"},
	{text: `"""doc"""`, class: "string"},
	{text: "X = 1", class: "other"},
	{text: "[foo(name = \"y\") for y in z]", class: "other"},
	call("package"),
	call("package", `default_visibility = ["//v"]`),
	call("workspace", `name = "w"`),
	call("foo"),
	call("foo", `name = "a"`),
	call("foo", `name = "dir"`),
	call("foo", `srcs = ["x"]`),
	call("bar", `name = "b"`, `srcs = ["x"]`),
	call("bar", `name = x`),
	call("native.foo", `name = "a"`),
	call("native.foo"),
	call("use_repo", "ext"),
	call("use_repo", "ext", `"r"`),
	call("a.package"),
}

type model struct {
	path string
	ss   []stmt
}

func (m model) text() string {
	var xs []string
	for _, s := range m.ss {
		xs = append(xs, s.text)
	}
	return strings.Join(xs, "\n\n") + "\n"
}

func (m model) file() *build.File {
	f, err := build.ParseBuild(m.path, []byte(m.text()))
	if err != nil {
		panic(err)
	}
	if len(f.Stmt) != len(m.ss) {
		panic(fmt.Sprintf("the model has %d statements, the file %d", len(m.ss), len(f.Stmt)))
	}
	f.Pkg, f.Label, f.WorkspaceRoot = "a/dir", "BUILD", "/w"
	if strings.HasSuffix(m.path, "MODULE.bazel") {
		f.Type = build.TypeModule
	}
	return f
}

// implicit is the name of the only unnamed call of a file in a directory, when no call takes it explicitly.
func (m model) implicit() string {
	dir := path.Dir(m.path)
	if dir == "." {
		return ""
	}
	n := 0
	for _, s := range m.ss {
		if s.class != "call" {
			continue
		}
		if s.name == path.Base(dir) {
			return ""
		}
		if s.name == "" {
			n++
		}
	}
	if n == 1 {
		return path.Base(dir)
	}
	return ""
}

func (m model) nameOf(s stmt) string {
	if s.name != "" {
		return s.name
	}
	if s.kind == "package" {
		return ""
	}
	return m.implicit()
}

func (m model) show() string { return fmt.Sprintf("%s:\n%s", m.path, m.text()) }

func meta(f *build.File) string {
	return fmt.Sprintf("%q %q %q %q %v %v", f.Path, f.Pkg, f.Label, f.WorkspaceRoot, f.Type, f.Comments)
}

func list(es []build.Expr) string {
	var xs []string
	for _, e := range es {
		xs = append(xs, vgen.Dump(e, vgen.Opt{Comments: true}))
	}
	return strings.Join(xs, "\n")
}

// sub runs a filtering edit and compares with the kept statements.
func (m model) sub(what string, keep func(s stmt) bool, run func(f *build.File) *build.File) string {
	f := m.file()
	var want []build.Expr
	for i, s := range m.ss {
		if keep(s) {
			want = append(want, f.Stmt[i])
		}
	}
	before, all := list(want), meta(f)
	g := run(f)
	if len(g.Stmt) != len(want) {
		return fmt.Sprintf("%s left %d statements, want %d:\n%s", what, len(g.Stmt), len(want), build.Format(g))
	}
	for i := range want {
		if want[i] != g.Stmt[i] {
			return fmt.Sprintf("%s: statement %d is not the one it should be:\n%s", what, i, build.Format(g))
		}
	}
	if list(g.Stmt) != before {
		return what + " changed a statement it kept"
	}
	if meta(g) != all {
		return fmt.Sprintf("%s: the file is now %s, was %s", what, meta(g), all)
	}
	return ""
}

func (m model) check(name, kind string) string {
	if s := m.sub("DeleteRuleByName "+name, func(s stmt) bool { return s.class != "call" || m.nameOf(s) != name }, func(f *build.File) *build.File { return edit.DeleteRuleByName(f, name) }); s != "" {
		return s
	}
	if s := m.sub("DeleteRuleByKind "+kind, func(s stmt) bool { return s.class != "call" || !s.plain || s.kind != kind }, func(f *build.File) *build.File { return edit.DeleteRuleByKind(f, kind) }); s != "" {
		return s
	}
	for _, nm := range []string{"", name} {
		for _, kd := range []string{"", kind} {
			n := -1
			if s := m.sub(fmt.Sprintf("DelRules(%q, %q)", kd, nm), func(s stmt) bool {
				return s.class != "call" || kd != "" && s.kind != kd || nm != "" && m.nameOf(s) != nm
			}, func(f *build.File) *build.File { n = f.DelRules(kd, nm) + len(f.Stmt); return f }); s != "" {
				return s
			}
			if n != len(m.ss) {
				return fmt.Sprintf("DelRules(%q, %q) does not report how many it removed", kd, nm)
			}
		}
	}
	if s := m.sub("RemoveEmptyPackage", func(s stmt) bool { return s.kind != "package" || s.args != 0 }, edit.RemoveEmptyPackage); s != "" {
		return s
	}
	module := strings.HasSuffix(m.path, "MODULE.bazel")
	if s := m.sub("RemoveEmptyUseRepoCalls", func(s stmt) bool { return !module || s.kind != "use_repo" || s.args != 1 }, edit.RemoveEmptyUseRepoCalls); s != "" {
		return s
	}
	for i, s := range m.ss {
		if s.class != "call" {
			continue
		}
		j := 0
		if r := m.sub("DeleteRule", func(stmt) bool { j++; return j != i+1 }, func(f *build.File) *build.File {
			return edit.DeleteRule(f, &build.Rule{Call: f.Stmt[i].(*build.CallExpr)})
		}); r != "" {
			return r
		}
	}
	// lookups
	f := m.file()
	wi := -1
	for i, s := range m.ss {
		if s.class == "call" && m.nameOf(s) == name {
			wi = i
			break
		}
	}
	if i, r := edit.IndexOfRuleByName(f, name); i != wi || (r == nil) != (wi < 0) || r != nil && build.Expr(r.Call) != f.Stmt[wi] {
		return fmt.Sprintf("IndexOfRuleByName(%q) = %d, want %d", name, i, wi)
	} else if r2 := edit.FindRuleByName(f, name); (r2 == nil) != (r == nil) || r != nil && r2.Call != r.Call {
		return fmt.Sprintf("FindRuleByName(%q) is not statement %d", name, wi)
	} else if r != nil && r.Name() != name {
		return fmt.Sprintf("the rule found for %q calls itself %q", name, r.Name())
	}
	for i, s := range m.ss {
		start, _ := f.Stmt[i].Span()
		if s.class != "call" || m.implicit() != "" && strings.HasPrefix(m.implicit(), "%") {
			continue
		}
		if j, _ := edit.IndexOfRuleByName(f, fmt.Sprintf("%%%d", start.Line)); j != i {
			return fmt.Sprintf("IndexOfRuleByName(%%%d) = %d, want %d", start.Line, j, i)
		}
	}
	wp := -1
	for i, s := range m.ss {
		if s.kind == "package" {
			wp = i
			break
		}
	}
	if r := edit.ExistingPackageDeclaration(f); (r == nil) != (wp < 0) || r != nil && build.Expr(r.Call) != f.Stmt[wp] {
		return "ExistingPackageDeclaration is not the first package call"
	}
	// insertion
	if s := m.insert("PackageDeclaration", func(f *build.File, _ build.Expr) []build.Expr { edit.PackageDeclaration(f); return f.Stmt }, wp, m.head()); s != "" {
		return s
	}
	last, end := -1, len(m.ss)
	for i, s := range m.ss {
		if s.plain && s.kind == kind {
			last = i
		}
	}
	for end > 0 && m.ss[end-1].class == "comment" {
		end--
	}
	if g := edit.IndexOfLast(f.Stmt, kind); g != last {
		return fmt.Sprintf("IndexOfLast(%q) = %d, want %d", kind, g, last)
	}
	at := last + 1
	if last < 0 {
		at = end
	}
	if s := m.insert("InsertAfterLastOfSameKind", func(f *build.File, e build.Expr) []build.Expr {
		return edit.InsertAfterLastOfSameKind(f.Stmt, e.(*build.CallExpr))
	}, -1, at, kind); s != "" {
		return s
	}
	if s := m.insert("InsertAtEnd", func(f *build.File, e build.Expr) []build.Expr { return edit.InsertAtEnd(f.Stmt, e) }, -1, end); s != "" {
		return s
	}
	for i := -1; i < len(m.ss); i++ {
		if s := m.insert("InsertAfter", func(f *build.File, e build.Expr) []build.Expr { return edit.InsertAfter(i, f.Stmt, e) }, -1, i+1); s != "" {
			return s
		}
	}
	return ""
}

// head is where a package declaration goes: behind the leading comments, loads, strings and workspace calls.
func (m model) head() int {
	for i, s := range m.ss {
		if s.class != "comment" && s.class != "load" && s.class != "string" && !(s.class == "call" && s.kind == "workspace") {
			return i
		}
	}
	return len(m.ss)
}

// insert runs an inserting edit; exists >= 0 means that nothing may happen.
func (m model) insert(what string, run func(f *build.File, e build.Expr) []build.Expr, exists, at int, kind ...string) string {
	f := m.file()
	old := append([]build.Expr{}, f.Stmt...)
	before := list(old)
	k := "newkind"
	if len(kind) > 0 && !strings.Contains(kind[0], ".") && kind[0] != "" {
		k = kind[0]
	}
	e := build.Expr(&build.CallExpr{X: &build.Ident{Name: k}})
	got := run(f, e)
	if exists >= 0 {
		if len(got) != len(old) {
			return what + " added a statement"
		}
		for i := range old {
			if old[i] != got[i] {
				return what + " moved a statement"
			}
		}
		return ""
	}
	if len(got) != len(old)+1 {
		return fmt.Sprintf("%s: %d statements, want %d", what, len(got), len(old)+1)
	}
	for i := range got {
		switch {
		case i < at && got[i] != old[i], i > at && got[i] != old[i-1]:
			return fmt.Sprintf("%s: statement %d is not the one it should be (insertion at %d)", what, i, at)
		case i == at && what != "PackageDeclaration" && got[i] != e:
			return fmt.Sprintf("%s: not inserted at %d", what, at)
		case i == at && what == "PackageDeclaration":
			c, ok := got[i].(*build.CallExpr)
			if !ok || len(c.List) != 0 || c.X.(*build.Ident).Name != "package" {
				return what + ": no package() at the place it belongs"
			}
		}
	}
	if list(old) != before {
		return what + " changed a statement"
	}
	return ""
}

func TestVerifStmts(t *testing.T) {
	r := vlib.New(t, "stmts", "files of random statements out of 19 (comments, loads, strings, package, workspace, named and unnamed calls, dotted calls, use_repo) in 5 places; every file of at most 2 statements; non-trivial: not seen before")
	defer r.Done()
	paths := []string{"BUILD", "a/dir/BUILD", "dir/BUILD.bazel", "MODULE.bazel", "/w/dir/BUILD"}
	names := []string{"a", "b", "dir", "y", "zz"}
	kinds := []string{"foo", "bar", "native.foo", "package", "use_repo", "workspace"}
	one := func(ss ...stmt) {
		m := model{r.Pick(paths...), append([]stmt{}, ss...)}
		n, k := r.Pick(names...), r.Pick(kinds...)
		r.Case("stmts", fmt.Sprintf("%s with name %s, kind %s", m.show(), n, k), func() string { return m.check(n, k) })
	}
	one()
	for _, a := range pool {
		one(a)
		for _, b := range pool {
			for i := 0; i < 4; i++ {
				one(a, b)
			}
		}
	}
	for i := 0; i < vlib.N(6000, 60000) && !r.Expired() && !r.TooMany(); i++ {
		var ss []stmt
		for n := r.Rand.Intn(7); n >= 0; n-- {
			ss = append(ss, pool[r.Rand.Intn(len(pool))])
		}
		one(ss...)
	}
}

//pkg: edit/bzlmod

// Bounded replay driver of P08: module extension usages against a model.
package bzlmod_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/edit/bzlmod"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

type lab struct{ repo, pkg, target string } // repo "" is the module itself

func (l lab) texts(app string) []string {
	s := "//" + l.pkg + ":" + l.target
	if l.repo != "" {
		return []string{"@" + l.repo + s}
	}
	out := []string{s, "@" + s}
	if app != "" {
		out = append(out, "@"+app+s)
	}
	if l.pkg == "" {
		out = append(out, ":"+l.target)
	}
	return out
}

// st: 'm' module, 'e' use_extension, 't' tag, 'u' use_repo, 'x' anything else
type st struct {
	kind     byte
	text     string
	proxy    string
	ext      lab
	name     string
	dev, iso bool
	args     []arg // of use_repo, without the proxy
}

type arg struct{ key, repo string }

func (a arg) String() string {
	if a.key != "" {
		return a.key + " = \"" + a.repo + "\""
	}
	return "\"" + a.repo + "\""
}

func useRepoText(proxy string, args []arg) string {
	s := "use_repo(" + proxy
	for _, a := range args {
		s += ", " + a.String()
	}
	return s + ")"
}

type model struct {
	app     string
	oneLine bool
	stmts   []st
}

func (m *model) text() string {
	sep := "\n"
	if m.oneLine {
		sep = "; "
	}
	var out []string
	for _, s := range m.stmts {
		out = append(out, s.text)
	}
	return strings.Join(out, sep) + "\n"
}

var exts = []lab{{"", "", "e.bzl"}, {"", "p", "e.bzl"}, {"other", "", "e.bzl"}, {"", "", "f.bzl"}}
var proxyNames = []string{"a", "b", "c"}
var repoNames = []string{"r1", "r2", "r3", "r4"}

func gen(r *vlib.R) *model {
	m := &model{oneLine: r.Rand.Intn(4) == 0}
	if r.Rand.Intn(4) != 0 {
		m.app = []string{"mod", "alias"}[r.Rand.Intn(2)]
		t := "module(name = \"mod\")"
		if m.app == "alias" {
			t = "module(name = \"mod\", repo_name = \"alias\")"
		}
		if r.Rand.Intn(6) == 0 {
			t = "module(repo_name = \"" + m.app + "\", version = \"1\")"
		}
		m.stmts = append(m.stmts, st{kind: 'm', text: t})
	}
	n := r.Rand.Intn(8)
	for i := 0; i < n; i++ {
		s := st{proxy: proxyNames[r.Rand.Intn(len(proxyNames))]}
		switch r.Rand.Intn(8) {
		case 0, 1, 2:
			s.kind = 'e'
			s.ext = exts[r.Rand.Intn(len(exts))]
			if r.Rand.Intn(2) == 0 {
				s.ext = exts[0]
			}
			ts := s.ext.texts(m.app)
			s.name = []string{"x", "x", "y"}[r.Rand.Intn(3)]
			opts := ""
			add := func(key string) bool {
				switch r.Rand.Intn(6) {
				case 0, 1:
					opts += ", " + key + " = True"
					return true
				case 2:
					opts += ", " + key + " = False"
				case 3:
					opts += ", " + key + " = FLAG"
					return true
				}
				return false
			}
			if r.Rand.Intn(2) == 0 {
				s.dev = add("dev_dependency")
				if r.Rand.Intn(2) == 0 {
					s.iso = add("isolate")
				}
			} else if r.Rand.Intn(2) == 0 {
				s.iso = add("isolate")
				s.dev = add("dev_dependency")
			}
			s.text = s.proxy + " = use_extension(\"" + ts[r.Rand.Intn(len(ts))] + "\", \"" + s.name + "\"" + opts + ")"
		case 3, 4:
			s.kind = 't'
			s.text = s.proxy + ".tag(v = \"" + fmt.Sprint(i) + "\")"
		case 5, 6:
			s.kind = 'u'
			for _, x := range repoNames {
				switch r.Rand.Intn(5) {
				case 0, 1:
					s.args = append(s.args, arg{"", x})
				case 2:
					s.args = append(s.args, arg{"k" + x, x})
				}
			}
			s.text = useRepoText(s.proxy, s.args)
		default:
			s.kind = 'x'
			s.proxy = ""
			s.text = []string{"bazel_dep(name = \"d\")", "use_repo()", "use_repo(\"a\")", "a = 1", "a = use_extension(\"//:e.bzl\")", "tag(a)", "a.b.tag()", "a = rule(\"//:e.bzl\", \"x\")", "use_repo(a.b)", "a.x = use_extension(\"//:e.bzl\", \"x\")"}[r.Rand.Intn(10)]
		}
		m.stmts = append(m.stmts, s)
	}
	return m
}

func (m *model) proxies(l lab, name string, dev bool) []string {
	var out []string
	for _, s := range m.stmts {
		if s.kind == 'e' && s.ext == l && s.name == name && s.dev == dev && !s.iso {
			out = append(out, s.proxy)
		}
	}
	return out
}

func (m *model) allProxies(p string) []string {
	for _, s := range m.stmts {
		if s.kind == 'e' && s.proxy == p {
			if s.iso {
				return []string{p}
			}
			return m.proxies(s.ext, s.name, s.dev)
		}
	}
	return nil
}

func in(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (m *model) useRepos(ps []string) []int {
	var out []int
	for i, s := range m.stmts {
		if s.kind == 'u' && in(ps, s.proxy) {
			out = append(out, i)
		}
	}
	return out
}

func (m *model) lastUse(ps []string) int {
	n := -1
	for i, s := range m.stmts {
		if (s.kind == 'e' || s.kind == 't') && in(ps, s.proxy) {
			n = i
		}
	}
	return n
}

func (m *model) clone() *model {
	c := &model{app: m.app, oneLine: m.oneLine}
	for _, s := range m.stmts {
		s.args = append([]arg{}, s.args...)
		c.stmts = append(c.stmts, s)
	}
	return c
}

func (m *model) refresh() {
	for i, s := range m.stmts {
		if s.kind == 'u' {
			m.stmts[i].text = useRepoText(s.proxy, s.args)
		}
	}
}

func (m *model) add(calls []int, repos []string) {
	if len(repos) == 0 {
		return
	}
	seen := map[string]bool{}
	for _, c := range calls {
		for _, a := range m.stmts[c].args {
			seen[a.repo] = true
		}
	}
	last := &m.stmts[calls[len(calls)-1]]
	for _, x := range repos {
		if !seen[x] {
			seen[x] = true
			last.args = append(last.args, arg{"", x})
		}
	}
	m.refresh()
}

func (m *model) remove(calls []int, repos []string) {
	for _, c := range calls {
		var kept []arg
		for _, a := range m.stmts[c].args {
			if !in(repos, a.repo) {
				kept = append(kept, a)
			}
		}
		m.stmts[c].args = kept
	}
	m.refresh()
}

func parse(text string) *build.File {
	f, err := build.ParseModule("MODULE.bazel", []byte(text))
	if err != nil {
		panic(fmt.Sprintf("%v in %s", err, text))
	}
	return f
}

// show renders statements one by one, so that nothing depends on the layout or order of arguments chosen by the printer.
func show(ss []build.Expr) string {
	var sb strings.Builder
	for _, s := range ss {
		if c, ok := s.(*build.CallExpr); ok {
			sb.WriteString(build.FormatString(c.X) + "(")
			for i, a := range c.List {
				if i > 0 {
					sb.WriteString(", ")
				}
				sb.WriteString(build.FormatString(a))
			}
			sb.WriteString(")\n")
			continue
		}
		sb.WriteString(strings.Join(strings.Fields(build.FormatString(s)), " ") + "\n")
	}
	return sb.String()
}

func want(m *model) string { return show(parse(m.text()).Stmt) }

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pickRepos(r *vlib.R) []string {
	var out []string
	for i := r.Rand.Intn(5); i > 0; i-- {
		out = append(out, append(repoNames, "n1", "n2")[r.Rand.Intn(6)])
	}
	return out
}

func pickProxies(r *vlib.R) []string {
	var out []string
	for _, p := range proxyNames {
		if r.Rand.Intn(2) == 0 {
			out = append(out, p)
		}
	}
	return out
}

// TestVerifLookup: proxies and use_repo calls.
func TestVerifLookup(t *testing.T) {
	r := vlib.New(t, "lookup", "the proxies of an extension and their use_repo calls are the ones the module file declares")
	defer r.Done()
	for n := 0; n < vlib.N(6000, 40000) && !r.Expired() && !r.TooMany(); n++ {
		m := gen(r)
		l, name, dev := exts[r.Rand.Intn(len(exts))], []string{"x", "y"}[r.Rand.Intn(2)], r.Rand.Intn(3) == 0
		ts := l.texts(m.app)
		text, p, ps := ts[r.Rand.Intn(len(ts))], proxyNames[r.Rand.Intn(3)], pickProxies(r)
		r.Case("lookup", fmt.Sprintf("%s\nextension %s %s dev=%v; proxy %s; proxies %v", m.text(), text, name, dev, p, ps), func() string {
			f := parse(m.text())
			before := show(f.Stmt)
			if g, w := bzlmod.Proxies(f, text, name, dev), m.proxies(l, name, dev); !eq(g, w) {
				return fmt.Sprintf("Proxies gave %v, want %v", g, w)
			}
			if g, w := bzlmod.AllProxies(f, p), m.allProxies(p); !eq(g, w) {
				return fmt.Sprintf("AllProxies gave %v, want %v", g, w)
			}
			g, w := bzlmod.UseRepos(f, ps), m.useRepos(ps)
			if len(g) != len(w) {
				return fmt.Sprintf("UseRepos gave %d calls, want %d", len(g), len(w))
			}
			for i := range g {
				if build.Expr(g[i]) != f.Stmt[w[i]] {
					return fmt.Sprintf("UseRepos gave another call than statement %d", w[i])
				}
			}
			if show(f.Stmt) != before {
				return "the file was changed by a lookup"
			}
			return ""
		})
	}
}

// TestVerifEdits: new use_repo calls, adding and removing repositories.
func TestVerifEdits(t *testing.T) {
	r := vlib.New(t, "edits", "adding and removing repositories changes exactly the named arguments")
	defer r.Done()
	for n := 0; n < vlib.N(6000, 40000) && !r.Expired() && !r.TooMany(); n++ {
		m := gen(r)
		ps, repos := pickProxies(r), pickRepos(r)
		spare, reverse := r.Rand.Intn(2) == 0, r.Rand.Intn(2) == 0
		calls := m.useRepos(ps)
		in := fmt.Sprintf("%s\nproxies %v repos %v", m.text(), ps, repos)
		r.Case("new", in, func() string {
			f := parse(m.text())
			if spare { // room behind the statements
				f.Stmt = append(make([]build.Expr, 0, len(f.Stmt)+5), f.Stmt...)
			}
			f.Pkg, f.Label, f.WorkspaceRoot = "pkg", "label", "root"
			before := show(f.Stmt)
			g, call := bzlmod.NewUseRepo(f, ps)
			if show(f.Stmt) != before {
				return "NewUseRepo changed the given file to " + show(f.Stmt)
			}
			i := m.lastUse(ps)
			if i < 0 {
				if g != f || call != nil {
					return "NewUseRepo made a call for proxies that are not used"
				}
				return ""
			}
			w := m.clone()
			w.stmts = append(append(append([]st{}, m.stmts[:i+1]...), st{kind: 'u', proxy: m.stmts[i].proxy, text: useRepoText(m.stmts[i].proxy, nil)}), m.stmts[i+1:]...)
			if show(g.Stmt) != want(w) {
				return fmt.Sprintf("NewUseRepo gave\n%s\nwant\n%s", show(g.Stmt), want(w))
			}
			if g.Stmt[i+1] != build.Expr(call) || g.Path != f.Path || g.Pkg != f.Pkg || g.Label != f.Label || g.WorkspaceRoot != f.WorkspaceRoot || g.Type != build.TypeModule {
				return "NewUseRepo does not return its call, or loses file information"
			}
			return ""
		})
		if len(calls) == 0 {
			continue
		}
		order := func(f *build.File) []*build.CallExpr {
			cs := bzlmod.UseRepos(f, ps)
			if reverse {
				for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
					cs[i], cs[j] = cs[j], cs[i]
				}
			}
			return cs
		}
		r.Case("add", in, func() string {
			f := parse(m.text())
			bzlmod.AddRepoUsages(order(f), repos...)
			w := m.clone()
			w.add(calls, repos)
			if show(f.Stmt) != want(w) {
				return fmt.Sprintf("AddRepoUsages gave\n%s\nwant\n%s", show(f.Stmt), want(w))
			}
			return ""
		})
		r.Case("remove", in, func() string {
			f := parse(m.text())
			bzlmod.RemoveRepoUsages(order(f), repos...)
			w := m.clone()
			w.remove(calls, repos)
			if show(f.Stmt) != want(w) {
				return fmt.Sprintf("RemoveRepoUsages gave\n%s\nwant\n%s", show(f.Stmt), want(w))
			}
			return ""
		})
	}
}

// TestVerifCommands: use_repo_add and use_repo_remove.
func TestVerifCommands(t *testing.T) {
	r := vlib.New(t, "commands", "use_repo_add and use_repo_remove follow the model for both ways of naming the extension")
	defer r.Done()
	for n := 0; n < vlib.N(6000, 40000) && !r.Expired() && !r.TooMany(); n++ {
		m := gen(r)
		repos := pickRepos(r)
		mode := []string{"use_repo_add", "use_repo_remove"}[r.Rand.Intn(2)]
		var args, ps []string
		if r.Rand.Intn(2) == 0 {
			p := proxyNames[r.Rand.Intn(3)]
			args, ps = []string{p}, m.allProxies(p)
		} else {
			l, name, dev := exts[r.Rand.Intn(len(exts))], []string{"x", "y"}[r.Rand.Intn(2)], r.Rand.Intn(3) == 0
			var ts []string
			for _, s := range l.texts(m.app) {
				if !strings.HasPrefix(s, ":") { // the command takes absolute labels
					ts = append(ts, s)
				}
			}
			args, ps = []string{ts[r.Rand.Intn(len(ts))], name}, m.proxies(l, name, dev)
			if dev {
				args = append([]string{"dev"}, args...)
			}
		}
		args = append(args, repos...)
		if len(args) < 2 {
			continue
		}
		if args[0] == "dev" && r.Rand.Intn(10) == 0 {
			args, ps = args[:2], nil // no extension name
		}
		in := fmt.Sprintf("%s\n%s %s", m.text(), mode, strings.Join(args, " "))
		r.Case(mode, in, func() string {
			f := parse(m.text())
			g, err := edit.AllCommands[mode].Fn(edit.NewOpts(), edit.CmdEnvironment{File: f, Args: append([]string{}, args...)})
			if len(ps) == 0 {
				if err == nil {
					return "no error for an extension that is not used"
				}
				return ""
			}
			if err != nil {
				return "error: " + err.Error()
			}
			w := m.clone()
			calls := w.useRepos(ps)
			if len(calls) == 0 {
				i := w.lastUse(ps)
				w.stmts = append(append(append([]st{}, w.stmts[:i+1]...), st{kind: 'u', proxy: w.stmts[i].proxy, text: useRepoText(w.stmts[i].proxy, nil)}), w.stmts[i+1:]...)
				calls = []int{i + 1}
			}
			if mode == "use_repo_add" {
				w.add(calls, repos)
			} else {
				w.remove(calls, repos)
			}
			if show(g.Stmt) != want(w) {
				return fmt.Sprintf("gave\n%s\nwant\n%s", show(g.Stmt), want(w))
			}
			return ""
		})
	}
}

// TestVerifMapping: apparent names through includes.
func TestVerifMapping(t *testing.T) {
	r := vlib.New(t, "mapping", "the apparent name of a module is its repo_name or name in the file that declares it, through any includes")
	defer r.Done()
	for n := 0; n < vlib.N(3000, 20000) && !r.Expired() && !r.TooMany(); n++ {
		names := []string{"MODULE.bazel", "a.MODULE.bazel", "d/b.MODULE.bazel", "d/e/c.MODULE.bazel"}
		labels := []string{"", "//:a.MODULE.bazel", "//d:b.MODULE.bazel", "//d/e:c.MODULE.bazel"}
		files := map[string]string{}
		inc := make([][]int, len(names))
		deps := make([]map[string]string, len(names))
		show := ""
		for i := range names {
			deps[i] = map[string]string{}
			var lines []string
			for _, k := range []string{"m1", "m2", "m3"} {
				if r.Rand.Intn(3) != 0 {
					continue
				}
				x := fmt.Sprintf("%s_%d", k, i) // a module is declared once
				kind := []string{"module", "bazel_dep", "other"}[r.Rand.Intn(3)]
				l := kind + "(name = \"" + x + "\")"
				v := x
				if r.Rand.Intn(2) == 0 {
					v = "r_" + x
					l = kind + "(name = \"" + x + "\", repo_name = \"" + v + "\")"
				}
				if kind != "other" {
					deps[i][x] = v
				}
				lines = append(lines, l)
			}
			for j := 1; j < len(names); j++ {
				if r.Rand.Intn(3) == 0 {
					inc[i] = append(inc[i], j)
					lines = append(lines, "include(\""+labels[j]+"\")")
				}
			}
			if r.Rand.Intn(5) == 0 {
				lines = append(lines, "include(\"//:a.MODULE.bazel\", 1)", "include(x)")
			}
			files[names[i]] = strings.Join(lines, "\n") + "\n"
			show += names[i] + ":\n" + files[names[i]]
		}
		w := map[string]string{}
		seen := map[int]bool{}
		var visit func(i int)
		visit = func(i int) {
			if seen[i] {
				return
			}
			seen[i] = true
			for k, v := range deps[i] {
				w[k] = v
			}
			for _, j := range inc[i] {
				visit(j)
			}
		}
		visit(0)
		r.Case("mapping", show, func() string {
			reads := map[string]int{}
			fn := bzlmod.ExtractModuleToApparentNameMapping(func(p string) *build.File {
				reads[p]++
				t, ok := files[p]
				if !ok {
					return nil
				}
				f, err := build.ParseModule(p, []byte(t))
				if err != nil {
					panic(err)
				}
				return f
			})
			for p, c := range reads {
				if _, ok := files[p]; !ok || c > 1 {
					return fmt.Sprintf("%s read %d times", p, c)
				}
			}
			for i := range names {
				for _, k := range []string{"m1", "m2", "m3"} {
					x := fmt.Sprintf("%s_%d", k, i)
					if g := fn(x); g != w[x] {
						return fmt.Sprintf("%s is %q, want %q", x, g, w[x])
					}
				}
			}
			return ""
		})
	}
}

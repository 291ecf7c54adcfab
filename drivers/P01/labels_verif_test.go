//pkg: labels

// Bounded replay driver of P01: the contracts of package labels as runtime oracles, on every short string
// over the delimiters plus random longer ones.
package labels_test

import (
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/labels"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

func fmtLabel(r, p, t string) string {
	s := ""
	if r != "" {
		s = "@" + r
	}
	if r == t && p == "" {
		return s
	}
	s += "//" + p
	if t != path.Base(p) {
		s += ":" + t
	}
	return s
}

func wf(r, p, t string) bool {
	return !strings.Contains(r, "/") && !strings.HasPrefix(r, "@") && !strings.Contains(p, ":") && !strings.HasPrefix(p, "/") && t != ""
}

func checkLabel(r, p, t, pkg string) string {
	l := labels.Label{Repository: r, Package: p, Target: t}
	s := l.Format()
	if s != fmtLabel(r, p, t) {
		return fmt.Sprintf("Format() = %q, want %q", s, fmtLabel(r, p, t))
	}
	rel := l.FormatRelative(pkg)
	want := s
	if r == "" && p == pkg {
		want = ":" + t
	}
	if rel != want {
		return fmt.Sprintf("FormatRelative(%q) = %q, want %q", pkg, rel, want)
	}
	if !wf(r, p, t) || s == "" {
		return ""
	}
	if g := labels.Parse(s); g != l {
		return fmt.Sprintf("Parse(Format(%#v)) = Parse(%q) = %#v", l, s, g)
	}
	long := "//" + p + ":" + t
	if r != "" {
		long = "@" + r + long
	}
	if g := labels.Parse(long); g != l {
		return fmt.Sprintf("Parse(%q) = %#v, want %#v", long, g, l)
	}
	if g := labels.ParseRelative(long, pkg); g != l {
		return fmt.Sprintf("ParseRelative(%q, %q) = %#v, want %#v", long, pkg, g, l)
	}
	for _, in := range []string{long, s} {
		if g := labels.Shorten(in, pkg); g != want {
			return fmt.Sprintf("Shorten(%q, %q) = %q, want %q", in, pkg, g, want)
		}
		if !labels.Equal(in, long, pkg) || !labels.Equal(long, in, pkg) {
			return fmt.Sprintf("Equal(%q, %q, %q) = false", in, long, pkg)
		}
	}
	if r == "" && !strings.HasPrefix(t, ":") {
		if g := labels.ParseRelative(":"+t, p); g != l {
			return fmt.Sprintf("ParseRelative(%q, %q) = %#v, want %#v", ":"+t, p, g, l)
		}
		if wantEq := p == pkg; labels.Equal(":"+t, long, pkg) != wantEq {
			return fmt.Sprintf("Equal(%q, %q, %q) = %v", ":"+t, long, pkg, !wantEq)
		}
		if !strings.HasPrefix(t, "@") && !strings.HasPrefix(t, "//") {
			if g := labels.ParseRelative(t, p); g != l {
				return fmt.Sprintf("ParseRelative(%q, %q) = %#v, want %#v", t, p, g, l)
			}
		}
	}
	return ""
}

func checkText(s, pkg string) string {
	l := labels.Parse(s) // must not panic
	if !strings.HasPrefix(s, "@") && !strings.HasPrefix(s, "//") {
		if g := labels.Shorten(s, pkg); g != s {
			return fmt.Sprintf("Shorten(%q, %q) = %q, want it unchanged", s, pkg, g)
		}
		if !strings.Contains(s, ":") && l != (labels.Label{Target: s}) {
			return fmt.Sprintf("Parse(%q) = %#v", s, l)
		}
	}
	if strings.HasPrefix(s, "//") && !strings.HasPrefix(s, "///") && strings.Count(s, ":") == 1 && strings.HasSuffix(s, ":") {
		p := strings.TrimSuffix(s[2:], ":")
		if l != (labels.Label{Package: p, Target: path.Base(p)}) {
			return fmt.Sprintf("Parse(%q) = %#v", s, l)
		}
	}
	return ""
}

// checkPair: equality of two labels is equality of what they denote, whatever the spelling.
func checkPair(l, m labels.Label, pkg string) string {
	sp := func(l labels.Label) []string {
		if !wf(l.Repository, l.Package, l.Target) || l.Format() == "" || strings.HasPrefix(l.Target, ":") {
			return nil
		}
		long := "//" + l.Package + ":" + l.Target
		if l.Repository != "" {
			long = "@" + l.Repository + long
		}
		out := []string{long, fmtLabel(l.Repository, l.Package, l.Target)}
		if l.Repository == "" && l.Package == pkg {
			out = append(out, ":"+l.Target)
		}
		return out
	}
	for _, a := range sp(l) {
		for _, b := range sp(m) {
			if g := labels.Equal(a, b, pkg); g != (l == m) {
				return fmt.Sprintf("Equal(%q, %q, %q) = %v, but they denote %#v and %#v", a, b, pkg, g, l, m)
			}
		}
	}
	return ""
}

func TestVerifLabels(t *testing.T) {
	r := vlib.New(t, "labels", "every string of at most 6 atoms over {a,b,/,:,@,//,.} as text; every triple of short words as label fields; random longer ones; a case is non-trivial when its input was not seen before")
	defer r.Done()
	for _, c := range vlib.Cex("labels.Parse") {
		s := c["s"]
		r.Case("text", s, func() string { return checkText(s, "a") })
	}
	for _, fn := range []string{"labels.Label.Format", "labels.Label.FormatRelative"} {
		for _, c := range vlib.Cex(fn) {
			r.Case("label", fmt.Sprint(c), func() string { return checkLabel(c["l.Repository"], c["l.Package"], c["l.Target"], c["pkg"]) })
		}
	}
	vlib.Strings([]string{"a", "b", "/", ":", "@", "//", "."}, vlib.N(6, 7), func(s string) bool {
		r.Case("text", s, func() string { return checkText(s, "a") })
		return !r.Expired()
	})
	var words []string
	vlib.Strings([]string{"a", "b", "/", ":", "@", "."}, 2, func(s string) bool { words = append(words, s); return true })
	words = append(words, "a/b", "a/a", "b/a", "a.b", "...", "*", "all", "a/...", "@@a", "a:b", "foo", "foo/bar", "bar")
	for _, a := range words {
		for _, p := range words {
			for _, g := range words {
				for _, k := range []string{"a", p, ""} {
					r.Case("label", fmt.Sprintf("repo=%q package=%q target=%q in %q", a, p, g, k), func() string { return checkLabel(a, p, g, k) })
				}
			}
		}
	}
	few := []string{"", "a", "b", "a/b", "b/a", ":", "x"}
	var all []labels.Label
	for _, a := range few {
		for _, p := range few {
			for _, g := range few {
				all = append(all, labels.Label{Repository: a, Package: p, Target: g})
			}
		}
	}
	for _, l := range all {
		for _, m := range all {
			r.Case("pair", fmt.Sprintf("%#v and %#v", l, m), func() string { return checkPair(l, m, "a") })
		}
	}
	atoms := []string{"a", "b", "foo", "/", "//", ":", "@", ".", "..", "-", "_", "é", " ", "+", "~"}
	for i := 0; i < vlib.N(40000, 1000000) && !r.Expired(); i++ {
		a, p, g, k := r.Word(atoms, 3), r.Word(atoms, 6), r.Word(atoms, 5), r.Word(atoms, 3)
		if r.Rand.Intn(3) == 0 {
			k = p
		}
		if r.Rand.Intn(3) == 0 {
			g = path.Base(p)
		}
		r.Case("label", fmt.Sprintf("repo=%q package=%q target=%q in %q", a, p, g, k), func() string { return checkLabel(a, p, g, k) })
		s := r.Word(atoms, 12)
		r.Case("text", s, func() string { return checkText(s, k) })
	}
}

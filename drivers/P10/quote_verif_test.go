//pkg: build

// Bounded replay driver of P10: literals keep their value, labels their target.
package build_test

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

func parseAs(kind, text string) (*build.File, error) {
	switch kind {
	case "build":
		return build.ParseBuild("a/b/BUILD", []byte(text))
	case "module":
		return build.ParseModule("MODULE.bazel", []byte(text))
	}
	return build.ParseDefault("a/b/x.bzl", []byte(text))
}

func format(f *build.File) string {
	build.Rewrite(f)
	return string(build.FormatWithoutRewriting(f))
}

// rhs is the right side of the assignment a file consists of.
func rhs(f *build.File) build.Expr {
	for _, s := range f.Stmt {
		if a, ok := s.(*build.AssignExpr); ok {
			return a.RHS
		}
	}
	return nil
}

// decode is an independent reading of a literal that starts with a quote: ok is false for a wrong escape sequence.
func decode(tok string) (val string, triple, ok bool) {
	raw := strings.HasPrefix(tok, "r")
	if raw {
		tok = tok[1:]
	}
	if len(tok) < 2 || tok[0] != '"' && tok[0] != '\'' || tok[0] != tok[len(tok)-1] {
		return "", false, false
	}
	q := tok[:1]
	if len(tok) >= 6 && strings.HasPrefix(tok, q+q+q) && strings.HasSuffix(tok, q+q+q) {
		triple = true
		tok = tok[3 : len(tok)-3]
	} else {
		tok = tok[1 : len(tok)-1]
	}
	if raw {
		return tok, triple, true
	}
	var out []byte
	hexv := func(s string) (int, bool) {
		n, err := strconv.ParseInt(s, 16, 0) // accepts a sign, as the code does
		return int(n), err == nil
	}
	for i := 0; i < len(tok); {
		if tok[i] != '\\' {
			out = append(out, tok[i])
			i++
			continue
		}
		if i+1 == len(tok) {
			return "", triple, false
		}
		c := tok[i+1]
		if k := strings.IndexByte("abfnrtv\\'\"", c); k >= 0 {
			out = append(out, "\a\b\f\n\r\t\v\\'\""[k])
			i += 2
			continue
		}
		switch {
		case c == '\n':
			i += 2
		case c >= '0' && c <= '7':
			n, j := 0, i+1
			for j < len(tok) && j < i+4 && tok[j] >= '0' && tok[j] <= '7' {
				n = n*8 + int(tok[j]-'0')
				j++
			}
			if n > 255 {
				return "", triple, false
			}
			out = append(out, byte(n))
			i = j
		case c == 'x' || c == 'u' || c == 'U':
			w := map[byte]int{'x': 2, 'u': 4, 'U': 8}[c]
			if i+2+w > len(tok) {
				return "", triple, false
			}
			n, good := hexv(tok[i+2 : i+2+w])
			if !good {
				return "", triple, false
			}
			if c == 'x' {
				out = append(out, byte(n))
			} else {
				if n >= 0xD800 && n <= 0xDFFF || n > 0x10FFFF {
					return "", triple, false
				}
				out = utf8.AppendRune(out, rune(n))
			}
			i += 2 + w
		default:
			out = append(out, tok[i], c)
			i += 2
		}
	}
	return string(out), triple, true
}

var quotePieces = []string{"a", "b", "0", "7", "8", "9", "f", "n", "r", "u", "x", "U", "00e9", "0001F600", "D800", "\\", "\\", "\\\\", "\"", "'", "\"\"", "''", "\n", "\t", "\r", "\x00", "\x1f", "\x7f", "\x80", "\xff", "é", "世", "\U0001F600", " ", "{", "%s", "$", "#", "//", ":"}

func checkWritten(r *vlib.R, s string, triple bool) bool {
	return r.Case("written", fmt.Sprintf("the string %q, triple quoted: %v", s, triple), func() string {
		txt := build.FormatString(&build.StringExpr{Value: s, TripleQuote: triple})
		got, t, err := build.Unquote(txt)
		if err != nil || got != s || t != triple {
			return fmt.Sprintf("written as %s, read back as %q (triple %v, error %v)", txt, got, t, err)
		}
		if want, _, ok := decode(txt); !ok || want != s {
			return fmt.Sprintf("written as %s, which denotes %q", txt, want)
		}
		f, err := build.ParseDefault("x", []byte("x = "+txt+"\n"))
		if err != nil {
			return fmt.Sprintf("written as %s, which cannot be parsed: %v", txt, err)
		}
		v, ok := rhs(f).(*build.StringExpr)
		if !ok || v.Value != s {
			return fmt.Sprintf("written as %s, parsed as %s", txt, build.FormatString(rhs(f)))
		}
		return ""
	})
}

func checkUnquote(r *vlib.R, tok string) bool {
	return r.Case("unquote", fmt.Sprintf("the literal %q", tok), func() string {
		got, t, err := build.Unquote(tok)
		want, wt, ok := decode(tok)
		if ok != (err == nil) {
			return fmt.Sprintf("Unquote returned %q, error %v; the literal denotes %q, valid: %v", got, err, want, ok)
		}
		if ok && (got != want || t != wt) {
			return fmt.Sprintf("Unquote returned %q (triple %v), the literal denotes %q (triple %v)", got, t, want, wt)
		}
		return ""
	})
}

// checkToken formats a file with the literal in several places and reads the values again.
func checkToken(r *vlib.R, kind, tok string) bool {
	return r.Case("string in "+kind, fmt.Sprintf("x = %s", tok), func() string {
		text := "x = " + tok + "\n"
		f, err := parseAs(kind, text)
		if err != nil {
			return ""
		}
		v, ok := rhs(f).(*build.StringExpr)
		if !ok || v.Token != tok {
			return ""
		}
		want := v.Value
		if w, _, ok := decode(tok); ok && w != want {
			return fmt.Sprintf("parsed as %q, the literal denotes %q", want, w)
		}
		out := format(f)
		g, err := parseAs(kind, out)
		if err != nil {
			return fmt.Sprintf("formatted as %q, which cannot be parsed: %v", out, err)
		}
		w, ok := rhs(g).(*build.StringExpr)
		if !ok || w.Value != want {
			return fmt.Sprintf("%q formatted as %q: %s", want, out, build.FormatString(rhs(g)))
		}
		if w.TripleQuote != v.TripleQuote {
			return fmt.Sprintf("formatted as %q: triple quotes changed", out)
		}
		if again := format(g); again != out {
			return fmt.Sprintf("formatted as %q, and then as %q", out, again)
		}
		return ""
	})
}

var floatRE = regexp.MustCompile(`^([0-9]*)\.?([0-9]*)(e([+-]?[0-9]+))?$`)

func numVal(tok string) (string, bool) {
	if strings.ContainsAny(tok, ".") || strings.ContainsAny(tok, "eE") && !strings.HasPrefix(strings.ToLower(tok), "0x") {
		m := floatRE.FindStringSubmatch(strings.ToLower(tok))
		if m == nil || m[1]+m[2] == "" {
			return "", false
		}
		// digits times a power of ten, without zeroes at either end
		e, _ := new(big.Int).SetString("0"+strings.TrimLeft(m[4], "+-"), 10)
		if strings.HasPrefix(m[4], "-") {
			e.Neg(e)
		}
		e.Sub(e, big.NewInt(int64(len(m[2]))))
		d := strings.TrimLeft(m[1]+m[2], "0")
		for strings.HasSuffix(d, "0") {
			d = d[:len(d)-1]
			e.Add(e, big.NewInt(1))
		}
		if d == "" {
			return "float 0", true
		}
		return "float " + d + " times ten to the " + e.String(), true
	}
	base, s := 10, strings.ToLower(tok)
	switch {
	case strings.HasPrefix(s, "0x"):
		base, s = 16, s[2:]
	case strings.HasPrefix(s, "0o"):
		base, s = 8, s[2:]
	case len(s) > 1 && s[0] == '0':
		base = 8
	}
	x, ok := new(big.Int).SetString(s, base)
	if !ok {
		return "", false
	}
	return "int " + x.String(), true
}

func checkNumber(r *vlib.R, kind, tok string) bool {
	return r.Case("number in "+kind, "x = "+tok, func() string {
		want, ok := numVal(tok)
		if !ok {
			return ""
		}
		f, err := parseAs(kind, "x = "+tok+"\n")
		if err != nil {
			return ""
		}
		if l, ok := rhs(f).(*build.LiteralExpr); !ok || l.Token != tok {
			return ""
		}
		out := format(f)
		g, err := parseAs(kind, out)
		if err != nil {
			return fmt.Sprintf("formatted as %q, which cannot be parsed: %v", out, err)
		}
		l, ok := rhs(g).(*build.LiteralExpr)
		if !ok {
			return fmt.Sprintf("formatted as %q, which is no number", out)
		}
		if got, ok := numVal(l.Token); !ok || got != want {
			return fmt.Sprintf("%s formatted as %s: %s, not %s", tok, l.Token, got, want)
		}
		if again := format(g); again != out {
			return fmt.Sprintf("formatted as %q, and then as %q", out, again)
		}
		return ""
	})
}

// ---- labels -----------------------------------------------------------------

var repoRE = regexp.MustCompile(`^@([^/]*)(//.*)?$`)

// target is what a label denotes in a package: repository, package and name. With strip set, a label without
// slashes and without a leading colon is relative to the root of the workspace.
func target(l, pkg string, strip bool) string {
	repo := ""
	if strings.HasPrefix(l, "@") {
		m := repoRE.FindStringSubmatch(l)
		if m == nil {
			return "text " + l
		}
		repo = "@" + m[1]
		if m[2] == "" {
			return repo + "//:" + m[1]
		}
		l = m[2]
	} else if !strings.HasPrefix(l, "//") {
		if !strip || strings.HasPrefix(l, ":") {
			return "//" + pkg + ":" + strings.TrimPrefix(l, ":")
		}
		l = "//" + l
	}
	l = l[2:]
	p, n, has := strings.Cut(l, ":")
	if !has {
		n = p[strings.LastIndex(p, "/")+1:]
	}
	return repo + "//" + p + ":" + n
}

// targets lists what the strings of a label attribute denote; a sum of strings is one string.
func targets(e build.Expr, pkg string, strip bool) []string {
	var out []string
	var text func(e build.Expr) (string, bool)
	text = func(e build.Expr) (string, bool) {
		switch e := e.(type) {
		case *build.StringExpr:
			return e.Value, true
		case *build.BinaryExpr:
			a, ok1 := text(e.X)
			b, ok2 := text(e.Y)
			return a + b, ok1 && ok2
		}
		return "", false
	}
	if s, ok := text(e); ok {
		return []string{target(s, pkg, strip)}
	}
	switch e := e.(type) {
	case *build.ListExpr:
		for _, x := range e.List {
			out = append(out, targets(x, pkg, strip)...)
		}
	case *build.SetExpr:
		for _, x := range e.List {
			out = append(out, targets(x, pkg, strip)...)
		}
	case *build.BinaryExpr:
		out = append(targets(e.X, pkg, strip), targets(e.Y, pkg, strip)...)
	case *build.CallExpr:
		if id, ok := e.X.(*build.Ident); ok && id.Name == "select" && len(e.List) == 1 {
			if d, ok := e.List[0].(*build.DictExpr); ok {
				for _, kv := range d.List {
					for _, t := range targets(kv.Value, pkg, strip) {
						out = append(out, build.FormatString(kv.Key)+" => "+t)
					}
				}
			}
		}
	default:
		out = append(out, build.FormatString(e))
	}
	return out
}

func same(a, b []string) bool {
	set := func(xs []string) string {
		m := map[string]bool{}
		for _, x := range xs {
			m[x] = true
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return strings.Join(ks, "|")
	}
	return set(a) == set(b)
}

func attrOf(f *build.File, name string) build.Expr {
	for _, r := range f.Rules("") {
		if e := r.Attr(name); e != nil {
			return e
		}
	}
	return nil
}

func label(r *vlib.R, strip bool) string {
	pkgs := []string{"a", "a/b", "a/b/c", "b", "a/bb", "x.y", "a-b", ""}
	p := pkgs[r.Rand.Intn(len(pkgs))]
	n := r.Pick("a", "b", "c", "bb", "x.y", "a/b", "b/b", "lib", "x", "")
	base := p[strings.LastIndex(p, "/")+1:]
	if r.Rand.Intn(3) == 0 {
		n = base
	}
	repo := r.Pick("", "", "", "@r", "@b", "@", "@a-b")
	if r.Rand.Intn(4) == 0 && repo != "" {
		n = repo[1:]
	}
	switch r.Rand.Intn(6) {
	case 0:
		return ":" + n
	case 1:
		if !strip && n != "" {
			return n
		}
		return ":" + n
	case 2:
		if p != "" {
			return repo + "//" + p
		}
	}
	if n == "" {
		n = "z"
	}
	return repo + "//" + p + ":" + n
}

func checkLabels(r *vlib.R) {
	strip, short := r.Rand.Intn(3) == 0, r.Rand.Intn(2) == 0
	path, pkg := "a/b/BUILD", "a/b"
	if r.Rand.Intn(3) == 0 {
		path, pkg = "BUILD", ""
	}
	str := func() string {
		l := label(r, strip)
		if i := strings.LastIndexAny(l, ":/"); i > 1 && strings.HasPrefix(l, "//") && r.Rand.Intn(3) == 0 {
			if r.Rand.Intn(4) == 0 && i < len(l)-1 {
				i++
			}
			return strconv.Quote(l[:i]) + " + " + strconv.Quote(l[i:])
		}
		return strconv.Quote(l)
	}
	list := func() string {
		var xs []string
		for i := r.Rand.Intn(4); i >= 0; i-- {
			xs = append(xs, str())
		}
		return "[" + strings.Join(xs, ", ") + "]"
	}
	val := func() string {
		switch r.Rand.Intn(5) {
		case 0:
			return str()
		case 1:
			return list() + " + " + list()
		case 2:
			return "select({\"//c:d\": " + list() + ", \"e\": " + list() + "}) + " + list()
		}
		return list()
	}
	attr := r.Pick("deps", "srcs", "exports", "label", "tags", "copts", "other")
	denied := r.Rand.Intn(4) == 0
	w := &build.Rewriter{
		IsLabelArg:                      map[string]bool{"deps": true, "srcs": true, "exports": true, "label": true},
		LabelDenyList:                   map[string]bool{},
		IsSortableListArg:               map[string]bool{"deps": true},
		StripLabelLeadingSlashes:        strip,
		ShortenAbsoluteLabelsToRelative: short,
	}
	if denied {
		w.LabelDenyList["r."+attr] = true
	}
	text := fmt.Sprintf("r(\n    name = \"n\",\n    %s = %s,\n)\n", attr, val())
	in := fmt.Sprintf("%s with leading slashes stripped: %v, shortened: %v, not a label attribute: %v\n%s", path, strip, short, denied || !w.IsLabelArg[attr], text)
	r.Case("labels", in, func() string {
		f, err := build.ParseBuild(path, []byte(text))
		if err != nil {
			return ""
		}
		g, _ := build.ParseBuild(path, []byte(text))
		w.Rewrite(g)
		out := string(build.FormatWithoutRewriting(g))
		h, err := build.ParseBuild(path, []byte(out))
		if err != nil {
			return "formatted as\n" + out + "which cannot be parsed: " + err.Error()
		}
		if denied || !w.IsLabelArg[attr] {
			a, b := targets(attrOf(f, attr), "?", false), targets(attrOf(h, attr), "?", false)
			if !same(a, b) {
				return fmt.Sprintf("formatted as\n%sdenoting %v, not %v", out, b, a)
			}
			return ""
		}
		a, b := targets(attrOf(f, attr), pkg, strip), targets(attrOf(h, attr), pkg, strip)
		if !same(a, b) {
			return fmt.Sprintf("formatted as\n%sdenoting %v, not %v", out, b, a)
		}
		return ""
	})
}

func TestVerifQuote(t *testing.T) {
	r := vlib.New(t, "P10 literals", "what is written reads back; a literal keeps its value, a label its target")
	defer r.Done()
	for _, c := range append(vlib.Cex("build.quote"), vlib.Cex("build.Unquote")...) {
		if s, ok := c["quoted"]; ok {
			checkUnquote(r, s)
		}
		if s, ok := c["unquoted"]; ok {
			checkWritten(r, s, c["triple"] == "true")
		}
	}
	for b := 0; b < 256; b++ {
		for _, s := range []string{string([]byte{byte(b)}), "a" + string([]byte{byte(b)}) + "7", string([]byte{byte(b)}) + "\"", "\"" + string([]byte{byte(b)}) + "\""} {
			checkWritten(r, s, false)
			checkWritten(r, s, true)
		}
		for _, tl := range []string{"", "1", "7", "9", "00", "777", "00e9x", "0010ffff", "00110000", "d800aaaa", "ffffffff", "é"} {
			checkUnquote(r, "\"\\"+string([]byte{byte(b)})+tl+"\"")
			checkUnquote(r, "'''z\\"+string([]byte{byte(b)})+tl+"'''")
			checkToken(r, "bzl", "'\\"+string([]byte{byte(b)})+tl+"'")
			checkToken(r, "build", "\"\\"+string([]byte{byte(b)})+tl+"\"")
		}
	}
	vlib.Strings([]string{"\"", "'", "\\", "a", "\n"}, vlib.N(5, 6), func(s string) bool {
		checkWritten(r, s, false)
		checkWritten(r, s, true)
		for _, q := range []string{"\"", "'", "\"\"\"", "'''"} {
			checkUnquote(r, q+s+q)
			checkToken(r, "bzl", q+s+q)
			checkToken(r, "bzl", "r"+q+s+q)
		}
		return !r.TooMany()
	})
	vlib.Strings([]string{"0", "1", "7", "9", ".", "e", "E", "-", "+", "x", "o", "a"}, vlib.N(4, 5), func(s string) bool {
		checkNumber(r, "bzl", s)
		checkNumber(r, "build", s)
		return !r.TooMany()
	})
	for i := 0; i < vlib.N(40000, 400000) && !r.TooMany() && !r.Expired(); i++ {
		s := r.Word(quotePieces, 8)
		checkWritten(r, s, i%2 == 0)
		q := r.Pick("\"", "'", "\"\"\"", "'''")
		checkUnquote(r, q+s+q)
		if i%7 == 0 {
			checkUnquote(r, s)
			checkUnquote(r, q+s)
		}
		checkToken(r, r.Pick("bzl", "build", "module"), r.Pick("", "", "r")+q+s+q)
		n := r.Word([]string{"0", "0", "00", "1", "7", "8", ".", "e", "E", "e+", "e-", "E+0", "e-0", "5", "12"}, 6)
		checkNumber(r, r.Pick("bzl", "build"), n)
		checkLabels(r)
	}
}

// Package vgen: generators and oracles over syntax trees for the replay drivers (compiled into /repo's module
// through an overlay; used by external test packages only).
package vgen

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// Opt selects what Dump shows.
type Opt struct {
	Comments bool // show comments
	Layout   bool // show layout hints (force-compact, multi-line, tokens of strings)
	Skip     map[string]bool
	NoParens bool // leave out parentheses
}

// Dump renders a tree without positions.
func Dump(v interface{}, o Opt) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(v), o, 0)
	return sb.String()
}

var layout = map[string]bool{"ForceCompact": true, "ForceMultiLine": true, "LineBreak": true, "NoBrackets": true, "TripleQuote": true}

func dump(sb *strings.Builder, v reflect.Value, o Opt, d int) {
	if d > 400 {
		sb.WriteString("<deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dump(sb, v.Elem(), o, d+1)
	case reflect.Slice:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			dump(sb, v.Index(i), o, d+1)
		}
		sb.WriteByte(']')
	case reflect.Struct:
		t := v.Type()
		if t.Name() == "Position" {
			return
		}
		if t.Name() == "Comment" {
			sb.WriteString(fmt.Sprintf("%q", strings.TrimSpace(v.FieldByName("Token").String())))
			return
		}
		if o.NoParens && t.Name() == "ParenExpr" {
			dump(sb, v.FieldByName("X"), o, d+1)
			return
		}
		sb.WriteString(t.Name() + "{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Type.Name() == "Position" || o.Skip[f.Name] || f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if !o.Comments && (f.Name == "Comments" || f.Name == "End" && f.Anonymous) {
				continue
			}
			if !o.Layout && (layout[f.Name] || f.Name == "Token" && t.Name() == "StringExpr") {
				continue
			}
			if f.Name == "Comments" {
				c := v.Field(i)
				if c.FieldByName("Before").Len()+c.FieldByName("Suffix").Len()+c.FieldByName("After").Len() == 0 {
					continue
				}
			}
			sb.WriteString(f.Name + ":")
			dump(sb, v.Field(i), o, d+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.String:
		sb.WriteString(fmt.Sprintf("%q", v.String()))
	default:
		sb.WriteString(fmt.Sprint(v.Interface()))
	}
}

// G makes random source text.
type G struct {
	R        *rand.Rand
	Comments bool // sprinkle comments
	Wide     bool // also rarer constructs: sets, chains, nested comprehensions, types
	Names    []string
}

func (g *G) n(k int) int              { return g.R.Intn(k) }
func (g *G) pick(xs ...string) string { return xs[g.n(len(xs))] }

func (g *G) Ident() string {
	if len(g.Names) > 0 && g.n(3) > 0 {
		return g.Names[g.n(len(g.Names))]
	}
	return g.pick("a", "b", "foo", "bar", "x1", "_y", "name", "srcs", "deps")
}

func (g *G) Str() string {
	return g.pick(`"a"`, `"b"`, `":a"`, `"//p:a"`, `"//p/a"`, `"//p"`, `"@r//p:b"`, `"a.cc"`, `"b.h"`, `"x y"`, `""`, `'q'`, `"it's"`, `"\n"`, `"a\\b"`, `r"x\d"`, `"""t"""`, `"é"`, `"1.5"`)
}

func (g *G) Num() string { return g.pick("0", "1", "42", "0o17", "0xAf", "1.5", "2e3", "100000") }

func (g *G) list(open, close string, d int, el func() string) string {
	k := g.n(4)
	var xs []string
	multi := g.n(4) == 0
	for i := 0; i < k; i++ {
		s := el()
		if multi && g.Comments && g.n(4) == 0 {
			s = "# c" + fmt.Sprint(g.n(9)) + "\n" + s
		}
		if multi && g.Comments && g.n(4) == 0 {
			s += ",  # s" + fmt.Sprint(g.n(9)) + "\n"
		} else {
			s += ","
			if multi {
				s += "\n"
			}
		}
		xs = append(xs, s)
	}
	in := strings.Join(xs, " ")
	if k > 0 && !multi && g.n(2) == 0 && open != "(" {
		in = strings.TrimSuffix(in, ",")
	}
	if multi {
		in = "\n" + in
		if g.Comments && g.n(5) == 0 {
			in += "# end\n"
		}
	}
	return open + in + close
}

func (g *G) StrList(d int) string { return g.list("[", "]", d, g.Str) }

func (g *G) Select(d int) string {
	return "select({" + strings.TrimSpace(g.pick("", `":c1": `+g.StrList(d)+",", `":c1": `+g.StrList(d)+`, "//conditions:default": `+g.StrList(d)+",", `":c1": None,`)) + "})"
}

func (g *G) ListExpr(d int) string {
	switch g.n(8) {
	case 0:
		return g.Select(d)
	case 1:
		return g.StrList(d) + " + " + g.Select(d)
	case 2:
		return g.StrList(d) + " + " + g.StrList(d)
	case 3:
		return "glob(" + g.StrList(d) + ") + " + g.StrList(d)
	case 4:
		return g.Ident() + " + " + g.StrList(d)
	}
	return g.StrList(d)
}

// Expr makes an expression.
func (g *G) Expr(d int) string {
	if d <= 0 {
		switch g.n(4) {
		case 0:
			return g.Num()
		case 1:
			return g.Str()
		}
		return g.Ident()
	}
	e := func() string { return g.Expr(d - 1) }
	switch g.n(22) {
	case 0:
		return g.list("[", "]", d, e)
	case 1:
		s := g.list("(", ")", d, e)
		return s
	case 2:
		return g.list("{", "}", d, func() string { return e() + ": " + e() })
	case 3:
		return "(" + e() + ")"
	case 4:
		return g.pick("-", "+", "~", "not ") + e()
	case 5, 6:
		return e() + " " + g.pick("+", "-", "*", "/", "//", "%", "|", "&", "^", "<<", ">>") + " " + e()
	case 7:
		return "(" + e() + " " + g.pick("==", "!=", "<", ">", "<=", ">=", "in", "not in") + " " + e() + ")"
	case 8:
		return e() + " " + g.pick("and", "or") + " " + e()
	case 9, 10:
		return g.Call(d)
	case 11:
		return g.Ident() + "." + g.Ident()
	case 12:
		return g.Ident() + "[" + e() + "]"
	case 13:
		return g.Ident() + "[" + g.pick("", e()) + ":" + g.pick("", e()) + g.pick("", ":", ":"+e()) + "]"
	case 14:
		return "(" + e() + " if " + e() + " else " + e() + ")"
	case 15:
		return "[" + e() + " for " + g.Ident() + " in " + g.atom(d) + g.pick("", " if "+g.atom(d)) + "]"
	case 16:
		return "{" + e() + ": " + e() + " for " + g.Ident() + ", " + g.Ident() + " in " + g.atom(d) + "}"
	case 17:
		return "(lambda " + g.pick("", "x", "x, y = 1") + ": " + e() + ")"
	case 18:
		return g.ListExpr(d)
	case 19:
		if g.Wide {
			return g.pick("{"+e()+"}", g.list("{", "}", d, e), "{"+e()+" for "+g.Ident()+" in "+g.atom(d)+"}")
		}
	case 20:
		if g.Wide {
			return "[" + e() + g.pick(" ", "\n") + "for " + g.pick("a", "a, b", "(a, b)") + " in " + g.atom(d) + g.pick(" ", "\n") + "for b in " + g.atom(d) + g.pick("", " if "+g.atom(d), "\nif "+g.atom(d)+" if "+g.atom(d)) + g.pick("", "\n") + "]"
		}
	case 21:
		if g.Wide {
			return g.pick(g.Call(d)+"."+g.Call(d), g.Call(d)+"["+e()+"]", g.Call(d)+"("+e()+")", "("+e()+",)", "()", "(lambda *a, **b: "+e()+")", "[\n\n"+e()+",\n\n"+e()+"]", "(\n"+e()+"\n)", "("+e()+" +\n"+e()+")")
		}
	}
	return g.Expr(0)
}

func (g *G) atom(d int) string {
	if g.n(2) == 0 {
		return g.Ident()
	}
	return "(" + g.Expr(d-1) + ")"
}

func (g *G) Call(d int) string {
	f := g.Ident()
	if g.n(4) == 0 {
		f += "." + g.Ident()
	}
	var as []string
	for k := g.n(3); k > 0; k-- {
		as = append(as, g.Expr(d-1))
	}
	seen := map[string]bool{}
	for k := g.n(3); k > 0; k-- {
		n := g.Ident()
		if !seen[n] {
			seen[n] = true
			as = append(as, n+" = "+g.Expr(d-1))
		}
	}
	if g.n(8) == 0 {
		as = append(as, "*"+g.Ident())
	}
	if g.n(8) == 0 {
		as = append(as, "**"+g.Ident())
	}
	return f + "(" + strings.Join(as, ", ") + ")"
}

// Rule makes a rule call with attributes.
func (g *G) Rule(kind, name string) string {
	var sb strings.Builder
	sb.WriteString(kind + "(\n")
	put := func(s string) {
		if g.Comments && g.n(6) == 0 {
			sb.WriteString("    # about " + fmt.Sprint(g.n(9)) + "\n")
		}
		sb.WriteString("    " + s + ",")
		if g.Comments && g.n(6) == 0 {
			sb.WriteString("  # suffix" + fmt.Sprint(g.n(9)))
		}
		sb.WriteByte('\n')
	}
	if name != "" {
		put(fmt.Sprintf("name = %q", name))
	}
	for _, a := range []string{"srcs", "deps", "hdrs", "args"} {
		if g.n(2) == 0 {
			put(a + " = " + g.ListExpr(1))
		}
	}
	if g.n(3) == 0 {
		put(g.pick("testonly = 1", "testonly = True", `size = "small"`, "copts = OPTS", `tags = ["manual"]`, "x = 1.5"))
	}
	sb.WriteString(")\n")
	return sb.String()
}

// BuildFile makes a BUILD file.
func (g *G) BuildFile() string {
	var sb strings.Builder
	if g.n(4) == 0 {
		sb.WriteString("\"\"\"doc\"\"\"\n\n")
	}
	if g.Comments && g.n(3) == 0 {
		sb.WriteString("# header\n\n")
	}
	for k := g.n(3); k > 0; k-- {
		sb.WriteString(fmt.Sprintf("load(%q, %s)\n", g.pick("//a:a.bzl", ":b.bzl", "@r//c:c.bzl"), g.pick(`"x"`, `"x", "y"`, `z = "x"`, `"foo_rule", q = "y"`)))
	}
	if g.n(4) == 0 {
		sb.WriteString("package(default_visibility = [\"//visibility:public\"])\n")
	}
	names := []string{"a", "b", "c", "foo", "bar"}
	for k := 1 + g.n(4); k > 0; k-- {
		if g.Comments && g.n(3) == 0 {
			sb.WriteString("# stand-alone " + fmt.Sprint(g.n(9)) + "\n")
			if g.n(2) == 0 {
				sb.WriteString("\n")
			}
		}
		switch g.n(8) {
		case 0:
			sb.WriteString(g.Ident() + " = " + g.Expr(2) + "\n")
		case 1:
			sb.WriteString("exports_files(" + g.StrList(1) + ")\n")
		case 2:
			sb.WriteString("[" + strings.TrimSpace(g.Rule("gen", "")) + " for a in " + g.StrList(1) + "]\n")
		default:
			sb.WriteString(g.Rule(g.pick("cc_library", "go_library", "my_rule", "ns.rule"), names[g.n(len(names))]))
		}
		if g.n(2) == 0 {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

// Stmts makes .bzl statements at the indentation.
func (g *G) Stmts(d, ind int) string {
	var sb strings.Builder
	pad := strings.Repeat("    ", ind)
	for k := 1 + g.n(3); k > 0; k-- {
		if g.Comments && g.n(5) == 0 {
			sb.WriteString(pad + "# note " + fmt.Sprint(g.n(9)) + "\n")
		}
		suffix := "\n"
		if g.Comments && g.n(8) == 0 {
			suffix = "  # tail " + fmt.Sprint(g.n(9)) + "\n"
		}
		one := func(s string) { sb.WriteString(pad + s + suffix) }
		kind := g.n(12)
		if d <= 0 && kind >= 6 {
			kind = g.n(6)
		}
		switch kind {
		case 0:
			one(g.Ident() + " = " + g.Expr(2))
		case 1:
			one(g.Ident() + " " + g.pick("+=", "-=", "*=", "|=") + " " + g.Expr(1))
		case 2:
			one(g.Call(2))
		case 3:
			one(g.Ident() + ", " + g.Ident() + " = " + g.Expr(1) + ", " + g.Expr(1))
		case 4:
			if ind > 0 {
				one("return " + g.pick("", g.Expr(2)))
			} else {
				one(g.Str())
			}
		case 5:
			if ind > 0 {
				one("pass")
			} else {
				one(g.Call(1))
			}
		case 6, 7:
			if g.Wide && g.n(3) == 0 {
				sb.WriteString(pad + "def " + g.Ident() + "(" + g.pick("x: int", "x: int = 1", "*, x", "x, *, y = 1, **z", "\nx,\ny", "x = [1, 2],\n y = {}", "\n*args") + ")" + g.pick("", " -> str", " -> list[str]") + ":\n" + g.Stmts(d-1, ind+1))
				break
			}
			sb.WriteString(pad + "def " + g.Ident() + "(" + g.pick("", "x", "x, y = 1", "*args", "x, *args, **kwargs", "name, deps = []") + ")" + g.pick(":", ":", ": # head") + "\n" + g.Stmts(d-1, ind+1))
		case 8, 9:
			if ind == 0 {
				one(g.Call(2))
				continue
			}
			sb.WriteString(pad + "if " + g.Expr(1) + ":\n" + g.Stmts(d-1, ind+1))
			if g.n(3) == 0 {
				sb.WriteString(pad + "elif " + g.Expr(1) + ":\n" + g.Stmts(d-1, ind+1))
			}
			if g.n(2) == 0 {
				sb.WriteString(pad + "else:\n" + g.Stmts(d-1, ind+1))
			}
		default:
			if ind == 0 {
				one(g.Ident() + " = " + g.Call(2))
				continue
			}
			sb.WriteString(pad + "for " + g.pick("i", "i, j") + " in " + g.Expr(1) + ":\n" + g.Stmts(d-1, ind+1))
		}
		if g.n(4) == 0 {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

// BzlFile makes a .bzl file.
func (g *G) BzlFile() string { return g.pick("", "\"\"\"doc\"\"\"\n") + g.Stmts(3, 0) }

// Parse parses as the type named by the file name; nil when it does not parse.
func Parse(name, text string) *build.File {
	f, err := build.Parse(name, []byte(text))
	if err != nil {
		return nil
	}
	return f
}

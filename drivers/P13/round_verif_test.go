//pkg: build

// Bounded replay driver of P13: formatting keeps the tree and the comments, and is stable.
package build_test

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	vgen "github.com/bazelbuild/buildtools/zz_vgen"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

// sprinkle puts comments and line breaks between the tokens of a text. Every comment gets its own number.
func sprinkle(r *vlib.R, text string, rate int) string {
	var sb strings.Builder
	depth, c := 0, 0
	var quote, indent string // indent: of the statement before
	lineStart := true
	var odd []bool // the brackets around: is this one of an index, a slice or the parameters of a function?
	isOdd := func(i int) bool {
		if i == 0 {
			return false
		}
		prev := text[i-1]
		word := prev == '_' || prev == ')' || prev == ']' || prev == '"' || prev >= '0' && prev <= '9' || prev >= 'a' && prev <= 'z' || prev >= 'A' && prev <= 'Z'
		if text[i] == '[' {
			return word
		}
		j := strings.LastIndexByte(text[:i], '\n') + 1
		return strings.HasPrefix(strings.TrimSpace(text[j:i]), "def ") && !strings.Contains(text[j:i], "(")
	}
	inOdd := func() bool { return len(odd) > 0 && odd[len(odd)-1] }
	comment := func() string { c++; return fmt.Sprintf("#c%d", c) }
	for i := 0; i < len(text); i++ {
		ch := text[i]
		if quote != "" {
			if ch == '\\' && i+1 < len(text) {
				sb.WriteString(text[i : i+2])
				i++
				continue
			}
			if strings.HasPrefix(text[i:], quote) {
				sb.WriteString(quote)
				i += len(quote) - 1
				quote = ""
				continue
			}
			sb.WriteByte(ch)
			continue
		}
		if lineStart && depth == 0 && ch != '\n' && r.Rand.Intn(rate) == 0 {
			j := i
			for j < len(text) && text[j] == ' ' {
				j++
			}
			comment := func() string { return strings.Replace(comment(), "c", "s", 1) }
			// a comment is as deep as the line below it, or at the end of a block as deep as the block
			deep := text[i:j]
			if len(indent) > len(deep) && r.Rand.Intn(2) == 0 {
				deep = indent
			}
			switch r.Rand.Intn(5) {
			case 0:
				sb.WriteString("\n")
			case 1:
				sb.WriteString(deep + comment() + "\n\n")
			case 2:
				sb.WriteString("\n" + deep + comment() + "\n\n")
			default:
				sb.WriteString(deep + comment() + "\n")
			}
		}
		if lineStart && depth == 0 && ch != '\n' {
			j := i
			for j < len(text) && text[j] == ' ' {
				j++
			}
			indent = text[i:j]
		}
		lineStart = false
		switch {
		case ch == '#':
			for i < len(text) && text[i] != '\n' {
				sb.WriteByte(text[i])
				i++
			}
			i--
			continue
		case strings.HasPrefix(text[i:], `"""`):
			quote = `"""`
			sb.WriteString(quote)
			i += 2
			continue
		case ch == '"' || ch == '\'':
			quote = string(ch)
		case strings.ContainsRune("([{", rune(ch)):
			depth++
			odd = append(odd, isOdd(i))
		case strings.ContainsRune(")]}", rune(ch)):
			if len(odd) > 0 && !inOdd() && r.Rand.Intn(rate) == 0 {
				sb.WriteString("\n" + strings.Repeat(comment()+"\n", 1+r.Rand.Intn(2)))
			}
			depth--
			if len(odd) > 0 {
				odd = odd[:len(odd)-1]
			}
		case ch == '\n':
			if r.Rand.Intn(rate) == 0 && (i == 0 || text[i-1] != '\n') {
				sb.WriteString(" " + comment())
			}
			lineStart = true
		}
		sb.WriteByte(ch)
		if depth > 0 && !inOdd() && (ch == ',' || strings.ContainsRune("([{", rune(ch))) && r.Rand.Intn(rate) == 0 {
			switch r.Rand.Intn(4) {
			case 0:
				sb.WriteString("\n")
			case 1:
				sb.WriteString(" " + comment() + "\n")
			case 2:
				sb.WriteString("\n" + comment() + "\n")
			default:
				sb.WriteString(" " + comment() + "\n" + comment() + "\n")
			}
		}
	}
	return sb.String()
}

func comments(f *build.File) []string {
	var out []string
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(build.Comment{}) {
				if s := strings.TrimSpace(v.FieldByName("Token").String()); s != "" {
					out = append(out, strings.ReplaceAll(s, " ", ""))
				}
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
					rec(v.Field(i))
				}
			}
		}
	}
	rec(reflect.ValueOf(f))
	sort.Strings(out)
	return out
}

// plain: all comments are at a statement, at an element of a bracketed list, at its end, or behind its opening bracket.
func plain(f *build.File) bool {
	ok := true
	var rec func(v build.Expr, place bool)
	recs := func(vs []build.Expr) {
		for _, v := range vs {
			rec(v, true)
		}
	}
	free := func(c build.Comments) bool { return len(c.Before)+len(c.Suffix)+len(c.After) == 0 }
	rec = func(v build.Expr, place bool) {
		if v == nil || reflect.ValueOf(v).IsNil() {
			return
		}
		if !place && !free(*v.Comment()) {
			ok = false
		}
		switch v := v.(type) {
		case *build.File:
			recs(v.Stmt)
		case *build.DefStmt:
			recs(v.Params)
			recs(v.Body)
		case *build.ForStmt:
			rec(v.Vars, false)
			rec(v.X, false)
			recs(v.Body)
		case *build.IfStmt:
			rec(v.Cond, false)
			recs(v.True)
			recs(v.False)
		case *build.CallExpr:
			rec(v.X, false)
			recs(v.List)
		case *build.ListExpr:
			recs(v.List)
		case *build.SetExpr:
			recs(v.List)
		case *build.TupleExpr:
			for _, x := range v.List {
				rec(x, !v.NoBrackets)
			}
		case *build.DictExpr:
			for _, x := range v.List {
				rec(x, true)
			}
		case *build.KeyValueExpr:
			rec(v.Key, false)
			rec(v.Value, false)
		case *build.AssignExpr:
			rec(v.LHS, false)
			rec(v.RHS, false)
		case *build.ReturnStmt:
			rec(v.Result, false)
		case *build.BinaryExpr:
			rec(v.X, false)
			rec(v.Y, false)
		case *build.UnaryExpr:
			rec(v.X, false)
		case *build.ConditionalExpr:
			rec(v.Then, false)
			rec(v.Test, false)
			rec(v.Else, false)
		case *build.DotExpr:
			rec(v.X, false)
		case *build.ParenExpr:
			rec(v.X, false)
			ok = ok && free(v.End.Comments)
		case *build.IndexExpr:
			rec(v.X, false)
			rec(v.Y, false)
		case *build.SliceExpr:
			rec(v.X, false)
			rec(v.From, false)
			rec(v.To, false)
			rec(v.Step, false)
		case *build.LambdaExpr:
			for _, x := range append(append([]build.Expr{}, v.Params...), v.Body...) {
				rec(x, false)
			}
		case *build.Comprehension:
			rec(v.Body, false)
			ok = ok && free(v.End.Comments)
			for _, c := range v.Clauses {
				rec(c, false)
			}
		case *build.ForClause:
			rec(v.Vars, false)
			rec(v.X, false)
		case *build.IfClause:
			rec(v.Cond, false)
		}
	}
	rec(f, true)
	return ok
}

// droppable are the comments behind strings that a list has twice: they may go with the repetition.
func droppable(f *build.File) map[string]bool {
	out := map[string]bool{}
	build.Walk(f, func(x build.Expr, stack []build.Expr) {
		l, ok := x.(*build.ListExpr)
		if !ok {
			return
		}
		for i, a := range l.List {
			for j, b := range l.List {
				s, ok1 := a.(*build.StringExpr)
				t, ok2 := b.(*build.StringExpr)
				if i != j && ok1 && ok2 && s.Value == t.Value {
					for _, c := range append(append([]build.Comment{}, s.Suffix...), t.Suffix...) {
						out[strings.ReplaceAll(strings.TrimSpace(c.Token), " ", "")] = true
					}
				}
			}
		}
	})
	return out
}

func minus(xs []string, drop map[string]bool) []string {
	var out []string
	for _, x := range xs {
		if !drop[x] {
			out = append(out, x)
		}
	}
	return out
}

// dump shows a tree and where its comments are. Comments without a statement are the same above and in a comment block.
func dump(name, text string) string {
	f := vgen.Parse(name, text)
	build.Walk(f, func(x build.Expr, stack []build.Expr) {
		if c, ok := x.(*build.CommentBlock); ok {
			c.After, c.Before = append(c.Before, c.After...), nil
		}
	})
	return vgen.Dump(f, vgen.Opt{NoParens: true, Comments: true, Skip: map[string]bool{"Path": true}})
}

var token = regexp.MustCompile(`(?s)r?"""(?:[^\\]|\\.)*?"""|r?"(?:[^"\\]|\\.)*"|r?'(?:[^'\\]|\\.)*'|#[^\n]*|[\w.]+|[{}\[\]]|[-+*/%<>=!|&^~]`)

// tokens are the words, brackets other than parentheses, operators, strings (all alike) and comments of a text in their order.
func tokens(text string) []string {
	var out []string
	for _, t := range token.FindAllString(text, -1) {
		switch {
		case t[0] == '#':
			t = strings.ReplaceAll(strings.TrimSpace(t), " ", "")
		case strings.ContainsAny(t, `"'`):
			t = "string"
		case t == "elif":
			out = append(out, "else")
			t = "if"
		}
		out = append(out, t)
	}
	return out
}

var own = regexp.MustCompile(`(?m)^( *)#s(\d+)`)

// depths are the indentations of the comments between statements, where no else or elif follows.
func depths(text string) map[string]int {
	out := map[string]int{}
	for _, m := range own.FindAllStringSubmatch(text, -1) {
		out[m[2]] = len(m[1])
	}
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if m := own.FindStringSubmatch(l); m != nil {
			for _, next := range lines[i+1:] {
				if next = strings.TrimSpace(next); next != "" && next[0] != '#' {
					if strings.HasPrefix(next, "el") {
						delete(out, m[2])
					}
					break
				}
			}
		}
	}
	return out
}

var files = []string{"BUILD", "WORKSPACE", "MODULE.bazel", "x.bzl", "x.star"}

func round(r *vlib.R, name, text string) {
	if f := vgen.Parse(name, text); f == nil || !plain(f) {
		return
	}
	r.Case("plain", name+"\n"+text, func() string {
		f := vgen.Parse(name, text)
		before := dump(name, text)
		out := build.FormatWithoutRewriting(f)
		for i, has, had := 0, tokens(string(out)), tokens(text); i < len(has) || i < len(had); i++ {
			if i >= len(has) || i >= len(had) || has[i] != had[i] {
				return fmt.Sprintf("the tokens %q became %q\n%s", had[i:], has[i:], out)
			}
		}
		has := depths(string(out))
		for c, had := range depths(text) {
			if d, ok := has[c]; ok && d != had {
				return fmt.Sprintf("#s%s is indented by %d now, was by %d:\n%s", c, d, had, out)
			}
		}
		g, err := build.Parse(name, out)
		if err != nil {
			return fmt.Sprintf("does not parse again: %v\n%s", err, out)
		}
		if after := dump(name, string(out)); after != before {
			i := 0
			for i < len(before) && i < len(after) && before[i] == after[i] {
				i++
			}
			around := func(s string) string {
				from, to := i-200, i+200
				if from < 0 {
					from = 0
				}
				if to > len(s) {
					to = len(s)
				}
				return s[from:to]
			}
			return fmt.Sprintf("says something else, or has its comments elsewhere:\nbefore ...%s...\nafter  ...%s...\n%s", around(before), around(after), out)
		}
		if again := build.FormatWithoutRewriting(g); string(again) != string(out) {
			return fmt.Sprintf("not stable:\n%s\nthen\n%s", out, again)
		}
		return ""
	})
	r.Case("rewritten", name+"\n"+text, func() string {
		f := vgen.Parse(name, text)
		had, drop := comments(f), droppable(f)
		out := build.Format(f)
		g, err := build.Parse(name, out)
		if err != nil {
			return fmt.Sprintf("does not parse again: %v\n%s", err, out)
		}
		if has := comments(g); !reflect.DeepEqual(minus(has, drop), minus(had, drop)) {
			return fmt.Sprintf("comments %q, had %q\n%s", has, had, out)
		}
		if again := build.Format(g); string(again) != string(out) {
			return fmt.Sprintf("not stable:\n%s\nthen\n%s", out, again)
		}
		return ""
	})
}

// TestVerifKnown: unusual places of comments, one input each. The keys of those handled badly are known findings.
func TestVerifKnown(t *testing.T) {
	r := vlib.New(t, "known", "comments in unusual places come out as they went in")
	defer r.Done()
	for _, c := range []struct{ key, text string }{
		{"comment-behind-header", "x = 1\n\ndef f():  # c\n    pass\n"},
		{"comment-in-slice", "x = a[\n    42:\n    # c\n]\n"},
		{"comment-in-lambda", "x = f((lambda a,  # c\n# d\nb: a))\n"},
	} {
		r.Case(c.key, c.text, func() string {
			f := vgen.Parse("x.bzl", c.text)
			had := comments(f)
			out := build.Format(f)
			g, err := build.Parse("x.bzl", out)
			if err != nil {
				return fmt.Sprintf("does not parse again: %v\n%s", err, out)
			}
			if vgen.Dump(vgen.Parse("x.bzl", c.text), vgen.Opt{NoParens: true}) != vgen.Dump(g, vgen.Opt{NoParens: true}) || !reflect.DeepEqual(comments(g), had) || string(build.Format(g)) != string(out) {
				return "does not come out as it went in:\n" + string(out)
			}
			return ""
		})
	}
}

func TestVerifRound(t *testing.T) {
	r := vlib.New(t, "round", "formatting keeps the tree and every comment and is stable")
	r.Budget(60, 400)
	defer r.Done()
	g := vgen.G{R: r.Rand, Wide: true}
	n := vlib.N(30000, 200000)
	for k := 0; k < n && !r.Expired() && !r.TooMany(); k++ {
		text := ""
		switch r.Rand.Intn(3) {
		case 0:
			text = g.BuildFile()
		default:
			text = g.BzlFile()
		}
		if r.Rand.Intn(4) != 0 {
			text = sprinkle(r, text, []int{2, 5, 15, 40}[r.Rand.Intn(4)])
		}
		round(r, r.Pick(files...), text)
	}
}

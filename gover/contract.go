package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	At   string
	Name string
	Src  string
	E    ast.Expr
	Own  bool // proved, but not handed to callers
}

type LoopSpec struct {
	Invs   []Clause
	Uses   []Clause // lemma instantiations assumed at the loop head (for use in the body)
	Ends   []Clause // lemma instantiations at the end of the body
	Dec    *Clause
	Unroll int
	NoAuto bool
}

type ModItem struct {
	Key string // key prefix, e.g. "build.CallExpr.List", "m:build.Expr", "g:writes", "*"
	At  ast.Expr
	Src string
}

type Contract struct {
	Func                                                                                                            string
	Params                                                                                                          []string
	Results                                                                                                         []string
	Requires                                                                                                        []Clause
	Ensures                                                                                                         []Clause
	Uses                                                                                                            []Clause // lemma instances at exit
	Modifies                                                                                                        []ModItem
	Allocs                                                                                                          []string
	Loops                                                                                                           []*LoopSpec
	Props                                                                                                           map[string]bool
	Hide                                                                                                            map[string]bool
	NilOK, PanicOK, Merge, Join, Inline, Trusted, Extern, NoMergeCalls, Pure, MergeExit, Function, Observer, Opaque bool
	Of                                                                                                              []Clause // what an observer depends on (besides the unchanged heap)
	InlineSet                                                                                                       map[string]bool
	Records, Replaces                                                                                               string // callbacks: the ghost sequence their arguments are recorded in
	Callbacks                                                                                                       map[string]*Contract
	TimeoutMs                                                                                                       int
	Strats                                                                                                          []string
	File                                                                                                            string
	IsLemma                                                                                                         bool
	LParams                                                                                                         []lparam
	Measure                                                                                                         *Clause
	AutoFor                                                                                                         string // only in obligations of this kind
	Auto                                                                                                            bool   // lemma made available as a quantified axiom (after being proved)
	Pattern                                                                                                         []Clause
	Cuts                                                                                                            []Clause
	Asserts                                                                                                         []Clause // intermediate facts at exit, proved then assumed
}

type lparam struct{ Name, Sort string }

type SpecDef struct {
	Name   string
	Params []string
	Body   ast.Expr
	Src    string
}

type Contracts struct {
	ByFunc map[string]*Contract
	Order  []*Contract
	Lemmas map[string]*Contract
	Defs   map[string]*SpecDef
	Prel   *Prelude
	Axioms []string
}

// ---- SMT prelude ----------------------------------------------------------

type smtDecl struct {
	rec   bool
	name  string
	text  string
	args  []string
	res   string
	uses  []string
	ax    bool
	order int
}

type Prelude struct {
	decls map[string]*smtDecl
	all   []*smtDecl
	axs   []*smtDecl
}

func sexprs(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ';' {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			i++
			continue
		}
		j := i
		if c == '(' {
			d := 0
			for j < len(s) {
				switch s[j] {
				case '(':
					d++
				case ')':
					d--
				case '"':
					j++
					for j < len(s) && s[j] != '"' {
						j++
					}
				case ';':
					for j < len(s) && s[j] != '\n' {
						j++
					}
				case '|':
					j++
					for s[j] != '|' {
						j++
					}
				}
				j++
				if d == 0 {
					break
				}
			}
		} else if c == '"' {
			j++
			for j < len(s) && s[j] != '"' {
				j++
			}
			j++
		} else {
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func inner(s string) []string { return sexprs(s[1 : len(s)-1]) }

func symbols(s string) []string {
	var out []string
	var rec func(s string)
	rec = func(s string) {
		if strings.HasPrefix(s, "(") {
			for _, x := range inner(s) {
				rec(x)
			}
			return
		}
		if !strings.HasPrefix(s, `"`) {
			out = append(out, s)
		}
	}
	rec(s)
	return out
}

func (p *Prelude) add(text string) error {
	for _, c := range sexprs(text) {
		parts := inner(c)
		d := &smtDecl{text: c, order: len(p.all)}
		switch parts[0] {
		case "declare-fun":
			d.name = parts[1]
			d.args = inner(parts[2])
			d.res = parts[3]
		case "declare-const":
			d.name = parts[1]
			d.res = parts[2]
		case "define-fun", "define-fun-rec":
			d.name = parts[1]
			d.rec = parts[0] == "define-fun-rec"
			for _, a := range inner(parts[2]) {
				d.args = append(d.args, inner(a)[1])
			}
			d.res = parts[3]
		case "assert":
			d.ax = true
		default:
			return fmt.Errorf("prelude: %s", parts[0])
		}
		p.all = append(p.all, d)
		if d.ax {
			p.axs = append(p.axs, d)
		} else {
			if _, dup := p.decls[d.name]; dup {
				return fmt.Errorf("duplicate declaration %s", d.name)
			}
			p.decls[d.name] = d
		}
	}
	return nil
}

func (p *Prelude) link() {
	for _, d := range p.all {
		seen := map[string]bool{}
		for _, s := range symbols(d.text) {
			if _, ok := p.decls[s]; ok && s != d.name && !seen[s] {
				seen[s] = true
				d.uses = append(d.uses, s)
			}
		}
	}
}

// render emits the declarations needed for the given operators. An axiom is emitted when the first
// declared symbol it mentions is needed.
func (p *Prelude) render(ops map[string]bool, hide map[string]bool) string {
	need := map[*smtDecl]bool{}
	var visit func(d *smtDecl)
	visit = func(d *smtDecl) {
		if need[d] {
			return
		}
		need[d] = true
		if hide[d.name] {
			return
		}
		for _, u := range d.uses {
			visit(p.decls[u])
		}
		if !d.ax {
			for _, a := range p.axs {
				if len(a.uses) > 0 && a.uses[0] == d.name {
					visit(a)
				}
			}
		}
	}
	for o := range ops {
		if d, ok := p.decls[o]; ok {
			visit(d)
		}
	}
	var ds, as []*smtDecl
	for d := range need {
		if d.ax {
			as = append(as, d)
		} else {
			ds = append(ds, d)
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].order < ds[j].order })
	sort.Slice(as, func(i, j int) bool { return as[i].order < as[j].order })
	var sb strings.Builder
	for _, d := range append(ds, as...) {
		if hide[d.name] {
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", d.name, strings.Join(d.args, " "), d.res)
			continue
		}
		sb.WriteString(d.text)
		sb.WriteByte('\n')
	}
	// built-in uninterpreted functions of the memory model
	return sb.String()
}

// ---- parser ---------------------------------------------------------------

var kw = map[string]bool{"requires": true, "ensures": true, "proves": true, "invariant": true, "loop": true, "modifies": true, "allocs": true, "pure": true, "use": true, "useloop": true, "useend": true, "decreases": true, "props": true, "nilok": true, "panicok": true, "merge": true, "join": true, "inline": true, "trusted": true, "nomergecalls": true, "callback": true, "timeout": true, "solvers": true, "measure": true, "auto": true, "pattern": true, "end": true, "unroll": true, "noauto": true, "inlines": true, "assert": true, "after": true, "observer": true, "function": true, "opaque": true, "hide": true}

func parseClause(s string) (Clause, error) {
	c := Clause{Src: s}
	if i := strings.Index(s, ":"); i > 0 && isIdentDash(s[:i]) && !strings.HasPrefix(s[i:], ":=") {
		c.Name = s[:i]
		s = strings.TrimSpace(s[i+1:])
		c.Src = s
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return c, fmt.Errorf("%v in %q", err, s)
	}
	c.E = e
	return c, nil
}

func isIdentDash(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return false
		}
	}
	return s != ""
}

func LoadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{ByFunc: map[string]*Contract{}, Lemmas: map[string]*Contract{}, Defs: map[string]*SpecDef{}, Prel: &Prelude{decls: map[string]*smtDecl{}}}
	if err := cs.Prel.add(builtinPrelude); err != nil {
		return nil, err
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gov"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := cs.parse(f, string(b)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	cs.Prel.link()
	for n := range cs.Defs {
		if _, ok := cs.Prel.decls[n]; ok {
			return nil, fmt.Errorf("%s is both a def and an smt function", n)
		}
	}
	return cs, nil
}

func (cs *Contracts) parse(file, text string) error {
	lines := strings.Split(text, "\n")
	var cur *Contract
	var loop *LoopSpec
	var props []string
	i := 0
	// logical items: join continuation lines
	next := func() (string, string, bool) {
		for i < len(lines) {
			l := strings.TrimSpace(lines[i])
			if l == "" || strings.HasPrefix(l, "//") {
				i++
				continue
			}
			w := strings.Fields(l)[0]
			rest := strings.TrimSpace(strings.TrimPrefix(l, w))
			i++
			if w == "smt" {
				var sb strings.Builder
				for i < len(lines) && strings.TrimSpace(lines[i]) != "end" {
					sb.WriteString(lines[i] + "\n")
					i++
				}
				i++
				return "smt", sb.String(), true
			}
			for i < len(lines) {
				n := strings.TrimSpace(lines[i])
				if n == "" || strings.HasPrefix(n, "//") {
					i++
					continue
				}
				nw := strings.Fields(n)[0]
				if kw[nw] || nw == "func" || nw == "extern" || nw == "lemma" || nw == "def" || nw == "smt" || nw == "file-props" || nw == "axiom" {
					break
				}
				rest += " " + n
				i++
			}
			return w, rest, true
		}
		return "", "", false
	}
	for {
		w, rest, ok := next()
		if !ok {
			return nil
		}
		if cur == nil {
			switch w {
			case "smt":
				if err := cs.Prel.add(rest); err != nil {
					return err
				}
			case "file-props":
				props = strings.Fields(rest)
			case "def":
				k := strings.Index(rest, "(")
				e := strings.Index(rest, ")")
				name := strings.TrimSpace(rest[:k])
				var ps []string
				for _, p := range strings.Split(rest[k+1:e], ",") {
					if p = strings.TrimSpace(p); p != "" {
						ps = append(ps, p)
					}
				}
				body := strings.TrimSpace(rest[e+1:])
				body = strings.TrimSpace(strings.TrimPrefix(body, "="))
				ex, err := parser.ParseExpr(body)
				if err != nil {
					return fmt.Errorf("def %s: %v", name, err)
				}
				if cs.Defs[name] != nil {
					return fmt.Errorf("duplicate def %s", name)
				}
				cs.Defs[name] = &SpecDef{name, ps, ex, body}
			case "func", "extern", "lemma":
				cur = &Contract{Props: map[string]bool{}, File: filepath.Base(file), InlineSet: map[string]bool{}, Callbacks: map[string]*Contract{}}
				for _, p := range props {
					cur.Props[p] = true
				}
				k := strings.Index(rest, "(")
				cur.Func = strings.TrimSpace(rest[:k])
				r := rest[k+1:]
				e := 0
				for depth := 0; e < len(r) && (r[e] != ')' || depth > 0); e++ {
					switch r[e] {
					case '(':
						depth++
					case ')':
						depth--
					}
				}
				ps := splitNames(r[:e])
				r = strings.TrimSpace(r[e+1:])
				if w == "lemma" {
					cur.IsLemma = true
					for _, p := range ps {
						f := strings.SplitN(p, " ", 2)
						cur.LParams = append(cur.LParams, lparam{f[0], strings.TrimSpace(f[1])})
					}
					if cs.Lemmas[cur.Func] != nil {
						return fmt.Errorf("duplicate lemma %s", cur.Func)
					}
					cs.Lemmas[cur.Func] = cur
				} else {
					cur.Params = ps
					if strings.HasPrefix(r, "(") {
						cur.Results = splitNames(r[1:strings.Index(r, ")")])
					}
					if cs.ByFunc[cur.Func] != nil {
						return fmt.Errorf("duplicate contract %s", cur.Func)
					}
					cs.ByFunc[cur.Func] = cur
					if w == "extern" {
						cur.Extern, cur.Trusted = true, true
					}
				}
				cs.Order = append(cs.Order, cur)
				loop = nil
			default:
				return fmt.Errorf("unexpected %q", w)
			}
			continue
		}
		clause := func() (Clause, error) { return parseClause(rest) }
		var err error
		var c Clause
		switch w {
		case "end":
			cur = nil
		case "requires":
			if c, err = clause(); err == nil {
				cur.Requires = append(cur.Requires, c)
			}
		case "ensures", "proves":
			if c, err = clause(); err == nil {
				c.Own = w == "proves"
				cur.Ensures = append(cur.Ensures, c)
			}
		case "after": // after CALLEE E: a fact established by the statement that calls it
			nm, e, _ := strings.Cut(strings.TrimSpace(rest), " ")
			if c, err = parseClause(e); err == nil {
				c.At = nm
				cur.Cuts = append(cur.Cuts, c)
			}
		case "assert":
			if c, err = clause(); err == nil {
				cur.Asserts = append(cur.Asserts, c)
			}
		case "use":
			if c, err = clause(); err == nil {
				cur.Uses = append(cur.Uses, c)
			}
		case "useloop":
			if c, err = clause(); err == nil {
				loop.Uses = append(loop.Uses, c)
			}
		case "useend":
			if c, err = clause(); err == nil {
				loop.Ends = append(loop.Ends, c)
			}
		case "pattern":
			if c, err = clause(); err == nil {
				cur.Pattern = append(cur.Pattern, c)
			}
		case "measure":
			if c, err = clause(); err == nil {
				cur.Measure = &c
			}
		case "loop":
			loop = &LoopSpec{}
			cur.Loops = append(cur.Loops, loop)
		case "invariant":
			if c, err = clause(); err == nil {
				loop.Invs = append(loop.Invs, c)
			}
		case "decreases":
			if c, err = clause(); err == nil {
				loop.Dec = &c
			}
		case "unroll":
			fmt.Sscan(rest, &loop.Unroll)
		case "noauto":
			loop.NoAuto = true
		case "modifies":
			for _, it := range splitTop(rest) {
				m := ModItem{Src: it}
				if k := strings.Index(it, "["); k > 0 && !strings.HasPrefix(it, "m:[") && !strings.HasPrefix(it, "map:") {
					m.Key = it[:k]
					m.At, err = parser.ParseExpr(it[k+1 : len(it)-1])
				} else {
					m.Key = it
				}
				cur.Modifies = append(cur.Modifies, m)
			}
		case "allocs":
			cur.Allocs = append(cur.Allocs, splitTop(rest)...)
		case "callback":
			// callback NAME modifies a,b allocs c,d
			f := strings.Fields(rest)
			cb := &Contract{Func: f[0]}
			mode := ""
			for _, t := range f[1:] {
				if t == "modifies" || t == "allocs" || t == "pure" || t == "records" || t == "replaces" {
					cb.Pure = cb.Pure || t == "pure"
					mode = t
					continue
				}
				for _, it := range splitTop(t) {
					if mode == "records" {
						cb.Records = it
					} else if mode == "replaces" {
						cb.Replaces = it
					} else if mode == "modifies" {
						cb.Modifies = append(cb.Modifies, ModItem{Key: it, Src: it})
					} else {
						cb.Allocs = append(cb.Allocs, it)
					}
				}
			}
			cur.Callbacks[f[0]] = cb
		case "props":
			for _, p := range strings.Fields(rest) {
				cur.Props[p] = true
			}
		case "inlines":
			for _, p := range strings.Fields(rest) {
				cur.InlineSet[p] = true
			}
		case "nilok":
			cur.NilOK = true
		case "panicok":
			cur.PanicOK = true
		case "join": // join the paths that reach a branch, or the end of a loop, with the same outcome
			cur.Join = true
		case "merge":
			cur.Merge = true
		case "inline":
			cur.Inline = true
		case "trusted":
			cur.Trusted = true
		case "nomergecalls":
			cur.NoMergeCalls = true
		case "pure":
			cur.Pure = true
		case "observer":
			// a deterministic reader: equal arguments give equal results as long as nothing allocated earlier changes
			cur.Observer = true
			for _, it := range splitTop(rest) {
				var o Clause
				if o, err = parseClause(it); err != nil {
					break
				}
				cur.Of = append(cur.Of, o)
			}
		case "hide": // symbols whose definitions the solvers do not see: only what lemmas say about them
			if cur.Hide == nil {
				cur.Hide = map[string]bool{}
			}
			for _, n := range strings.Fields(rest) {
				cur.Hide[n] = true
			}
		case "opaque": // callers use only the name of the value, not the postconditions
			cur.Opaque = true
		case "function":
			cur.Function, cur.Pure = true, true
		case "auto":
			cur.Auto, cur.AutoFor = true, strings.TrimSpace(rest)
		case "timeout":
			fmt.Sscan(rest, &cur.TimeoutMs)
		case "solvers":
			cur.Strats = strings.Fields(rest)
		default:
			return fmt.Errorf("unexpected %q in %s", w, cur.Func)
		}
		if err != nil {
			return fmt.Errorf("%s: %v", cur.Func, err)
		}
	}
}

func splitNames(s string) []string {
	var out []string
	for _, p := range splitTop(s) {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func splitTop(s string) []string {
	var out []string
	d, j := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[j:i]))
				j = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[j:]); t != "" {
		out = append(out, t)
	}
	return out
}

const builtinPrelude = `
(declare-fun typeof (Int) Int)
(declare-fun emb (String Int) Int)
(declare-fun embinv (Int) Int)
(declare-fun box_Int (Int) Int)
(declare-fun box_Bool (Bool) Int)
(declare-fun box_String (String) Int)
(declare-fun box_Real (Real) Int)
(declare-fun unbox_String (Int) String)
(declare-fun unbox_Int (Int) Int)
(assert (forall ((s String)) (! (= (unbox_String (box_String s)) s) :pattern ((box_String s)))))
(assert (forall ((s Int)) (! (= (unbox_Int (box_Int s)) s) :pattern ((box_Int s)))))
(declare-fun utf8_encode (Int) String)
(declare-fun arr2str ((Array Int Int) Int Int) String)
(declare-fun runes2str ((Array Int Int) Int Int) String)
(declare-fun str2arr (String) (Array Int Int))
(declare-fun str2runes (String) (Array Int Int))
(declare-fun runecount (String) Int)
(assert (forall ((s String) (i Int)) (! (=> (and (<= 0 i) (< i (str.len s))) (= (select (str2arr s) i) (str.to_code (str.at s i)))) :pattern ((select (str2arr s) i)))))
(declare-fun card_Int ((Array Int Bool)) Int)
(declare-fun card_String ((Array String Bool)) Int)
(declare-fun acopy_Int ((Array Int Int) Int (Array Int Int) Int Int) (Array Int Int))
(declare-fun acopy_String ((Array Int String) Int (Array Int String) Int Int) (Array Int String))
(declare-fun acopy_Bool ((Array Int Bool) Int (Array Int Bool) Int Int) (Array Int Bool))
(assert (forall ((d (Array Int Int)) (do Int) (s (Array Int Int)) (so Int) (n Int) (k Int)) (! (= (select (acopy_Int d do s so n) k) (ite (and (<= do k) (< k (+ do n))) (select s (+ so (- k do))) (select d k))) :pattern ((select (acopy_Int d do s so n) k)))))
(assert (forall ((d (Array Int String)) (do Int) (s (Array Int String)) (so Int) (n Int) (k Int)) (! (= (select (acopy_String d do s so n) k) (ite (and (<= do k) (< k (+ do n))) (select s (+ so (- k do))) (select d k))) :pattern ((select (acopy_String d do s so n) k)))))
(assert (forall ((d (Array Int Bool)) (do Int) (s (Array Int Bool)) (so Int) (n Int) (k Int)) (! (= (select (acopy_Bool d do s so n) k) (ite (and (<= do k) (< k (+ do n))) (select s (+ so (- k do))) (select d k))) :pattern ((select (acopy_Bool d do s so n) k)))))
(declare-fun bitand (Int Int) Int)
(declare-fun bitor (Int Int) Int)
(declare-fun iface_Error (Int) String)
(declare-fun iface_String (Int) String)
`

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Hash-consed SMT terms.

type Term struct {
	op   string // operator / symbol / literal text
	args []*Term
	sort string
	id   int
	// quantifiers
	bound []*Term // bound vars (op "forall"/"exists"), args[0] body, args[1:] patterns
	kind  int     // 0 app, 1 int const, 2 string const, 3 var, 4 quant
	ival  *big.Int
	sval  string
	fv    bool // contains a bound variable
}

const (
	kApp = iota
	kInt
	kStr
	kVar
	kQuant
)

var terms = map[string]*Term{}
var termList []*Term

func intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s", t.kind, t.op, t.sort)
	for _, a := range t.args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	if t.kind == kQuant {
		sb.WriteString("|b")
		for _, a := range t.bound {
			fmt.Fprintf(&sb, "|%d", a.id)
		}
	}
	k := sb.String()
	if x, ok := terms[k]; ok {
		return x
	}
	t.id = len(termList) + 1
	for _, a := range t.args {
		if a.fv {
			t.fv = true
		}
	}
	if t.kind == kVar && strings.HasPrefix(t.op, "?") {
		t.fv = true
	}
	terms[k] = t
	termList = append(termList, t)
	return t
}

func mk(sort, op string, args ...*Term) *Term {
	return intern(&Term{op: op, args: args, sort: sort})
}
func Var(name, sort string) *Term { return intern(&Term{op: name, sort: sort, kind: kVar}) }

var freshN = map[string]int{}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!':
			sb.WriteRune(c)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func Fresh(name, sort string) *Term {
	name = sanitize(name)
	freshN[name]++
	t := Var(fmt.Sprintf("%s!%d", name, freshN[name]), sort)
	freshSeq++
	freshAt[t] = freshSeq
	return t
}

var freshSeq int
var freshAt = map[*Term]int{}

// newerThan reports whether t mentions a symbol made after the given point.
func newerThan(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if freshAt[t] > mark {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func I(n int64) *Term { return BI(big.NewInt(n)) }
func BI(n *big.Int) *Term {
	return intern(&Term{op: n.String(), sort: "Int", kind: kInt, ival: new(big.Int).Set(n)})
}
func S(s string) *Term { return intern(&Term{op: s, sort: "String", kind: kStr, sval: s}) }

var tTrue = mk("Bool", "true")
var tFalse = mk("Bool", "false")

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func Not(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.kind == kApp && a.op == "not" {
		return a.args[0]
	}
	return mk("Bool", "not", a)
}

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == zero {
			return false
		}
		if a == unit || seen[a.id] {
			return true
		}
		if a.kind == kApp && a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return mk("Bool", op, out...)
}
func And(as ...*Term) *Term { return nary("and", tTrue, tFalse, as) }
func Or(as ...*Term) *Term  { return nary("or", tFalse, tTrue, as) }
func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("Bool", "=>", a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	return mk(a.sort, "ite", c, a, b)
}

func isConst(t *Term) bool { return t.kind == kInt || t.kind == kStr || t == tTrue || t == tFalse }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isConst(a) && isConst(b) {
		return tFalse
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return Not(b)
	}
	if b == tFalse {
		return Not(a)
	}
	if a.sort == "Int" {
		// x+c = y+d
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb {
			return B(ca.Cmp(cb) == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	// fresh refs distinct from nil
	return mk("Bool", "=", a, b)
}

// splitConst splits t into base + const.
func splitConst(t *Term) (*Term, *big.Int) {
	if t.kind == kInt {
		return nil, t.ival
	}
	if t.kind == kApp && t.op == "+" && len(t.args) == 2 && t.args[1].kind == kInt {
		return t.args[0], t.args[1].ival
	}
	return t, big.NewInt(0)
}

func Add(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	c := new(big.Int).Add(ca, cb)
	if ba == nil && bb == nil {
		return BI(c)
	}
	var base *Term
	if ba == nil {
		base = bb
	} else if bb == nil {
		base = ba
	} else {
		// cancel a - x + x
		if ba.op == "-" && ba.kind == kApp && len(ba.args) == 2 && ba.args[1] == bb {
			base = ba.args[0]
		} else if bb.op == "-" && bb.kind == kApp && len(bb.args) == 2 && bb.args[1] == ba {
			base = bb.args[0]
		} else {
			base = mk("Int", "+", ba, bb)
		}
		x, y := splitConst(base)
		if y.Sign() != 0 {
			base = x
			c.Add(c, y)
			if base == nil {
				return BI(c)
			}
		}
	}
	if c.Sign() == 0 {
		return base
	}
	return mk("Int", "+", base, BI(c))
}
func Neg(a *Term) *Term { return Sub(I(0), a) }
func Sub(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	c := new(big.Int).Sub(ca, cb)
	if bb == nil {
		return Add(a, BI(new(big.Int).Neg(cb)))
	}
	if ba == bb {
		return BI(c)
	}
	if ba != nil && ba.kind == kApp && ba.op == "+" && len(ba.args) == 2 {
		if ba.args[0] == bb {
			return Add(ba.args[1], BI(c))
		}
		if ba.args[1] == bb {
			return Add(ba.args[0], BI(c))
		}
	}
	if ba == nil {
		ba = I(0)
	}
	return Add(mk("Int", "-", ba, bb), BI(c))
}
func Mul(a, b *Term) *Term {
	if a.kind == kInt && b.kind == kInt {
		return BI(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.kind == kInt {
		a, b = b, a
	}
	if b.kind == kInt && b.ival.Sign() == 0 {
		return I(0)
	}
	if b.kind == kInt && b.ival.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("Int", "*", a, b)
}
func Le(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb {
		return B(ca.Cmp(cb) <= 0)
	}
	return mk("Bool", "<=", a, b)
}
func Lt(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb {
		return B(ca.Cmp(cb) < 0)
	}
	return mk("Bool", "<", a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func elemSort(arr string) string {
	// "(Array Int X)" -> X, with K possibly compound
	s := strings.TrimSuffix(strings.TrimPrefix(arr, "(Array "), ")")
	// skip first sort
	d := 0
	for i, c := range s {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return s[i+1:]
		}
	}
	panic("elemSort " + arr)
}

func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func distinctSyn(a, b *Term) bool {
	if isConst(a) && isConst(b) && a != b {
		return true
	}
	if a.sort == "Int" {
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb && ca.Cmp(cb) != 0 {
			return true
		}
	}
	return false
}

func Select(a, i *Term) *Term {
	for a.kind == kApp && a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctSyn(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.kind == kApp && a.op == "constarr" {
		return a.args[0]
	}
	if a.kind == kApp && a.op == "ite" {
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		return Ite(a.args[0], x, y)
	}
	return mk(elemSort(a.sort), "select", a, i)
}
func Store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("Store sorts: %s <- %s (%s)", a.sort, v.sort, v))
	}
	if a.kind == kApp && a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.kind == kApp && a.op == "constarr" && a.args[0] == v {
		return a
	}
	if a.kind == kApp && a.op == "select" || a.kind == kVar {
		// store(a,i,select(a,i)) = a
		if v.kind == kApp && v.op == "select" && v.args[0] == a && v.args[1] == i {
			return a
		}
	}
	return mk(a.sort, "store", a, i, v)
}
func ConstArr(sort string, v *Term) *Term { return mk(sort, "constarr", v) }

// Strings
func StrLen(a *Term) *Term {
	if a.kind == kStr {
		return I(int64(len(a.sval)))
	}
	if a.kind == kApp && a.op == "str.++" {
		r := I(0)
		for _, x := range a.args {
			r = Add(r, StrLen(x))
		}
		return r
	}
	return mk("Int", "str.len", a)
}
func Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.kind == kApp && a.op == "str.++" {
			for _, x := range a.args {
				out = appendStr(out, x)
			}
			continue
		}
		out = appendStr(out, a)
	}
	if len(out) == 0 {
		return S("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("String", "str.++", out...)
}
func appendStr(out []*Term, x *Term) []*Term {
	if x.kind == kStr && x.sval == "" {
		return out
	}
	if n := len(out); n > 0 && x.kind == kStr && out[n-1].kind == kStr {
		out[n-1] = S(out[n-1].sval + x.sval)
		return out
	}
	return append(out, x)
}
func Substr(s, lo, n *Term) *Term {
	if s.kind == kStr && lo.kind == kInt && n.kind == kInt {
		l, k := int(lo.ival.Int64()), int(n.ival.Int64())
		if l >= 0 && k >= 0 && l+k <= len(s.sval) {
			return S(s.sval[l : l+k])
		}
	}
	if lo == I(0) && n == StrLen(s) {
		return s
	}
	if s.kind == kApp && s.op == "str.++" && lo.kind == kInt && s.args[0].kind == kStr && n.kind != kInt {
		k, h := int(lo.ival.Int64()), s.args[0].sval
		if k > 0 && k <= len(h) {
			return Substr(Concat(append([]*Term{S(h[k:])}, s.args[1:]...)...), I(0), n)
		}
	}
	return mk("String", "str.substr", s, lo, n)
}
func StrAt(s, i *Term) *Term {
	if s.kind == kStr && i.kind == kInt {
		k := int(i.ival.Int64())
		if k >= 0 && k < len(s.sval) {
			return I(int64(s.sval[k]))
		}
	}
	return mk("Int", "str.to_code", mk("String", "str.at", s, i))
}
func Pred(op string, a, b *Term) *Term {
	if a.kind == kStr && b.kind == kStr {
		switch op {
		case "str.prefixof":
			return B(strings.HasPrefix(b.sval, a.sval))
		case "str.suffixof":
			return B(strings.HasSuffix(b.sval, a.sval))
		case "str.contains":
			return B(strings.Contains(a.sval, b.sval))
		case "str.<":
			return B(a.sval < b.sval)
		case "str.<=":
			return B(a.sval <= b.sval)
		}
	}
	switch op {
	case "str.prefixof":
		if a.kind == kStr && a.sval == "" || a == b {
			return tTrue
		}
		if a.kind == kStr && b.kind == kApp && b.op == "str.++" && b.args[0].kind == kStr {
			h := b.args[0].sval
			if len(h) >= len(a.sval) {
				return B(strings.HasPrefix(h, a.sval))
			}
			if !strings.HasPrefix(a.sval, h) {
				return tFalse
			}
			return Pred(op, S(a.sval[len(h):]), Concat(b.args[1:]...))
		}
		if b.kind == kApp && b.op == "str.++" && a == b.args[0] {
			return tTrue
		}
		if a.kind == kStr && len(a.sval) == 1 && b.kind == kApp && b.op == "str.++" {
			return Or(Pred(op, a, b.args[0]), And(Eq(b.args[0], S("")), Pred(op, a, Concat(b.args[1:]...))))
		}
	case "str.suffixof":
		if a.kind == kStr && a.sval == "" || a == b {
			return tTrue
		}
		if a.kind == kStr && b.kind == kApp && b.op == "str.++" && b.args[len(b.args)-1].kind == kStr {
			h := b.args[len(b.args)-1].sval
			if len(h) >= len(a.sval) {
				return B(strings.HasSuffix(h, a.sval))
			}
			if !strings.HasSuffix(a.sval, h) {
				return tFalse
			}
		}
	case "str.contains":
		if a == b {
			return tTrue
		}
		if b.kind == kStr && len(b.sval) == 1 && a.kind == kApp && a.op == "str.++" {
			var os []*Term
			for _, x := range a.args {
				os = append(os, Pred(op, x, b))
			}
			return Or(os...)
		}
	}
	return mk("Bool", op, a, b)
}

func Quant(q string, bound []*Term, body *Term, pats ...*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	args := append([]*Term{body}, pats...)
	t := intern(&Term{op: q, args: args, sort: "Bool", kind: kQuant, bound: bound})
	return t
}

// alphaNorm renames bound variables by their nesting depth, so that alpha-equivalent terms become equal.
func alphaNorm(t *Term, depth int) *Term {
	if len(t.args) == 0 {
		return t
	}
	if t.kind == kQuant {
		m := map[*Term]*Term{}
		var bs []*Term
		for i, b := range t.bound {
			nb := Var(fmt.Sprintf("?a%d_%d", depth, i), b.sort)
			m[b] = nb
			bs = append(bs, nb)
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = alphaNorm(Subst(a, m), depth+1)
		}
		return Quant(t.op, bs, as[0], as[1:]...)
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = alphaNorm(a, depth)
	}
	return rebuild(t, as)
}

// Subst replaces variables.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	if t.kind == kQuant {
		return Quant(t.op, t.bound, as[0], as[1:]...)
	}
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Implies(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "+":
		if len(as) == 2 && t.sort == "Int" {
			return Add(as[0], as[1])
		}
	case "str.++":
		return Concat(as...)
	case "str.len":
		return StrLen(as[0])
	case "str.prefixof", "str.suffixof", "str.contains", "str.<", "str.<=":
		return Pred(t.op, as[0], as[1])
	case "str.substr":
		return Substr(as[0], as[1], as[2])
	case "-":
		if len(as) == 2 && t.sort == "Int" {
			return Sub(as[0], as[1])
		}
	case "<=":
		if as[0].sort == "Int" {
			return Le(as[0], as[1])
		}
	case "<":
		if as[0].sort == "Int" {
			return Lt(as[0], as[1])
		}
	}
	return intern(&Term{op: t.op, args: as, sort: t.sort, kind: t.kind})
}

func quoteSMT(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 0x20 || c >= 0x7f:
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func symName(s string) string {
	ok := s != ""
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '!' || c == '$' || c == '.' || c == '?' || i > 0 && c >= '0' && c <= '9') {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + s + "|"
}

func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb, nil, 0)
	s := sb.String()
	return s
}

func (t *Term) print(sb *strings.Builder, names map[int]string, depth int) {
	if n, ok := names[t.id]; ok && depth > 0 {
		sb.WriteString(n)
		return
	}
	if names == nil && sb.Len() > 4000 {
		sb.WriteString("...")
		return
	}
	switch t.kind {
	case kInt:
		if t.ival.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.ival))
		} else {
			sb.WriteString(t.op)
		}
		return
	case kStr:
		sb.WriteString(quoteSMT(t.sval))
		return
	case kVar:
		sb.WriteString(symName(t.op))
		return
	case kQuant:
		fmt.Fprintf(sb, "(%s (", t.op)
		for _, b := range t.bound {
			fmt.Fprintf(sb, "(%s %s)", symName(b.op), b.sort)
		}
		sb.WriteString(") ")
		if len(t.args) > 1 {
			sb.WriteString("(! ")
		}
		t.args[0].print(sb, names, depth+1)
		if len(t.args) > 1 {
			for _, p := range t.args[1:] {
				if p.op == "$pats" {
					sb.WriteString(" :pattern (")
					for i, x := range p.args {
						if i > 0 {
							sb.WriteByte(' ')
						}
						x.print(sb, names, depth+1)
					}
					sb.WriteString(")")
				} else {
					sb.WriteString(" :pattern (")
					p.print(sb, names, depth+1)
					sb.WriteString(")")
				}
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if t.op == "constarr" {
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		t.args[0].print(sb, names, depth+1)
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.print(sb, names, depth+1)
	}
	sb.WriteByte(')')
}

// collect visits every subterm once (post-order).
func collect(ts []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// script renders assertions to SMT-LIB with shared subterms as define-funs.
func renderQuery(prelude *Prelude, asserts []*Term, hide map[string]bool) string {
	var sb strings.Builder
	count := map[int]int{}
	var order []*Term
	vars := map[string]string{}
	ops := map[string]bool{}
	collect(asserts, func(t *Term) {
		order = append(order, t)
		for _, a := range t.args {
			count[a.id]++
		}
		if t.kind == kVar && !strings.HasPrefix(t.op, "?") {
			vars[t.op] = t.sort
		}
		if t.kind == kApp {
			ops[t.op] = true
		}
	})
	sb.WriteString(prelude.render(ops, hide))
	var vs []string
	for v := range vars {
		if _, ok := prelude.decls[v]; !ok {
			vs = append(vs, v)
		}
	}
	sort.Strings(vs)
	// undeclared functions: uninterpreted
	fdone := map[string]bool{}
	for _, t := range order {
		if t.kind != kApp || fdone[t.op] || smtBuiltin(t.op) {
			continue
		}
		if _, ok := prelude.decls[t.op]; ok {
			continue
		}
		fdone[t.op] = true
		sb.WriteString("(declare-fun " + t.op + " (")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.sort)
		}
		sb.WriteString(") " + t.sort + ")\n")
	}
	for _, v := range vs {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symName(v), vars[v])
	}
	names := map[int]string{}
	for _, t := range order {
		if t.kind == kApp && len(t.args) > 0 && count[t.id] > 1 && !t.fv && t.op != "$pats" {
			n := fmt.Sprintf("t$%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.sort)
			t.print(&sb, names, 0)
			sb.WriteString(")\n")
			names[t.id] = n
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		a.print(&sb, names, 1)
		sb.WriteString(")\n")
	}
	return sb.String()
}

var smtOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "select": true, "store": true, "constarr": true, "+": true, "-": true, "*": true, "div": true, "mod": true, "<": true, "<=": true, ">": true, ">=": true, "true": true, "false": true, "to_real": true, "to_int": true, "$pats": true, "distinct": true, "xor": true, "abs": true, "/": true}

func smtBuiltin(op string) bool {
	if smtOps[op] || strings.HasPrefix(op, "str.") || strings.HasPrefix(op, "re.") {
		return true
	}
	return op != "" && (op[0] >= '0' && op[0] <= '9' || op[0] == '(')
}

// flattenConj splits assertions into conjuncts, skolemising negated quantifiers.
func flattenConj(ts []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term, pos bool)
	add = func(t *Term, pos bool) {
		if t.kind == kApp {
			switch t.op {
			case "not":
				add(t.args[0], !pos)
				return
			case "and":
				if pos {
					for _, a := range t.args {
						add(a, true)
					}
					return
				}
			case "or":
				if !pos {
					for _, a := range t.args {
						add(a, false)
					}
					return
				}
			case "=>":
				if !pos {
					add(t.args[0], true)
					add(t.args[1], false)
					return
				}
			}
		}
		if t.kind == kQuant && !t.fv0() && (t.op == "forall" && !pos || t.op == "exists" && pos) {
			m := map[*Term]*Term{}
			for _, b := range t.bound {
				m[b] = Fresh("sk_"+strings.TrimPrefix(b.op, "?"), b.sort)
			}
			add(Subst(t.args[0], m), pos)
			return
		}
		if !pos {
			t = Not(t)
		}
		if t == tTrue || seen[t.id] {
			return
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, t := range ts {
		add(t, true)
	}
	return out
}

// fv0 reports whether a quantified term has free occurrences of outer bound variables.
func (t *Term) fv0() bool {
	free := false
	var rec func(t *Term, bound map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool) {
		if free || !t.fv {
			return
		}
		if t.kind == kVar {
			if !bound[t] {
				free = true
			}
			return
		}
		b := bound
		if t.kind == kQuant {
			b = map[*Term]bool{}
			for k := range bound {
				b[k] = true
			}
			for _, v := range t.bound {
				b[v] = true
			}
		}
		for _, a := range t.args {
			rec(a, b)
		}
	}
	rec(t, map[*Term]bool{})
	return free
}

func occurs(v, t *Term) bool {
	found := false
	collect([]*Term{t}, func(x *Term) {
		if x == v {
			found = true
		}
	})
	return found
}

// simplifyQuery propagates unit literals, eliminates string terms defined by an equation and splits word
// equations around a separator neither side contains. Every step is an equivalence (or keeps
// equisatisfiability by eliminating a defined symbol).
func simplifyQuery(cs []*Term) []*Term {
	hasStr := false
	collect(cs, func(t *Term) {
		if t.kind == kApp && t.op == "str.++" {
			hasStr = true
		}
	})
	if !hasStr {
		return cs
	}
	for round := 0; round < 40; round++ {
		changed := false
		// unit propagation
		units := map[*Term]*Term{}
		for _, c := range cs {
			if c.kind == kApp && c.op == "not" {
				units[c.args[0]] = tFalse
			} else if c.kind == kApp && c.op != "or" && c.op != "=>" && c.op != "ite" {
				units[c] = tTrue
			}
		}
		delete(units, tTrue)
		delete(units, tFalse)
		var nx []*Term
		for _, c := range cs {
			if c.kind == kApp && (c.op == "or" || c.op == "=>" || c.op == "ite" || c.op == "=" && c.args[0].sort == "Bool" || c.op == "not" && (c.args[0].op == "and" || c.args[0].op == "ite" || c.args[0].op == "=" && c.args[0].args[0].sort == "Bool")) {
				m := map[*Term]*Term{}
				for k, v := range units {
					if k != c && !(c.op == "not" && c.args[0] == k) {
						m[k] = v
					}
				}
				n := Subst(c, m)
				if n != c {
					changed = true
				}
				nx = append(nx, n)
				continue
			}
			nx = append(nx, c)
		}
		if changed {
			cs = flattenConj(nx)
		}
		// defined strings
		var v, d *Term
		at := -1
		for i, c := range cs {
			if c.kind == kApp && c.op == "=" && c.args[0].sort == "String" {
				for k := 0; k < 2; k++ {
					a, b := c.args[k], c.args[1-k]
					isv := a.kind == kVar || a.kind == kApp && strings.HasPrefix(a.op, "lib_") && !(b.kind == kVar)
					if isv && !a.fv && !b.fv && !occurs(a, b) {
						v, d, at = a, b, i
						break
					}
				}
			}
			if at >= 0 {
				break
			}
		}
		if at >= 0 {
			var nx []*Term
			keep := v.kind != kVar
			for i, c := range cs {
				if i == at {
					if keep {
						// the definition of an uninterpreted application stays (congruence), hidden from elimination
						nx = append(nx, mk("Bool", "or", c, mk("Bool", "and", tFalse)))
					}
					continue
				}
				nx = append(nx, Subst(c, map[*Term]*Term{v: d}))
			}
			_ = keep
			cs = flattenKeep(nx)
			continue
		}
		// word equations
		for i, c := range cs {
			if c.kind != kApp || c.op != "=" || c.args[0].sort != "String" {
				continue
			}
			if n, ok := splitWordEq(c, units); ok {
				cs[i] = n
				cs = flattenKeep(cs)
				changed = true
				break
			}
		}
		if !changed {
			break
		}
	}
	// restore hidden definitions
	for i, c := range cs {
		if c.kind == kApp && c.op == "or" && len(c.args) == 2 && c.args[1].op == "and" && len(c.args[1].args) == 1 {
			cs[i] = c.args[0]
		}
	}
	return cs
}

func flattenKeep(ts []*Term) []*Term {
	var out, rest []*Term
	for _, c := range ts {
		if c.kind == kApp && c.op == "or" && len(c.args) == 2 && c.args[1].op == "and" && len(c.args[1].args) == 1 {
			out = append(out, c)
		} else {
			rest = append(rest, c)
		}
	}
	return append(out, flattenConj(rest)...)
}

func concatParts(t *Term) []*Term {
	if t.kind == kApp && t.op == "str.++" {
		return t.args
	}
	return []*Term{t}
}

func splitWordEq(c *Term, units map[*Term]*Term) (*Term, bool) {
	a, b := concatParts(c.args[0]), concatParts(c.args[1])
	if len(a) == 1 && len(b) == 1 {
		return nil, false
	}
	// common prefix / suffix
	if a[0] == b[0] {
		return Eq(Concat(a[1:]...), Concat(b[1:]...)), true
	}
	if a[len(a)-1] == b[len(b)-1] {
		return Eq(Concat(a[:len(a)-1]...), Concat(b[:len(b)-1]...)), true
	}
	if a[0].kind == kStr && b[0].kind == kStr {
		x, y := a[0].sval, b[0].sval
		n := min(len(x), len(y))
		if n > 0 {
			if x[:n] != y[:n] {
				return tFalse, true
			}
			return Eq(Concat(append([]*Term{S(x[n:])}, a[1:]...)...), Concat(append([]*Term{S(y[n:])}, b[1:]...)...)), true
		}
	}
	if la, lb := a[len(a)-1], b[len(b)-1]; la.kind == kStr && lb.kind == kStr {
		x, y := la.sval, lb.sval
		n := min(len(x), len(y))
		if n > 0 {
			if x[len(x)-n:] != y[len(y)-n:] {
				return tFalse, true
			}
			return Eq(Concat(append(append([]*Term{}, a[:len(a)-1]...), S(x[:len(x)-n]))...), Concat(append(append([]*Term{}, b[:len(b)-1]...), S(y[:len(y)-n]))...)), true
		}
	}
	free := func(x *Term, ch string) bool {
		if x.kind == kStr {
			return !strings.Contains(x.sval, ch)
		}
		v, ok := units[mk("Bool", "str.contains", x, S(ch))]
		return ok && v == tFalse
	}
	if len(a) >= 2 && len(b) >= 2 && a[1].kind == kStr && b[1].kind == kStr && a[1].sval[0] == b[1].sval[0] {
		ch := a[1].sval[:1]
		if free(a[0], ch) && free(b[0], ch) {
			return And(Eq(a[0], b[0]), Eq(Concat(a[1:]...), Concat(b[1:]...))), true
		}
	}
	// constant head containing the separator against x ++ sep ...
	for k := 0; k < 2; k++ {
		if len(a) >= 2 && a[1].kind == kStr && b[0].kind == kStr {
			ch := a[1].sval[:1]
			if i := strings.Index(b[0].sval, ch); i >= 0 && free(a[0], ch) {
				return And(Eq(a[0], S(b[0].sval[:i])), Eq(Concat(a[1:]...), Concat(append([]*Term{S(b[0].sval[i:])}, b[1:]...)...))), true
			}
		}
		a, b = b, a
	}
	return nil, false
}

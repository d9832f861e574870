package main

// The specification side: every value that is built with the API under test is built together with a description of
// the text it stands for. The description is emitted as tokens; the rendered text has to read as exactly these tokens.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

const (
	Hole Kind = 100 + iota // only in expectations: a condition, compared by meaning
	Opt                    // only in expectations: parentheses that may be there or not
)

type W struct {
	out   []Tok
	nodes map[int]bool
	alias map[int]string
	// aliases that were defined, by expression and name
	defined map[string]bool
	holes   []*Form
	// when set, conditions are emitted as they are rendered instead of as holes
}

func newW() *W { return &W{nodes: map[int]bool{}, alias: map[int]string{}, defined: map[string]bool{}} }

func (w *W) put(t Tok) { w.out = append(w.out, t) }
func (w *W) kw(ss ...string) {
	for _, s := range ss {
		for _, f := range strings.Fields(s) {
			w.put(Tok{K: KW, S: f})
		}
	}
}
func (w *W) sym(ss ...string) {
	for _, s := range ss {
		w.put(Tok{K: Sym, S: s})
	}
}
func (w *W) name(s string) { w.put(Tok{K: NM, S: s}) }
func (w *W) str(s string)  { w.put(Tok{K: Str, S: s}) }
func (w *W) num(n int) {
	if n < 0 {
		w.sym("-")
		w.put(Tok{K: Num, N: new(big.Rat).Neg(new(big.Rat).SetInt64(int64(n)))})
		return
	}
	w.put(Tok{K: Num, N: new(big.Rat).SetInt64(int64(n))})
}

// open and close stand around something that may be in parentheses.
func (w *W) open()  { w.put(Tok{K: Opt, S: "("}) }
func (w *W) close() { w.put(Tok{K: Opt, S: ")"}) }

type Em func(w *W)

var idCount int

func nextID() int { idCount++; return idCount }

// X is an expression and what it has to read as.
type X struct {
	v  cy.Expression
	id int
	em Em
	// an operator without parentheses of its own
	operator bool
}

func mkX(v cy.Expression, em Em) X { return X{v: v, id: nextID(), em: em} }

func (w *W) x(e X) {
	if a, ok := w.alias[e.id]; ok {
		w.name(a)
		return
	}
	e.em(w)
}

func (w *W) xs(es []X) {
	for i, e := range es {
		if i > 0 {
			w.sym(",")
		}
		w.x(e)
	}
}

func vals(es []X) []cy.Expression {
	r := make([]cy.Expression, len(es))
	for i := range es {
		r[i] = es[i].v
	}
	return r
}

func xSym(name string) X {
	return once(func() X { return mkX(cy.ASymbolic(name), func(w *W) { w.name(name) }) }, "sym", name)
}
func xProp(c, n string) X {
	return once(func() X {
		return mkX(cy.AProperty(c, n), func(w *W) { w.name(c); w.sym("."); w.name(n) })
	}, "prop", c, n)
}
func xInt(n int) X {
	return once(func() X { return mkX(cy.LiteralOf(n), func(w *W) { w.num(n) }) }, "int", n)
}
func xStr(s string) X {
	return once(func() X { return mkX(cy.LiteralOf(s), func(w *W) { w.str(s) }) }, "str", s)
}
func xParam(s string) X {
	return once(func() X { return mkX(cy.AParam(s), func(w *W) { w.sym("$"); w.name(s) }) }, "param", s)
}

// nodeNamed and relNamed are elements of which the name matters only.
func nodeNamed(s string) cy.Node {
	return once(func() cy.Node { return cy.AnyNodeNamed(s) }, "node named", s)
}
func relNamed(s string) cy.Relationship {
	return once(func() cy.Relationship {
		return cy.AnyNode().RelationshipTo(cy.AnyNode(), "T").NamedByString(s)
	}, "rel named", s)
}

// A is an aliased expression.
type A struct {
	v     cy.AliasedExpression
	of    X
	alias string
}

func mkA(of X, alias string) A {
	return once(func() A { return A{cy.AliasedExpressionCreate(of.v, alias), of, alias} }, "alias", of.id, alias)
}

func (w *W) a(a A) {
	if w.defined[fmt.Sprint(a.of.id, a.alias)] {
		w.name(a.alias)
		return
	}
	w.x(a.of)
	w.kw("AS")
	w.name(a.alias)
	w.alias[a.of.id] = a.alias
	w.defined[fmt.Sprint(a.of.id, a.alias)] = true
}

func (a A) x() X { return mkX(a.v, func(w *W) { w.a(a) }) }

// KV is an entry of a map.
type KV struct {
	k string
	v X
}

func (w *W) mapOf(kvs []KV) {
	w.sym("{")
	for i, kv := range kvs {
		if i > 0 {
			w.sym(",")
		}
		w.name(kv.k)
		w.sym(":")
		w.x(kv.v)
	}
	w.sym("}")
}

func kvArgs(kvs []KV) []interface{} {
	var r []interface{}
	for _, kv := range kvs {
		r = append(r, kv.k, kv.v.v)
	}
	return r
}

// N is a node.
type N struct {
	v      cy.Node
	id     int
	name   string
	labels []string
	props  []KV
}

func mkN(name string, labels []string, props []KV) N {
	if len(props) == 0 {
		return once(func() N { return newN(name, labels, nil) }, "node", name, fmt.Sprint(labels))
	}
	return newN(name, labels, props)
}

func newN(name string, labels []string, props []KV) N {
	var v cy.Node
	if len(labels) > 0 {
		v = cy.NewNodeWithLabels(labels[0], labels[1:]...)
	} else {
		v = cy.AnyNode()
	}
	if len(props) > 0 {
		v = v.WithRawProperties(kvArgs(props)...)
	}
	if name != "" {
		v = v.NamedByString(name)
	}
	return N{v, nextID(), name, labels, props}
}

func (w *W) n(n N) {
	w.sym("(")
	if n.name != "" {
		w.name(n.name)
		if w.nodes[n.id] {
			w.sym(")")
			return
		}
		w.nodes[n.id] = true
	}
	for _, l := range n.labels {
		w.sym(":")
		w.name(l)
	}
	if len(n.props) > 0 {
		w.mapOf(n.props)
	}
	w.sym(")")
}

// R is a relationship.
type R struct {
	v     cy.Relationship
	id    int
	l, r  N
	dir   int // 0 to, 1 from, 2 between
	name  string
	types []string
	// length: 0 none, 1 unbounded, 2 min, 3 max, 4 both
	lk, min, max int
	props        []KV
}

func mkR(l N, dir int, r N, types ...string) R {
	return once(func() R { return newR(l, dir, r, types) }, "rel", l.id, dir, r.id, fmt.Sprint(types))
}

func newR(l N, dir int, r N, types []string) R {
	var v cy.Relationship
	switch dir {
	case 0:
		v = l.v.RelationshipTo(r.v, types...)
	case 1:
		v = l.v.RelationshipFrom(r.v, types...)
	default:
		v = l.v.RelationshipBetween(r.v, types...)
	}
	return R{v: v, id: nextID(), l: l, r: r, dir: dir, types: types}
}

func (r R) named(s string) R {
	return once(func() R { r.v = r.v.NamedByString(s); r.name = s; r.id = nextID(); return r }, "named", r.id, s)
}

func (w *W) det(r R) {
	if r.dir == 1 {
		w.sym("<")
	}
	w.sym("-")
	if r.name != "" || len(r.types) > 0 || r.lk != 0 || len(r.props) > 0 {
		w.sym("[")
		if r.name != "" {
			w.name(r.name)
		}
		for i, t := range r.types {
			if i == 0 {
				w.sym(":")
			} else {
				w.sym("|")
			}
			w.name(t)
		}
		if r.lk != 0 {
			w.sym("*")
			if r.lk == 2 || r.lk == 4 {
				w.num(r.min)
			}
			if r.lk >= 2 {
				w.sym("..")
			}
			if r.lk == 3 || r.lk == 4 {
				w.num(r.max)
			}
		}
		if len(r.props) > 0 {
			w.mapOf(r.props)
		}
		w.sym("]")
	}
	w.sym("-")
	if r.dir == 0 {
		w.sym(">")
	}
}

func (w *W) r(r R) { w.n(r.l); w.det(r); w.n(r.r) }

// Ch is a chain: the right node of each relationship is the left one of the next.
type Ch struct {
	v  cy.RelationshipChain
	rs []R
}

func (w *W) ch(c Ch) {
	w.n(c.rs[0].l)
	for _, r := range c.rs {
		w.det(r)
		w.n(r.r)
	}
}

// P is anything that can stand in a pattern list.
type P struct {
	v  cy.PatternElement
	em Em
}

func (n N) p() P  { return P{n.v, func(w *W) { w.n(n) }} }
func (r R) p() P  { return P{r.v, func(w *W) { w.r(r) }} }
func (c Ch) p() P { return P{c.v, func(w *W) { w.ch(c) }} }

func (w *W) ps(ps []P) {
	for i, p := range ps {
		if i > 0 {
			w.sym(",")
		}
		p.em(w)
	}
}

func pvals(ps []P) []cy.PatternElement {
	r := make([]cy.PatternElement, len(ps))
	for i := range ps {
		r[i] = ps[i].v
	}
	return r
}

// Form is a formula of propositional logic.
type Form struct {
	op   string // atom and or xor not true false empty
	kids []*Form
	em   Em
	// filled when it is emitted
	toks []Tok
}

// Cn is a condition and what it means.
type Cn struct {
	v  cy.Condition
	f  *Form
	id int
}

func atomC(v cy.Condition, em Em) Cn {
	return Cn{v, &Form{op: "atom", em: em}, nextID()}
}

// propC is the condition c.n = i.
func propC(c, n string, i int) Cn {
	return once(func() Cn {
		return atomC(cy.AProperty(c, n).IsEqualTo(cy.LiteralOf(i)).Get(), func(w *W) {
			w.name(c)
			w.sym(".")
			w.name(n)
			w.sym("=")
			w.num(i)
		})
	}, "cond", c, n, i)
}

func patC(r R) Cn { return atomC(cy.RelationshipPatternConditionCreate(r.v), func(w *W) { w.r(r) }) }

func (f *Form) empty() bool { return f == nil || f.op == "empty" }

var fEmpty = &Form{op: "empty"}

func fBin(op string, a, b *Form) *Form {
	if a.empty() {
		return b
	}
	if b.empty() {
		return a
	}
	return &Form{op: op, kids: []*Form{a, b}}
}
func fNot(a *Form) *Form { return &Form{op: "not", kids: []*Form{a}} }

func (f *Form) atoms(out []*Form) []*Form {
	if f.op == "atom" {
		return append(out, f)
	}
	for _, k := range f.kids {
		out = k.atoms(out)
	}
	return out
}

func (f *Form) String() string {
	switch f.op {
	case "atom":
		return strings.ReplaceAll(toks(f.toks), " ", "")
	case "and", "or", "xor":
		return "(" + f.kids[0].String() + " " + f.op + " " + f.kids[1].String() + ")"
	case "not":
		return "not(" + f.kids[0].String() + ")"
	}
	return f.op
}

// cond emits a condition; its text is compared by meaning.
func (w *W) cond(f *Form) {
	// every emission gets its own copy: the atoms' tokens depend on what was declared before
	g := f.snapshot(w)
	w.holes = append(w.holes, g)
	w.put(Tok{K: Hole, S: fmt.Sprint(len(w.holes) - 1)})
}

func (f *Form) snapshot(w *W) *Form {
	g := &Form{op: f.op}
	if f.op == "atom" {
		save := w.out
		w.out = nil
		f.em(w)
		g.toks = w.out
		w.out = save
		return g
	}
	for _, k := range f.kids {
		g.kids = append(g.kids, k.snapshot(w))
	}
	return g
}

func (f *Form) eval(val map[*Form]bool) bool {
	switch f.op {
	case "atom":
		return val[f]
	case "and":
		return f.kids[0].eval(val) && f.kids[1].eval(val)
	case "or":
		return f.kids[0].eval(val) || f.kids[1].eval(val)
	case "xor":
		return f.kids[0].eval(val) != f.kids[1].eval(val)
	case "not":
		return !f.kids[0].eval(val)
	case "true":
		return true
	case "false":
		return false
	}
	panic("eval " + f.op)
}

// simple is the formula without true and false in it, unless it is one of them.
func (f *Form) simple() *Form {
	if len(f.kids) == 0 {
		return f
	}
	a := f.kids[0].simple()
	is := func(f *Form, v string) bool { return f.op == v }
	if f.op == "not" {
		switch {
		case is(a, "true"):
			return &Form{op: "false"}
		case is(a, "false"):
			return &Form{op: "true"}
		}
		return fNot(a)
	}
	b := f.kids[1].simple()
	if is(a, "true") || is(a, "false") {
		a, b = b, a
	}
	if !is(b, "true") && !is(b, "false") {
		return &Form{op: f.op, kids: []*Form{a, b}}
	}
	switch {
	case f.op == "and" && is(b, "false"), f.op == "or" && is(b, "true"):
		return b
	case f.op == "xor" && is(b, "true"):
		return fNot(a).simple()
	}
	return a
}

// canon is the same for two formulas in which every atom occurs once exactly if they mean the same: a read-once
// formula over and, or, xor and not is determined by its meaning up to order and grouping of equal operators and the
// place of the negations.
func (f *Form) canon() string {
	id := map[*Form]int{}
	for i, a := range f.atoms(nil) {
		id[a] = i
	}
	type key struct {
		f   *Form
		neg bool
	}
	type val struct {
		op    string
		terms []string
		odd   bool // of a xor
	}
	memo := map[key]val{}
	var of func(f *Form, neg bool) val
	text := func(v val) string {
		t := append([]string(nil), v.terms...)
		sort.Strings(t)
		return fmt.Sprint(v.op, v.odd, "(", strings.Join(t, " "), ")")
	}
	of = func(f *Form, neg bool) val {
		if v, ok := memo[key{f, neg}]; ok {
			return v
		}
		var v val
		switch f.op {
		case "atom":
			v = val{op: "atom", terms: []string{fmt.Sprint(id[f])}, odd: neg}
		case "not":
			v = of(f.kids[0], !neg)
		case "and", "or":
			v.op = f.op
			if neg {
				v.op = map[string]string{"and": "or", "or": "and"}[f.op]
			}
			for _, k := range f.kids {
				if kv := of(k, neg); kv.op == v.op {
					v.terms = append(v.terms, kv.terms...)
				} else {
					v.terms = append(v.terms, text(kv))
				}
			}
		case "xor":
			v = val{op: "xor", odd: neg}
			for _, k := range f.kids {
				a, b := of(k, false), of(k, true)
				if a.op == "xor" {
					v.terms = append(v.terms, a.terms...)
					v.odd = v.odd != a.odd
					continue
				}
				s, t := text(a), text(b)
				if t < s {
					s, v.odd = t, !v.odd
				}
				v.terms = append(v.terms, s)
			}
		case "true", "false":
			v = val{op: "constant", odd: neg == (f.op == "true")}
		default:
			panic("canon " + f.op)
		}
		memo[key{f, neg}] = v
		return v
	}
	return text(of(f, false))
}

// condDiff reads a condition from position pos of the text and compares its meaning with the formula. Atoms have to
// occur once each, in the order of the formula.
func (w *W) condDiff(got []Tok, pos int, f *Form) (next int, msg string) {
	n, next, err := parseExprAt(got, pos)
	if err != nil {
		return pos, "condition can not be read: " + err.Error()
	}
	atoms := f.atoms(nil)
	left := append([]*Form(nil), atoms...)
	used := 0
	var conv func(n *Nd) (*Form, string)
	conv = func(n *Nd) (*Form, string) {
		switch n.op {
		case "AND", "OR", "XOR":
			if len(n.kids) == 2 {
				a, m := conv(n.kids[0])
				if m != "" {
					return nil, m
				}
				b, m := conv(n.kids[1])
				if m != "" {
					return nil, m
				}
				return &Form{op: strings.ToLower(n.op), kids: []*Form{a, b}}, ""
			}
		case "NOT":
			if len(n.kids) == 1 {
				a, m := conv(n.kids[0])
				if m != "" {
					return nil, m
				}
				return &Form{op: "not", kids: []*Form{a}}, ""
			}
		case "true", "false":
			return &Form{op: n.op}, ""
		}
		for i, a := range left {
			if a != nil && w.same(a.toks, got[n.i:n.j]) {
				if i != used {
					return nil, fmt.Sprintf("condition %s is out of order", toks(a.toks))
				}
				left[i] = nil
				used++
				return a, ""
			}
		}
		return nil, "unexpected condition " + toks(got[n.i:n.j])
	}
	g, m := conv(n)
	if m != "" {
		return next, m
	}
	if used != len(atoms) {
		return next, "condition " + toks(atoms[used].toks) + " is missing"
	}
	if len(atoms) > 12 {
		if f.simple().canon() != g.simple().canon() {
			return next, fmt.Sprintf("condition means %s instead of %s", g, f)
		}
		return next, ""
	}
	val := map[*Form]bool{}
	for bits := 0; bits < 1<<uint(len(atoms)); bits++ {
		for i, a := range atoms {
			val[a] = bits>>uint(i)&1 == 1
		}
		if f.eval(val) != g.eval(val) {
			return next, fmt.Sprintf("condition means %s instead of %s", g, f)
		}
	}
	return next, ""
}

// read matches the wanted tokens from i with the text from pos, up to the end of both. Optional parentheses are tried
// both ways. It gives where it failed and why.
func (w *W) read(want, got []Tok, i, pos int, stack []bool) (at int, msg string) {
	for ; i < len(want); i++ {
		t := want[i]
		switch t.K {
		case Opt:
			if t.S == "(" {
				if pos < len(got) && isSym(got[pos], "(") {
					n := len(stack)
					a1, m1 := w.read(want, got, i+1, pos+1, append(stack[:n:n], true))
					if m1 == "" {
						return a1, ""
					}
					a2, m2 := w.read(want, got, i+1, pos, append(stack[:n:n], false))
					if m2 == "" || a2 > a1 {
						return a2, m2
					}
					return a1, m1
				}
				stack = append(stack, false)
				continue
			}
			was := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if was {
				if pos >= len(got) || !isSym(got[pos], ")") {
					return pos, "no closing parenthesis"
				}
				pos++
			}
			continue
		case Hole:
			var k int
			fmt.Sscan(t.S, &k)
			next, m := w.condDiff(got, pos, w.holes[k])
			if m != "" {
				return pos, m
			}
			pos = next
			continue
		}
		if pos >= len(got) {
			return pos, fmt.Sprintf("text ends before token %d %s", i, t)
		}
		if !match(t, got[pos]) {
			return pos, fmt.Sprintf("%s instead of %s", got[pos], t)
		}
		pos++
	}
	if pos < len(got) {
		return pos, fmt.Sprintf("text goes on with %s", got[pos])
	}
	return pos, ""
}

// same reports whether the text reads as exactly the wanted tokens.
func (w *W) same(want, got []Tok) bool {
	_, m := w.read(want, got, 0, 0, nil)
	return m == ""
}

// diff gives "" when the text reads as exactly what was emitted.
func (w *W) diff(text string) string {
	got, err := Lex(text)
	if err != nil {
		return fmt.Sprintf("text can not be read: %v: %q; expected %s", err, text, w)
	}
	if _, m := w.read(w.out, got, 0, 0, nil); m != "" {
		return fmt.Sprintf("%s: text %q; expected %s", m, text, w)
	}
	return ""
}

func (w *W) String() string {
	var parts []string
	for _, t := range w.out {
		if t.K == Hole {
			var k int
			fmt.Sscan(t.S, &k)
			parts = append(parts, "<"+w.holes[k].String()+">")
			continue
		}
		parts = append(parts, t.String())
	}
	return strings.Join(parts, " ")
}

// render gives the text of a statement, or an error.
func render(s cy.Statement, err error) (string, error) {
	if err != nil {
		return "", err
	}
	return cy.NewRenderer().Render(s)
}

// check compares a statement with what it has to read as.
func (c *C) check(s cy.Statement, err error, em Em) {
	c.checks++
	if c.within > 0 && err == nil {
		if s, err, em = within(c.within, s, em); em == nil {
			return
		}
	}
	text, err := render(s, err)
	w := newW()
	em(w)
	if err != nil {
		c.Fail("unexpected error %q; expected %s", err, w)
		return
	}
	c.State(text)
	c.Log("=> %s", text)
	if m := w.diff(text); m != "" {
		c.Fail("%s", m)
	}
}

// checkX compares an expression (as RETURN item) with what it has to read as.
func (c *C) checkX(e X) {
	s, err := cy.CypherReturning(e.v).Build()
	c.check(s, err, func(w *W) { w.kw("RETURN"); w.x(e) })
}

// wantErr demands that a statement is reported as invalid.
func (c *C) wantErr(s cy.Statement, err error, what string) {
	c.checks++
	if err != nil {
		return
	}
	text, err := cy.NewRenderer().Render(s)
	if err == nil {
		c.Fail("%s is not reported: rendered %q", what, text)
	}
}

package main

// The statement builders as a transition system: a state is a builder stage (a value with its static interface type)
// together with the clauses that were requested so far; the transitions are all methods the stage exposes, found by
// reflection on the interface, with a few argument shapes each.

import (
	"fmt"
	"reflect"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

type Ord struct {
	x   X
	dir string
}

type Act struct {
	on    string
	items []Em
}

type Clause struct {
	kind     string
	ps       []P
	items    []Em
	distinct bool
	where    *Form
	order    []Ord
	skip     int
	limit    int
	acts     []Act
	alias    string
	proc     []string
	yields   []Em
	sub      *St
}

type St struct {
	cl   []Clause
	pend *Ord
	on   string // pending merge action
}

// last gives a private copy of the state and its last clause.
func (s *St) clone() *St {
	n := *s
	n.cl = append([]Clause(nil), s.cl...)
	return &n
}

func (s *St) last() *Clause { return &s.cl[len(s.cl)-1] }

func (s *St) add(c Clause) *St {
	n := s.clone()
	n.flush()
	if c.skip == 0 {
		c.skip = -1
	}
	if c.limit == 0 {
		c.limit = -1
	}
	n.cl = append(n.cl, c)
	return n
}

// flush puts the pending sort item into its clause.
func (s *St) flush() {
	if s.pend != nil {
		l := s.last()
		l.order = append(append([]Ord(nil), l.order...), *s.pend)
		s.pend = nil
	}
}

func (w *W) list(ems []Em) {
	for i, e := range ems {
		if i > 0 {
			w.sym(",")
		}
		e(w)
	}
}

func (w *W) st(s *St) {
	s = s.clone()
	s.flush()
	for i := range s.cl {
		w.clause(&s.cl[i])
	}
}

func (w *W) where(f *Form) {
	if !f.empty() {
		w.kw("WHERE")
		w.cond(f)
	}
}

func (w *W) clause(c *Clause) {
	switch c.kind {
	case "MATCH", "OPTIONAL MATCH", "CREATE":
		w.kw(c.kind)
		w.ps(c.ps)
		w.where(c.where)
	case "MERGE":
		w.kw(c.kind)
		w.ps(c.ps)
		for _, a := range c.acts {
			w.kw(a.on, "SET")
			w.list(a.items)
		}
	case "WITH", "RETURN":
		w.kw(c.kind)
		if c.distinct {
			w.kw("DISTINCT")
		}
		w.list(c.items)
		for i, o := range c.order {
			if i == 0 {
				w.kw("ORDER BY")
			} else {
				w.sym(",")
			}
			w.x(o.x)
			if o.dir != "" {
				w.kw(o.dir)
			}
		}
		if c.skip >= 0 {
			w.kw("SKIP")
			w.num(c.skip)
		}
		if c.limit >= 0 {
			w.kw("LIMIT")
			w.num(c.limit)
		}
		w.where(c.where)
	case "UNWIND":
		w.kw("UNWIND")
		w.list(c.items)
		w.kw("AS")
		w.name(c.alias)
	case "SET", "REMOVE", "DELETE", "DETACH DELETE":
		w.kw(c.kind)
		w.list(c.items)
	case "CALL":
		w.kw("CALL")
		for i, p := range c.proc {
			if i > 0 {
				w.sym(".")
			}
			w.name(p)
		}
		w.sym("(")
		w.list(c.items)
		w.sym(")")
		if len(c.yields) > 0 {
			w.kw("YIELD")
			w.list(c.yields)
		}
		w.where(c.where)
	case "SUB":
		w.kw("CALL")
		w.sym("{")
		w.st(c.sub)
		w.sym("}")
	default:
		panic("clause " + c.kind)
	}
}

// B is a builder in some stage.
type B struct {
	v  reflect.Value
	st *St
	n  int // counter for fresh names
	// set when the last call ended in a statement
	stmt cy.Statement
	err  error
	done bool
	// what can be used as patterns again
	nodes []N
	// number of elements of every list of arguments, 0 for the usual shapes
	big int
}

func (b *B) fresh(p string) string {
	b.n++
	if s, ok := pooled(p); ok {
		return s
	}
	return fmt.Sprintf("%s%d", p, b.n)
}

// step describes one transition.
type step struct {
	method  string
	variant int
}

// profile restricts the transitions.
type profile struct {
	methods func(name string, t reflect.Type) bool
	// variants of a method to be used, 0 for all
	maxVariants int
	only        map[string][]int
	nowhere     bool // filters where no clause takes one, too
}

var filterMethods = oneOf("Where", "WhereConditionContainer", "WherePattern", "And", "AndPattern", "Or", "OrPattern")

// variants gives the number of argument shapes of a method.
func variants(m reflect.Method) int {
	switch m.Name {
	case "Match", "OptionalMatch":
		return 3
	case "Create", "Merge", "MatchDefault", "OrderBySortItem":
		return 2
	case "Returning", "With":
		return 2
	case "Where":
		return 3
	case "Set":
		return 3
	case "Delete", "DetachDelete":
		return 2
	case "ReturningDistinct", "WithDistinct", "ReturningByString", "ReturningByNamed", "ReturningDistinctByString", "ReturningDistinctByNamed",
		"WithByString", "WithByNamed", "WithDistinctByString", "WithDistinctByNamed",
		"DeleteByString", "DeleteByNamed", "DetachDeleteByString", "DetachDeleteByNamed",
		"SetWithNamed", "SetByNode", "RemoveByNode", "Unwind", "UnwindByString", "Unwinds", "OnCreate", "OnMatch",
		"WherePattern", "WhereConditionContainer", "AndPattern", "OrPattern", "Or", "And", "And1", "OrderBy", "OrderByExpression",
		"Ascending", "Descending", "Skip", "Limit", "As", "WithArgs", "Yield", "YieldString", "YieldSymbolic", "Call1", "Build":
		return 1
	case "Remove":
		return 2
	case "Call":
		return 2
	}
	return 0
}

// steps lists the transitions of the stage.
func (b *B) steps(p profile) []step {
	var r []step
	t := b.v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.PkgPath != "" {
			continue
		}
		if p.methods != nil && !p.methods(m.Name, m.Type) {
			continue
		}
		if (m.Name == "OnCreate" || m.Name == "OnMatch") && b.st.last().kind != "MERGE" {
			continue // an error, see C05
		}
		if b.st.last().kind == "SUB" && !p.nowhere && filterMethods(m.Name, m.Type) {
			continue // an error, see filter-nowhere
		}
		if on, ok := p.only[m.Name]; ok {
			for _, k := range on {
				r = append(r, step{m.Name, k})
			}
			continue
		}
		n := variants(m)
		if p.maxVariants > 0 && n > p.maxVariants {
			n = p.maxVariants
		}
		for k := 0; k < n; k++ {
			r = append(r, step{m.Name, k})
		}
	}
	return r
}

func (b *B) node() N {
	n := mkN(b.fresh("n"), []string{b.fresh("L")}, nil)
	b.nodes = append(append([]N(nil), b.nodes...), n)
	return n
}

func (b *B) rel() R {
	l, r := b.node(), b.node()
	return mkR(l, b.n%3, r, b.fresh("T")).named(b.fresh("r"))
}

func (b *B) patterns(v int) []P {
	if b.big > 0 {
		var ps []P
		for i := 0; i < b.big; i++ {
			if i%3 == 1 {
				ps = append(ps, b.rel().p())
			} else {
				ps = append(ps, b.node().p())
			}
		}
		return ps
	}
	switch v {
	case 0:
		return []P{b.node().p()}
	case 1:
		return []P{b.rel().p(), b.node().p()}
	}
	// an earlier node again
	if len(b.nodes) == 0 {
		return []P{b.node().p(), b.node().p()}
	}
	old := b.nodes[0]
	return []P{mkR(old, 0, b.node(), b.fresh("T")).p()}
}

// yield makes an item for YIELD; what one expression yielded twice means is not specified.
func (b *B) yield() A {
	b.n++
	return mkA(xSym(fmt.Sprintf("f%d", b.n)), b.fresh("y"))
}

// aliased makes an aliased expression. An expression used again has the same alias again: which of two it has
// afterwards is not specified.
func (b *B) aliased() A {
	p, a := b.prop(), b.fresh("a")
	return mkA(p, once(func() string { return a }, "alias of", p.id))
}

// target makes a property to be set or removed; never aliased before.
func (b *B) target() X { return xProp(b.fresh("t"), b.fresh("p")) }

func (b *B) sym() X  { return xSym(b.fresh("s")) }
func (b *B) prop() X { return xProp(b.fresh("c"), b.fresh("p")) }

func (b *B) atom() Cn { return propC(b.fresh("c"), "p", number(b.n)) }

func (b *B) patCond() (R, *Form) {
	r := mkR(mkN(b.fresh("n"), nil, nil), 0, mkN("", []string{b.fresh("L")}, nil), b.fresh("T"))
	return r, &Form{op: "atom", em: func(w *W) { w.r(r) }}
}

func (b *B) strs() []string {
	ss := []string{b.fresh("v"), b.fresh("v")}
	if b.big > 0 {
		ss = nil
		for i := 0; i < b.big; i++ {
			ss = append(ss, b.fresh("v"))
		}
	}
	return ss
}

func nameEms(ss []string) []Em {
	var r []Em
	for _, s := range ss {
		s := s
		r = append(r, func(w *W) { w.name(s) })
	}
	return r
}

func xEms(xs []X) []Em {
	var r []Em
	for _, x := range xs {
		x := x
		r = append(r, func(w *W) { w.x(x) })
	}
	return r
}

// args makes the arguments of an expression list.
func (b *B) exprs(v int) []X {
	if b.big > 0 {
		var xs []X
		for i := 0; i < b.big; i++ {
			switch i % 3 {
			case 0:
				xs = append(xs, b.sym())
			case 1:
				xs = append(xs, b.aliased().x())
			default:
				xs = append(xs, b.prop())
			}
		}
		return xs
	}
	switch v {
	case 0:
		return []X{b.sym()}
	}
	a := b.aliased()
	return []X{b.sym(), a.x(), b.prop()}
}

func rv(x interface{}) reflect.Value { return reflect.ValueOf(x) }

func exprVals(xs []X) []reflect.Value {
	var r []reflect.Value
	for _, x := range xs {
		r = append(r, rv(x.v))
	}
	return r
}

func patVals(ps []P) []reflect.Value {
	var r []reflect.Value
	for _, p := range ps {
		r = append(r, rv(p.v))
	}
	return r
}

func strVals(ss []string) []reflect.Value {
	var r []reflect.Value
	for _, s := range ss {
		r = append(r, rv(s))
	}
	return r
}

// named gives a node and a relationship whose names are used.
func (b *B) named() ([]reflect.Value, []string) {
	if b.big > 0 {
		var vs []reflect.Value
		var ss []string
		for i := 0; i < b.big; i++ {
			s := b.fresh("m")
			ss = append(ss, s)
			if i%2 == 0 {
				vs = append(vs, rv(nodeNamed(s)))
			} else {
				vs = append(vs, rv(relNamed(s)))
			}
		}
		return vs, ss
	}
	nn, rn := b.fresh("n"), b.fresh("r")
	return []reflect.Value{rv(nodeNamed(nn)), rv(relNamed(rn))}, []string{nn, rn}
}

func eqEm(target X, op string, val X) Em {
	return func(w *W) { w.x(target); w.sym(op); w.x(val) }
}

// setItems makes the operands of a SET.
func (b *B) setItems(v int) ([]reflect.Value, []Em) {
	if b.big > 0 {
		var vs []reflect.Value
		var ems []Em
		for i := 0; i < b.big; i++ {
			p, x := b.target(), xInt(number(b.n))
			vs = append(vs, rv(p.v), rv(x.v))
			ems = append(ems, eqEm(p, "=", x))
		}
		return vs, ems
	}
	p, x := b.target(), xInt(number(b.n))
	pair := []reflect.Value{rv(p.v), rv(x.v)}
	switch v {
	case 0:
		return pair, []Em{eqEm(p, "=", x)}
	case 1:
		c, k := b.fresh("c"), b.fresh("p")
		val := b.sym()
		op := cy.AProperty(c, k).To(val.v)
		return append([]reflect.Value{rv(op)}, pair...), []Em{
			func(w *W) { w.name(c); w.sym("."); w.name(k); w.sym("="); w.x(val) }, eqEm(p, "=", x)}
	}
	q, y := b.target(), b.sym()
	c, k := b.fresh("c"), b.fresh("p")
	val := b.sym()
	op := cy.AProperty(c, k).To(val.v)
	return append(append(pair, rv(q.v), rv(y.v)), rv(op)), []Em{eqEm(p, "=", x), eqEm(q, "=", y),
		func(w *W) { w.name(c); w.sym("."); w.name(k); w.sym("="); w.x(val) }}
}

// sub makes a statement to be embedded.
func (b *B) sub(v int) (cy.Statement, error, *St) {
	n := b.node()
	p := b.prop()
	if v == 0 {
		s, err := cy.Match(n.v).Returning(p.v).Build()
		st := (&St{}).add(Clause{kind: "MATCH", ps: []P{n.p()}}).add(Clause{kind: "RETURN", items: xEms([]X{p})})
		return s, err, st
	}
	c := b.atom()
	a := b.sym()
	s, err := cy.With(a.v).Match(n.v).Where(c.v).Returning(p.v).Limit(3).Build()
	st := (&St{}).add(Clause{kind: "WITH", items: xEms([]X{a})}).add(Clause{kind: "MATCH", ps: []P{n.p()}, where: c.f}).
		add(Clause{kind: "RETURN", items: xEms([]X{p}), limit: 3})
	return s, err, st
}

func labelsEm(name string, ls []string) Em {
	return func(w *W) {
		w.name(name)
		for _, l := range ls {
			w.sym(":")
			w.name(l)
		}
	}
}

// project handles Returning..., With..., Delete... in all their flavours.
func (b *B) listCall(name string, v int) (args []reflect.Value, items []Em) {
	switch {
	case strings.HasSuffix(name, "ByString"):
		ss := b.strs()
		return strVals(ss), nameEms(ss)
	case strings.HasSuffix(name, "ByNamed"):
		vs, ss := b.named()
		return vs, nameEms(ss)
	}
	xs := b.exprs(v)
	if strings.Contains(name, "Delete") {
		xs = []X{b.sym(), b.sym()}
		if v == 0 {
			xs = xs[:1]
		}
		for i := 2; i < b.big; i++ {
			xs = append(xs, b.sym())
		}
	}
	return exprVals(xs), xEms(xs)
}

// do makes one transition; it returns a new state and leaves the old one as it is.
func (b *B) do(s step) *B {
	nb := *b
	n := &nb
	t := b.v.Type()
	m, _ := t.MethodByName(s.method)
	var args []reflect.Value
	v := s.variant
	st := b.st
	nilArg := false
	switch name := s.method; name {
	case "Match", "OptionalMatch":
		ps := n.patterns(v)
		args = patVals(ps)
		kind := "MATCH"
		if name == "OptionalMatch" {
			kind = "OPTIONAL MATCH"
		}
		st = st.add(Clause{kind: kind, ps: ps})
	case "MatchDefault":
		ps := n.patterns(0)
		args = append([]reflect.Value{rv(v == 1)}, patVals(ps)...)
		kind := "MATCH"
		if v == 1 {
			kind = "OPTIONAL MATCH"
		}
		st = st.add(Clause{kind: kind, ps: ps})
	case "Create", "Merge":
		ps := n.patterns(v)
		args = patVals(ps)
		st = st.add(Clause{kind: strings.ToUpper(name), ps: ps})
	case "Where":
		st = st.clone()
		switch v {
		case 0:
			c := n.atom()
			args = []reflect.Value{rv(c.v)}
			st.last().where = c.f
		case 1:
			args = []reflect.Value{rv(cy.ConditionsNoCondition())}
			st.last().where = nil
		case 2:
			nilArg = true
			st.last().where = nil
		}
	case "WhereConditionContainer":
		a, c := n.atom(), n.atom()
		st = st.clone()
		args = []reflect.Value{rv(a.v.Or(c.v))}
		st.last().where = fBin("or", a.f, c.f)
	case "WherePattern":
		r, f := n.patCond()
		st = st.clone()
		args = []reflect.Value{rv(r.v)}
		st.last().where = f
	case "AndPattern", "OrPattern":
		r, f := n.patCond()
		st = st.clone()
		args = []reflect.Value{rv(r.v)}
		st.last().where = fBin(strings.ToLower(name[:len(name)-7]), st.last().where, f)
	case "And", "Or":
		st = st.clone()
		if m.Type.In(0) == condType {
			c := n.atom()
			args = []reflect.Value{rv(c.v)}
			st.last().where = fBin(strings.ToLower(name), st.last().where, c.f)
		} else {
			st.flush()
			x := n.prop()
			args = []reflect.Value{rv(x.v)}
			st.pend = &Ord{x: x}
		}
	case "And1", "OrderBy", "OrderByExpression":
		st = st.clone()
		st.flush()
		x := n.prop()
		args = []reflect.Value{rv(x.v)}
		st.pend = &Ord{x: x}
	case "Ascending", "Descending":
		st = st.clone()
		st.pend = &Ord{x: st.pend.x, dir: map[string]string{"Ascending": "ASC", "Descending": "DESC"}[name]}
		st.flush()
	case "OrderBySortItem":
		st = st.clone()
		st.flush()
		l := st.last()
		x, y := n.prop(), n.sym()
		if v == 0 {
			args = []reflect.Value{rv(cy.Sort(x.v))}
			l.order = append(append([]Ord(nil), l.order...), Ord{x: x})
			for i := 1; i < n.big; i++ {
				z := n.prop()
				args = append(args, rv(cy.Sort(z.v).Descending()))
				l.order = append(l.order, Ord{z, "DESC"})
			}
		} else {
			args = []reflect.Value{rv(cy.Sort(x.v).Descending()), rv(y.v.Ascending())}
			l.order = append(append([]Ord(nil), l.order...), Ord{x, "DESC"}, Ord{y, "ASC"})
		}
	case "Skip":
		st = st.clone()
		n.fresh("k")
		k := number(n.n)
		args = []reflect.Value{rv(k)}
		st.last().skip = k
	case "Limit":
		st = st.clone()
		n.fresh("k")
		k := number(n.n)
		args = []reflect.Value{rv(k)}
		st.last().limit = k
	case "Returning", "ReturningByString", "ReturningByNamed", "ReturningDistinct", "ReturningDistinctByString", "ReturningDistinctByNamed",
		"With", "WithByString", "WithByNamed", "WithDistinct", "WithDistinctByString", "WithDistinctByNamed":
		var items []Em
		args, items = n.listCall(name, v)
		kind := "RETURN"
		if strings.HasPrefix(name, "With") {
			kind = "WITH"
		}
		st = st.add(Clause{kind: kind, items: items, distinct: strings.Contains(name, "Distinct")})
	case "Delete", "DeleteByString", "DeleteByNamed", "DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed":
		var items []Em
		args, items = n.listCall(name, v)
		kind := "DELETE"
		if strings.HasPrefix(name, "Detach") {
			kind = "DETACH DELETE"
		}
		st = st.add(Clause{kind: kind, items: items})
	case "Set", "SetWithNamed":
		var items []Em
		if name == "Set" {
			args, items = n.setItems(v)
		} else {
			nn := n.fresh("n")
			x := n.prop()
			args = []reflect.Value{rv(nodeNamed(nn)), rv(x.v)}
			items = []Em{func(w *W) { w.name(nn); w.sym("="); w.x(x) }}
		}
		if st.on != "" {
			st = st.clone()
			l := st.last()
			l.acts = append(append([]Act(nil), l.acts...), Act{st.on, items})
			st.on = ""
		} else {
			st = st.add(Clause{kind: "SET", items: items})
		}
	case "SetByNode", "RemoveByNode":
		nn := n.fresh("n")
		ls := []string{n.fresh("L"), n.fresh("L")}
		for i := 2; i < n.big; i++ {
			ls = append(ls, n.fresh("L"))
		}
		args = append([]reflect.Value{rv(nodeNamed(nn))}, strVals(ls)...)
		kind := "SET"
		if name == "RemoveByNode" {
			kind = "REMOVE"
		}
		st = st.add(Clause{kind: kind, items: []Em{labelsEm(nn, ls)}})
	case "Remove":
		var items []Em
		for i := 0; i <= v || i < n.big; i++ {
			x := n.target()
			args = append(args, rv(x.v))
			items = append(items, func(w *W) { w.x(x) })
		}
		st = st.add(Clause{kind: "REMOVE", items: items})
	case "Unwind", "UnwindByString", "Unwinds":
		var item Em
		switch name {
		case "Unwind":
			x := n.prop()
			args = []reflect.Value{rv(x.v)}
			item = func(w *W) { w.x(x) }
		case "UnwindByString":
			s := n.fresh("v")
			args = []reflect.Value{rv(s)}
			item = func(w *W) { w.name(s) }
		default:
			x, y := n.sym(), n.prop()
			args = []reflect.Value{rv(x.v), rv(y.v)}
			xs := []X{x, y}
			for i := 2; i < n.big; i++ {
				xs = append(xs, n.sym())
				args = append(args, rv(xs[i].v))
			}
			item = func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }
		}
		st = st.add(Clause{kind: "UNWIND", items: []Em{item}})
	case "As":
		st = st.clone()
		a := n.fresh("u")
		args = []reflect.Value{rv(a)}
		st.last().alias = a
	case "Call1":
		ss := []string{n.fresh("q"), n.fresh("q"), n.fresh("f")}
		args = strVals(ss)
		st = st.add(Clause{kind: "CALL", proc: ss})
	case "WithArgs":
		xs := []X{n.prop(), xInt(number(n.n))}
		for i := 2; i < n.big; i++ {
			xs = append(xs, n.sym())
		}
		args = exprVals(xs)
		st = st.clone()
		st.last().items = xEms(xs)
	case "Yield", "YieldString", "YieldSymbolic":
		st = st.clone()
		switch name {
		case "Yield":
			a1, a2 := n.yield(), n.yield()
			args = []reflect.Value{rv(a1.v), rv(a2.v)}
			ys := []X{a1.x(), a2.x()}
			for i := 2; i < n.big; i++ {
				a := n.yield()
				args = append(args, rv(a.v))
				ys = append(ys, a.x())
			}
			st.last().yields = xEms(ys)
		case "YieldString":
			ss := n.strs()
			args = strVals(ss)
			st.last().yields = nameEms(ss)
		default:
			ss := n.strs()
			for _, x := range ss {
				args = append(args, rv(xSym(x).v))
			}
			st.last().yields = nameEms(ss)
		}
	case "Call":
		s, err, sub := n.sub(v)
		if err != nil {
			panic(err)
		}
		args = []reflect.Value{rv(s)}
		st = st.add(Clause{kind: "SUB", sub: sub})
	case "OnCreate", "OnMatch":
		st = st.clone()
		st.on = map[string]string{"OnCreate": "ON CREATE", "OnMatch": "ON MATCH"}[name]
	case "Build":
		out := b.v.MethodByName("Build").Call(nil)
		n.stmt, _ = out[0].Interface().(cy.Statement)
		n.err, _ = out[1].Interface().(error)
		n.done = true
		return n
	default:
		panic("step " + name)
	}
	if nilArg {
		args = []reflect.Value{reflect.Zero(m.Type.In(0))}
	}
	n.v = b.v.MethodByName(s.method).Call(args)[0]
	n.st = st
	return n
}

var condType = reflect.TypeOf((*cy.Condition)(nil)).Elem()

// iface keeps the static type of a builder value.
func iface[T any](v T) reflect.Value { return reflect.ValueOf(&v).Elem() }

const nRoots = 16

// root starts a statement.
func root(k int) *B {
	b := &B{st: &St{}}
	switch k {
	case 0, 1:
		ps := b.patterns(k)
		b.v = iface(cy.Match(pvals(ps)...))
		b.st = b.st.add(Clause{kind: "MATCH", ps: ps})
	case 2:
		ps := b.patterns(0)
		b.v = iface(cy.AnOptionalMatch(pvals(ps)...))
		b.st = b.st.add(Clause{kind: "OPTIONAL MATCH", ps: ps})
	case 3:
		ps := b.patterns(1)
		b.v = iface(cy.MatchWithOption(true, pvals(ps)...))
		b.st = b.st.add(Clause{kind: "OPTIONAL MATCH", ps: ps})
	case 4:
		ps := b.patterns(1)
		b.v = iface(cy.Create(pvals(ps)...))
		b.st = b.st.add(Clause{kind: "CREATE", ps: ps})
	case 5:
		xs := b.exprs(1)
		b.v = iface(cy.With(vals(xs)...))
		b.st = b.st.add(Clause{kind: "WITH", items: xEms(xs)})
	case 6:
		ss := b.strs()
		b.v = iface(cy.WithByString(ss...))
		b.st = b.st.add(Clause{kind: "WITH", items: nameEms(ss)})
	case 7:
		vs, ss := b.named()
		b.v = iface(cy.WithByNamed(vs[0].Interface().(cy.Named), vs[1].Interface().(cy.Named)))
		b.st = b.st.add(Clause{kind: "WITH", items: nameEms(ss)})
	case 8:
		ps := b.patterns(1)
		b.v = iface(cy.Merge(pvals(ps)...))
		b.st = b.st.add(Clause{kind: "MERGE", ps: ps})
	case 9:
		x := b.prop()
		b.v = iface(cy.Unwind(x.v))
		b.st = b.st.add(Clause{kind: "UNWIND", items: xEms([]X{x})})
	case 10:
		x, y := b.sym(), b.prop()
		b.v = iface(cy.UnwindMulti(x.v, y.v))
		b.st = b.st.add(Clause{kind: "UNWIND", items: []Em{func(w *W) { w.sym("["); w.xs([]X{x, y}); w.sym("]") }}})
	case 11:
		xs := b.exprs(1)
		b.v = iface(cy.CypherReturning(vals(xs)...))
		b.st = b.st.add(Clause{kind: "RETURN", items: xEms(xs)})
	case 12:
		ss := []string{b.fresh("q"), b.fresh("q"), b.fresh("f")}
		b.v = iface(cy.ACall(ss...))
		b.st = b.st.add(Clause{kind: "CALL", proc: ss})
	case 13:
		s := b.fresh("f")
		b.v = iface(cy.ACallSimple(s))
		b.st = b.st.add(Clause{kind: "CALL", proc: []string{s}})
	case 14:
		s, err, sub := b.sub(1)
		if err != nil {
			panic(err)
		}
		b.v = iface(cy.ACallByStatement(s))
		b.st = b.st.add(Clause{kind: "SUB", sub: sub})
	case 15:
		ps := b.patterns(0)
		b.v = iface(cy.MatchWithOption(false, pvals(ps)...))
		b.st = b.st.add(Clause{kind: "MATCH", ps: ps})
	}
	return b
}

func (b *B) has(m string) bool {
	_, ok := b.v.Type().MethodByName(m)
	return ok
}

// finish completes a history to a statement that can be rendered.
func (b *B) finish() *B {
	for i := 0; i < 6 && !b.done; i++ {
		found := false
		for _, m := range []string{"Build", "Ascending", "As", "YieldString", "Set", "Returning"} {
			if b.has(m) {
				b = b.do(step{m, 0})
				found = true
				break
			}
		}
		if !found {
			panic("no way to finish from " + b.v.Type().String())
		}
	}
	return b
}

// walk explores all histories of up to depth calls on the builder, and compares every statement.
func (c *C) walk(b *B, depth int, p profile) *B {
	for i := 0; i < depth && !b.done; i++ {
		ss := b.steps(p)
		if len(ss) == 0 {
			break
		}
		k := c.Choose("call", len(ss)+1)
		if k == len(ss) {
			break // no further calls
		}
		c.Log(".%s/%d", ss[k].method, ss[k].variant)
		b = b.do(ss[k])
	}
	return b
}

func (c *C) checkB(b *B) {
	b = b.finish()
	c.check(b.stmt, b.err, func(w *W) { w.st(b.st) })
}

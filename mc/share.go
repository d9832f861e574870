package main

// Sharing: the same harnesses once more in worlds where names and objects repeat. Usually every name is new and every
// object is used once; code that takes two different things for one, or one thing used twice for a mistake, shows only
// when names or objects come back.

import (
	"fmt"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// the worlds
const (
	unique   = iota
	alike1   // all names of a kind are the same, objects are new
	same1    // all names of a kind are the same, and so are the objects
	alike2   // two names of a kind in turn, objects are new
	same2    // two names and objects of a kind in turn
	alike0   // all names of all kinds are the same, objects are new
	same0    // all names of all kinds are the same, and objects of a kind
	distinct // as unique; the number of worlds
)

var world = struct {
	mode int
	cnt  map[string]int
	memo map[string]interface{}
}{}

func setWorld(m int) {
	world.mode = m
	world.cnt = map[string]int{}
	world.memo = map[string]interface{}{}
}

// pooled gives a name of the pool, if there is one.
func pooled(p string) (string, bool) {
	k := 0
	switch world.mode {
	case alike1, same1:
		k = 1
	case alike2, same2:
		k = 2
	case alike0, same0:
		return "one", true
	default:
		return "", false
	}
	n := world.cnt[p]
	world.cnt[p]++
	return p + string(rune('a'+n%k)), true
}

// number gives n, or a number of the pool.
func number(n int) int {
	s, ok := pooled("")
	if !ok {
		return n
	}
	if s == "one" {
		return 1
	}
	return 7 + int(s[0]-'a')
}

// once makes an object, or gives the one made before from the same parts when objects are shared.
func once[T any](mk func() T, parts ...interface{}) T {
	if !sharing() {
		return mk()
	}
	k := fmt.Sprintf("%#v", parts)
	if v, ok := world.memo[k]; ok {
		if t, ok := v.(T); ok {
			return t
		}
	}
	t := mk()
	world.memo[k] = t
	return t
}

// sharing says that one object stands for one name.
func sharing() bool { return world.mode == same1 || world.mode == same2 || world.mode == same0 }

var depCut int

// shared gives harnesses as they are, and once more in the worlds where names and objects repeat. The bounds of these
// are the ones of the quick tier, less cut in the quick tier.
func shared(cut int, hs ...*Harness) []*Harness {
	var r []*Harness
	for _, h := range hs {
		h := h
		s := *h
		s.Name = h.Name + "-repeating"
		s.Rule = fmt.Sprintf("%s - in six worlds: one or two names and numbers of each kind in turn, or one name for everything, objects made anew (look-alikes) or one object per name; bounds %d lower", h.Rule, cut)
		s.ShardDepth = h.ShardDepth + 1
		s.Body = func(c *C) {
			setWorld(c.Choose("world", 6) + 1)
			depCut = cut
			defer func() { setWorld(unique); depCut = 0 }()
			h.Body(c)
		}
		in := *h
		in.Name = h.Name + "-inside"
		in.Rule = fmt.Sprintf("%s - each statement that returns as a later member of a union in a subquery (thorough: also as a subquery and as a member of a union); bounds %d lower", h.Rule, cut)
		if thorough() {
			in.ShardDepth = h.ShardDepth + 1
		}
		in.Body = func(c *C) {
			c.within = 3
			if thorough() {
				c.within = c.Choose("inside", 3) + 1
			}
			depCut = cut
			defer func() { depCut = 0; c.within = 0 }()
			h.Body(c)
		}
		r = append(r, h, &s, &in)
	}
	return r
}

// returns reports whether a statement returns, and whether it is a union.
func returns(em Em) (ret, union bool) {
	w := newW()
	em(w)
	depth := 0
	for _, t := range w.out {
		switch {
		case t.K == Sym && (t.S == "{" || t.S == "("):
			depth++
		case t.K == Sym && (t.S == "}" || t.S == ")"):
			depth--
		case depth == 0 && t.K == KW && t.S == "RETURN":
			ret = true
		case depth == 0 && t.K == KW && t.S == "UNION":
			union = true
		}
	}
	return
}

// within gives a statement that has another one inside; no Em if there is none.
func within(how int, s cy.Statement, em Em) (cy.Statement, error, Em) {
	ret, union := returns(em)
	if !ret || union && how > 1 && thorough() {
		return nil, nil, nil
	}
	if union {
		how = 1
	}
	switch how {
	case 1:
		o, err := cy.Match(nodeNamed("outer")).Call(s).Returning(cy.LiteralOf(1)).Build()
		return o, err, func(w *W) {
			w.kw("MATCH")
			w.sym("(")
			w.name("outer")
			w.sym(")")
			w.kw("CALL")
			w.sym("{")
			em(w)
			w.sym("}")
			w.kw("RETURN")
			w.num(1)
		}
	}
	first, err := cy.CypherReturning(cy.LiteralOf(1)).Build()
	if err != nil {
		return nil, err, em
	}
	if how == 2 {
		return cy.UnionAll(first, s), nil, func(w *W) {
			w.kw("RETURN")
			w.num(1)
			w.kw("UNION ALL")
			em(w)
		}
	}
	o, err := cy.ACallByStatement(cy.Union(first, s)).Returning(cy.AnAsterisk()).Build()
	return o, err, func(w *W) {
		w.kw("CALL")
		w.sym("{")
		w.kw("RETURN")
		w.num(1)
		w.kw("UNION")
		em(w)
		w.sym("}")
		w.kw("RETURN")
		w.sym("*")
	}
}

package main

// C08 string literals, C09 names, C10 other literals.

import (
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// characters that could matter: quotes, the escape character, letters of escapes, blanks, controls, wide ones, an
// invalid byte
var chars = []string{"'", "\\", "\"", "`", "n", "u0041", "\n", "$", "a", "\x00", "é", "\U0001F600", "{", " ", "\t", "\r", "\b", "\f", "\u2028", "\xff", "%", "0", "//", ";"}

func (c *C) word(max, alphabet int, set []string) string {
	var sb strings.Builder
	for i := 0; i < max; i++ {
		k := c.Choose("char", alphabet+1)
		if k == 0 {
			break
		}
		sb.WriteString(set[k-1])
	}
	return sb.String()
}

// xRawStr is a string in the position of an expression, given as literal.
func (c *C) manyStrings(ss []string) {
	var xs []X
	var raw []interface{}
	for _, s := range ss {
		xs = append(xs, xStr(s))
		raw = append(raw, s)
	}
	c.checkX(mkX(cy.ListOf(vals(xs)...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }))
	c.checkX(mkX(cy.ListOfRaw(raw...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }))
	for _, s := range ss {
		q := cy.AQuote(s)
		if ts, err := Lex(q); err != nil || len(ts) != 1 || ts[0].K != Str || ts[0].S != s {
			c.Fail("AQuote(%q) is %q", s, q)
		}
	}
}

// other ways to hand over a string value
const nRawPlaces = 14

func (c *C) rawString(k int, s string) {
	x := xStr(s)
	z := xSym("z")
	switch k {
	case 0:
		c.checkX(mkX(cy.MapOf("k", s, "l", z.v, "m", s), func(w *W) { w.mapOf([]KV{{"k", x}, {"l", z}, {"m", x}}) }))
	case 1:
		n := N{cy.AnyNode().WithRawProperties("k", s).NamedByString("n"), nextID(), "n", nil, []KV{{"k", x}}}
		st, err := cy.Match(n.v).Returning(z.v).Build()
		c.check(st, err, func(w *W) { w.kw("MATCH"); w.n(n); w.kw("RETURN"); w.x(z) })
	case 2:
		r := mkR(mkN("a", nil, nil), 2, mkN("b", nil, nil), "T")
		r.v = r.v.WithRawProperties("k", s)
		r.props = []KV{{"k", x}}
		st, err := cy.Create(r.v).Build()
		c.check(st, err, func(w *W) { w.kw("CREATE"); w.r(r) })
	case 3:
		c.checkX(mkX(cy.ListOfRaw(1, s, true), func(w *W) {
			w.sym("[")
			w.num(1)
			w.sym(",")
			w.x(x)
			w.sym(",")
			w.kw("true")
			w.sym("]")
		}))
	case 4:
		p := xProp("n", "p")
		c.checkX(mkX(p.v.MatchesPattern(s).Get(), func(w *W) { w.x(p); w.sym("=~"); w.x(x) }))
	case 5:
		l := cy.LiteralOf([]cy.Literal{cy.LiteralOf(s), cy.LiteralOf(1), cy.LiteralOf(s)})
		c.checkX(mkX(l, func(w *W) {
			w.sym("[")
			w.x(x)
			w.sym(",")
			w.num(1)
			w.sym(",")
			w.x(x)
			w.sym("]")
		}))
	case 6, 7, 8, 9, 10, 11:
		if s == "" {
			return // a temporal value is required
		}
		f := []func(string) cy.FunctionInvocation{cy.DateWithTemporal, cy.DateTimeWithTemporal, cy.LocalDateTimeWithTemporal, cy.LocalTimeWithTemporal, cy.TimeWithTemporal, cy.DurationWithTemporal}[k-6]
		name := []string{"date", "datetime", "localdatetime", "localtime", "time", "duration"}[k-6]
		c.checkX(mkX(f(s), func(w *W) { w.kw(name); w.sym("("); w.x(x); w.sym(")") }))
	case 12:
		q := cy.AQuote(s)
		c.checks++
		if ts, err := Lex(q); err != nil || len(ts) != 1 || ts[0].K != Str || ts[0].S != s {
			c.Fail("AQuote(%q) is %q", s, q)
		}
	case 13:
		// in a map projection, and twice in one statement
		c.checkX(mkX(mkN("q", nil, nil).v.Project("k", x.v, "l", x.v), func(w *W) {
			w.name("q")
			w.sym("{")
			w.name("k")
			w.sym(":")
			w.x(x)
			w.sym(",")
			w.name("l")
			w.sym(":")
			w.x(x)
			w.sym("}")
		}))
	}
}

func litHarnesses() []*Harness {
	return append([]*Harness{
		{Prop: "C08", Name: "short-strings", ShardDepth: 2,
			Rule: "all strings of up to 4 (thorough: 5) out of 24 characters and escapes, as RETURN item",
			Body: func(c *C) {
				s := c.word(dep(4, 5), len(chars), chars)
				c.checkX(xStr(s))
			}},
		{Prop: "C08", Name: "strings-of-quotes-and-escapes", ShardDepth: 3,
			Rule: "all strings of up to 9 (thorough: 11) out of the two quotes, the backslash and a letter",
			Body: func(c *C) {
				s := c.word(dep(9, 11), 4, []string{"\\", "'", "\"", "n"})
				c.checkX(xStr(s))
				c.rawString(12, s)
			}},
		{Prop: "C08", Name: "strings-everywhere", ShardDepth: 2,
			Rule: "all strings of up to 2 (thorough: 3) out of 24 characters and escapes in all 36 places of an expression and 14 other ways to hand over a string",
			Body: func(c *C) {
				k := c.Choose("place", nPlaces+nRawPlaces)
				s := c.word(2, len(chars), chars)
				if thorough() && c.Bool("third") {
					s += chars[c.Choose("char", len(chars))]
				}
				if k >= nPlaces {
					c.rawString(k-nPlaces, s)
					return
				}
				c.inPlace(k, xStr(s))
			}},
		{Prop: "C08", Name: "every-code-point", ShardDepth: 1,
			Rule: "every Unicode code point alone and between letters, every byte and every pair of bytes (also those that are no UTF-8)",
			Body: func(c *C) {
				const per = 128
				n := (0x110000 + per - 1) / per
				k := c.Choose("block", n+512)
				var ss []string
				if k < n {
					for r := k * per; r < (k+1)*per && r < 0x110000; r++ {
						if !utf8.ValidRune(rune(r)) {
							continue
						}
						ss = append(ss, string(rune(r)), "a"+string(rune(r))+"'b")
					}
				} else {
					k -= n
					for b := 0; b < 128; b++ {
						ss = append(ss, string([]byte{byte(k / 2), byte(b + 128*(k%2))}))
					}
					ss = append(ss, string([]byte{byte(k / 2)}))
				}
				if len(ss) > 0 {
					c.manyStrings(ss)
				}
			}},
		{Prop: "C08", Name: "long-strings", ShardDepth: 2,
			Rule: "strings of lengths 0..260 and around every power of two up to 2^16 with each special character first, in the middle, last and everywhere",
			Body: func(c *C) {
				ch := chars[c.Choose("char", 8)]
				var ls []int
				for i := 0; i <= 260; i++ {
					ls = append(ls, i)
				}
				for p := uint(9); p <= 16; p++ {
					ls = append(ls, 1<<p-1, 1<<p, 1<<p+1)
				}
				n := ls[c.Choose("length", len(ls))]
				var s string
				switch c.Choose("where", 4) {
				case 0:
					s = ch + strings.Repeat("x", n)
				case 1:
					s = strings.Repeat("x", n/2) + ch + strings.Repeat("y", n-n/2)
				case 2:
					s = strings.Repeat("x", n) + ch
				case 3:
					s = strings.Repeat(ch, n)
				}
				c.checkX(xStr(s))
			}},
		{Prop: "C08", Name: "strings-next-to-strings", ShardDepth: 2,
			Rule: "all pairs of strings of up to 2 out of 9 characters in one statement: as list elements, operands, map entries",
			Body: func(c *C) {
				k := c.Choose("how", 3)
				a, b := xStr(c.word(2, 9, chars)), xStr(c.word(2, 9, chars))
				switch k {
				case 0:
					c.checkX(mkX(cy.ListOf(a.v, b.v), func(w *W) { w.sym("["); w.xs([]X{a, b}); w.sym("]") }))
				case 1:
					c.checkX(mkX(a.v.Concat(b.v).Get(), func(w *W) { w.sym("("); w.x(a); w.sym("+"); w.x(b); w.sym(")") }))
				case 2:
					c.checkX(mkX(cy.MapOf("k", a.v, "l", b.v), func(w *W) { w.mapOf([]KV{{"k", a}, {"l", b}}) }))
				}
			}},

		{Prop: "C10", Name: "integers", ShardDepth: 1,
			Rule: "all integers up to 100000 (thorough: 5 million) in size and all around powers of two and of ten, positive and negative",
			Body: func(c *C) {
				const per = 500
				lim := dep(100000, 5000000)
				n := lim/per + 1
				k := c.Choose("block", n+2)
				var is []int
				if k < n {
					for i := k * per; i < (k+1)*per && i <= lim; i++ {
						is = append(is, i, -i)
					}
				} else if k == n {
					for p := uint(0); p < 63; p++ {
						for d := -3; d <= 3; d++ {
							is = append(is, 1<<p+d, -(1<<p + d))
						}
					}
					is = append(is, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1)
				} else {
					for x := 1; x > 0 && x < math.MaxInt64/10; x *= 10 {
						for d := -3; d <= 3; d++ {
							for m := 1; m < 10; m++ {
								if m*x/m == x {
									is = append(is, m*x+d, -(m*x + d))
								}
							}
						}
					}
				}
				var xs []X
				for _, i := range is {
					xs = append(xs, xInt(i))
				}
				c.checkX(mkX(cy.ListOf(vals(xs)...), func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }))
			}},
		{Prop: "C10", Name: "floats", ShardDepth: 1,
			Rule: "every float64 exponent with 130 (thorough: 2000) mantissas (all single and double bits, ends, decimal fractions), both signs; all k/10^e with |k| <= 2000, e <= 25; every result read back as the same number",
			Body: func(c *C) {
				nd := 26 * 8
				k := c.Choose("block", 2047+nd)
				var fs []float64
				if k < 2047 {
					for _, m := range mantissas() {
						f := math.Float64frombits(uint64(k)<<52 | m)
						fs = append(fs, f, -f)
					}
				} else {
					k -= 2047
					e := k / 8
					for i := (k % 8) * 500; i < (k%8+1)*500; i++ {
						r := new(big.Rat).SetFrac(big.NewInt(int64(i)), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil))
						f, _ := r.Float64()
						fs = append(fs, f, -f)
						r.SetFrac(new(big.Int).Mul(big.NewInt(int64(i)), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil)), big.NewInt(1))
						f, _ = r.Float64()
						fs = append(fs, f)
					}
				}
				c.floats(fs)
			}},
		{Prop: "C10", Name: "literals-everywhere", ShardDepth: 2,
			Rule: "32 literals of all types in all 36 places of an expression and in every way to hand over raw values",
			Body: func(c *C) {
				k := c.Choose("place", nPlaces+6)
				x, raw := literal(c.Choose("literal", nLiterals))
				if k < nPlaces {
					c.inPlace(k, x)
					return
				}
				c.rawValue(k-nPlaces, x, raw)
			}},
		{Prop: "C10", Name: "list-literals", ShardDepth: 2,
			Rule: "all lists of up to 4 literals out of 12 kinds, nested lists to depth 3, made by LiteralOf, ListOf and ListOfRaw",
			Body: func(c *C) { c.listLiterals() }},
		{Prop: "C10", Name: "literal-pairs", ShardDepth: 1,
			Rule: "all pairs of 32 literals as both sides of arithmetic and comparison operators",
			Body: func(c *C) {
				a, _ := literal(c.Choose("left", nLiterals))
				b, _ := literal(c.Choose("right", nLiterals))
				k := c.Choose("operator", 4)
				op := []string{"-", "*", "=", "^"}[k]
				var v cy.Expression
				switch k {
				case 0:
					v = a.v.Subtract(b.v).Get()
				case 1:
					v = a.v.Multiply(b.v).Get()
				case 2:
					v = a.v.IsEqualTo(b.v).Get()
				case 3:
					v = a.v.Pow(b.v).Get()
				}
				s, err := cy.CypherReturning(v).Build()
				c.check(s, err, func(w *W) {
					w.kw("RETURN")
					if k < 2 {
						w.sym("(")
					}
					w.x(a)
					w.sym(op)
					w.x(b)
					if k < 2 {
						w.sym(")")
					}
				})
			}},
		{Prop: "C10", Name: "counts-and-indexes", ShardDepth: 1,
			Rule: "list subscripts, slices, ranges, lengths of relationships, percentiles and dates with numbers around every power of two and ten",
			Body: func(c *C) { c.numberHelpers() }},
		{Prop: "C10", Name: "values-without-literal", ShardDepth: 1,
			Rule: "24 values Cypher has no literal for (NaN, infinities, other Go types) in every way to hand over a raw value, in 36 places: always an error",
			Body: func(c *C) { c.noLiteral() }},
	}, nameHarnesses()...)
}

var mantCache []uint64

func mantissas() []uint64 {
	if mantCache != nil {
		return mantCache
	}
	ms := []uint64{0, 1<<52 - 1, 1<<51 - 1, 0x5555555555555, 0xAAAAAAAAAAAAA, 0x999999999999A, 0x3333333333333}
	for i := uint(0); i < 52; i++ {
		ms = append(ms, 1<<i, 1<<52-1-1<<i)
		if i > 0 {
			ms = append(ms, 1<<i|1)
		}
		if thorough() {
			for j := uint(0); j < i; j++ {
				ms = append(ms, 1<<i|1<<j)
			}
			ms = append(ms, 1<<i-1, 1<<52-1<<i)
		}
	}
	mantCache = ms
	return ms
}

func (c *C) floats(fs []float64) {
	var es []cy.Expression
	for _, f := range fs {
		es = append(es, cy.LiteralOf(f))
	}
	s, err := cy.CypherReturning(cy.ListOf(es...)).Build()
	text, err := render(s, err)
	if err != nil {
		c.Fail("unexpected error %v", err)
		return
	}
	c.State(text)
	ts, err := Lex(text)
	if err != nil {
		c.Fail("text can not be read: %v: %.200q", err, text)
		return
	}
	pos := 2
	for i, f := range fs {
		c.checks++
		neg := false
		if pos < len(ts) && isSym(ts[pos], "-") {
			neg = true
			pos++
		}
		if pos >= len(ts) || ts[pos].K != Num {
			c.Fail("no number for %v", f)
			return
		}
		r := ts[pos].N
		if neg {
			r = new(big.Rat).Neg(r)
		}
		g, _ := r.Float64()
		if g != f || !neg && f < 0 {
			c.Fail("%v is rendered as %s", f, ts[pos].S)
			return
		}
		// an integral float may not turn into an integer beyond the range of Cypher's integers
		if strings.IndexAny(ts[pos].S, ".eE") < 0 && math.Abs(f) >= 1<<63 {
			c.Fail("%v is rendered as an integer that is out of range: %s", f, ts[pos].S)
			return
		}
		pos++
		if i < len(fs)-1 {
			if pos >= len(ts) || !isSym(ts[pos], ",") {
				c.Fail("no comma behind %v", f)
				return
			}
			pos++
		}
	}
	if pos != len(ts)-1 {
		c.Fail("list goes on: %v", ts[pos])
	}
}

const nLiterals = 32

func xFloat(f float64) X {
	r := new(big.Rat)
	r.SetFloat64(f)
	return mkX(cy.LiteralOf(f), func(w *W) { w.flt(f) })
}

// flt wants the number that reads back as exactly this float.
func (w *W) flt(f float64) {
	if f < 0 || f == 0 && math.Signbit(f) && false {
		w.sym("-")
		f = -f
	}
	w.put(Tok{K: Flt, N: new(big.Rat).SetFloat64(f)})
}

func literal(k int) (X, interface{}) {
	ints := []int{0, 1, -1, 10, 1000000, 123456789, math.MaxInt64, math.MinInt64, -100}
	floats := []float64{0.5, -0.5, 1, 100, 1e6, 1e20, 1e21, 1e22, 123456789.5, 1e-7, 5e-324, math.MaxFloat64, 0.1, -1e21, 1e100, 3}
	switch {
	case k < 9:
		return xInt(ints[k]), ints[k]
	case k < 25:
		return xFloat(floats[k-9]), floats[k-9]
	case k == 25:
		return mkX(cy.LiteralOf(true), func(w *W) { w.kw("true") }), true
	case k == 26:
		return mkX(cy.LiteralOf(false), func(w *W) { w.kw("false") }), false
	case k == 27:
		return mkX(cy.LiteralOf(nil), func(w *W) { w.kw("null") }), nil
	case k == 28:
		return mkX(cy.LiteralTrue(), func(w *W) { w.kw("true") }), true
	case k == 29:
		return mkX(cy.LiteralFalse(), func(w *W) { w.kw("false") }), false
	case k == 30:
		l := []cy.Literal{cy.LiteralOf(-1), cy.LiteralOf(nil), cy.LiteralOf(2.5)}
		return mkX(cy.LiteralOf(l), func(w *W) {
			w.sym("[")
			w.num(-1)
			w.sym(",")
			w.kw("null")
			w.sym(",")
			w.flt(2.5)
			w.sym("]")
		}), l
	}
	return mkX(cy.LiteralOf([]cy.Literal{}), func(w *W) { w.sym("[", "]") }), []cy.Literal{}
}

func (c *C) rawValue(k int, x X, raw interface{}) {
	switch k {
	case 0:
		c.checkX(mkX(cy.MapOf("k", raw), func(w *W) { w.mapOf([]KV{{"k", x}}) }))
	case 1:
		n := N{cy.AnyNode().WithRawProperties("k", raw, "l", raw).NamedByString("n"), nextID(), "n", nil, []KV{{"k", x}, {"l", x}}}
		st, err := cy.Match(n.v).ReturningByString("n").Build()
		c.check(st, err, func(w *W) { w.kw("MATCH"); w.n(n); w.kw("RETURN"); w.name("n") })
	case 2:
		r := mkR(mkN("a", nil, nil), 2, mkN("b", nil, nil), "T")
		r.v = r.v.WithRawProperties("k", raw)
		r.props = []KV{{"k", x}}
		st, err := cy.Create(r.v).Build()
		c.check(st, err, func(w *W) { w.kw("CREATE"); w.r(r) })
	case 3:
		c.checkX(mkX(cy.ListOfRaw(raw, raw), func(w *W) { w.sym("["); w.x(x); w.sym(","); w.x(x); w.sym("]") }))
	case 4:
		n := N{cy.NewNodeWithProperties("L", cy.MapOf("k", raw)).NamedByString("n"), nextID(), "n", []string{"L"}, []KV{{"k", x}}}
		st, err := cy.Match(n.v).ReturningByString("n").Build()
		c.check(st, err, func(w *W) { w.kw("MATCH"); w.n(n); w.kw("RETURN"); w.name("n") })
	case 5:
		r := mkR(mkN("a", nil, nil), 0, mkN("b", nil, nil), "T")
		n := mkN("c", nil, nil)
		r2 := R{l: r.r, r: n, dir: 1, types: []string{"U"}, props: []KV{{"k", x}}}
		ch := r.v.RelationshipFrom(n.v, "U").PropertiesRaw("k", raw)
		st, err := cy.Create(ch).Build()
		c.check(st, err, func(w *W) { w.kw("CREATE"); w.ch(Ch{rs: []R{r, r2}}) })
	}
}

func (c *C) listLiterals() {
	kinds := []int{0, 2, 6, 9, 10, 14, 25, 27, 30, 31}
	how := c.Choose("how", 3)
	n := c.Choose("elements", dep(4, 5))
	var ls []cy.Literal
	var es []cy.Expression
	var raws []interface{}
	var xs []X
	for i := 0; i < n; i++ {
		k := c.Choose("element", len(kinds)+1)
		var x X
		var raw interface{}
		if k == len(kinds) {
			x, raw = xStr("it's"), "it's"
		} else {
			x, raw = literal(kinds[k])
		}
		xs = append(xs, x)
		ls = append(ls, x.v.(cy.Literal))
		es = append(es, x.v)
		raws = append(raws, raw)
	}
	em := func(w *W) { w.sym("["); w.xs(xs); w.sym("]") }
	switch how {
	case 0:
		v := cy.LiteralOf(ls)
		c.checkX(mkX(v, em))
		vv := cy.LiteralOf([]cy.Literal{v, cy.LiteralOf([]cy.Literal{v})})
		c.checkX(mkX(vv, func(w *W) { w.sym("["); em(w); w.sym(",", "["); em(w); w.sym("]", "]") }))
		c.checkX(mkX(cy.ListOf(vv, v), func(w *W) {
			w.sym("[", "[")
			em(w)
			w.sym(",", "[")
			em(w)
			w.sym("]", "]", ",")
			em(w)
			w.sym("]")
		}))
	case 1:
		if n > 0 {
			c.checkX(mkX(cy.ListOf(es...), em))
		}
	case 2:
		if n > 0 {
			c.checkX(mkX(cy.ListOfRaw(raws...), em))
		}
	}
}

func someInts() []int {
	var ns []int
	for p := uint(0); p < 62; p += 1 {
		ns = append(ns, 1<<p, 1<<p+1, 1<<p-1)
	}
	for x := 10; x > 0 && x < 1e18; x *= 10 {
		ns = append(ns, x, x-1, x+1)
	}
	return ns
}

func (c *C) numberHelpers() {
	ns := someInts()
	n := ns[c.Choose("number", len(ns))]
	z := xSym("z")
	ints := func(name string, is ...int) Em {
		return func(w *W) {
			w.kw(name)
			w.sym("(")
			for i, n := range is {
				if i > 0 {
					w.sym(",")
				}
				w.num(n)
			}
			w.sym(")")
		}
	}
	switch c.Choose("helper", 14) {
	case 0:
		c.checkX(mkX(cy.CypherValueAt(z.v, n), func(w *W) { w.x(z); w.sym("["); w.num(n); w.sym("]") }))
		c.checkX(mkX(cy.CypherValueAt(z.v, -n), func(w *W) { w.x(z); w.sym("["); w.num(-n); w.sym("]") }))
	case 1:
		c.checkX(mkX(cy.ASubList(z.v, n, n+1), func(w *W) {
			w.x(z)
			w.sym("[")
			w.num(n)
			w.sym("..")
			w.num(n + 1)
			w.sym("]")
		}))
	case 2:
		c.checkX(mkX(cy.CypherSubListFrom(z.v, n), func(w *W) { w.x(z); w.sym("["); w.num(n); w.sym("..", "]") }))
	case 3:
		c.checkX(mkX(cy.ASubListUntil(z.v, n), func(w *W) { w.x(z); w.sym("[", ".."); w.num(n); w.sym("]") }))
	case 4:
		c.checkX(mkX(cy.RangeRaw(-n, n), ints("range", -n, n)))
	case 5:
		c.checkX(mkX(cy.RangeWithStepRaw(n, -n, n+2), ints("range", n, -n, n+2)))
	case 6, 7, 8:
		if n > math.MaxInt32 {
			return
		}
		r := mkR(mkN("a", nil, nil), 0, mkN("b", nil, nil), "T")
		switch c.Choose("length", 3) {
		case 0:
			r.v, r.lk, r.min = r.v.Min(n), 2, n
		case 1:
			r.v, r.lk, r.max = r.v.Max(n), 3, n
		case 2:
			r.v, r.lk, r.min, r.max = r.v.Length(n, n+1), 4, n, n+1
		}
		st, err := cy.Match(r.v).ReturningByString("a").Build()
		c.check(st, err, func(w *W) { w.kw("MATCH"); w.r(r); w.kw("RETURN"); w.name("a") })
	case 9:
		f := 1 - 1/float64(n+3)
		c.checkX(mkX(cy.PercentileCont(z.v, f), func(w *W) {
			w.kw("percentileCont")
			w.sym("(")
			w.x(z)
			w.sym(",")
			w.flt(f)
			w.sym(")")
		}))
	case 10:
		f := 1 / float64(n+1)
		c.checkX(mkX(cy.PercentileDiscDistinct(z.v, f), func(w *W) {
			w.kw("percentileDisc")
			w.sym("(")
			w.kw("DISTINCT")
			w.x(z)
			w.sym(",")
			w.flt(f)
			w.sym(")")
		}))
	case 11:
		c.checkX(mkX(cy.CalendarDate(n, -n, n+1), func(w *W) {
			w.kw("date")
			w.sym("(")
			w.mapOf([]KV{{"year", xInt(n)}, {"month", xInt(-n)}, {"day", xInt(n + 1)}})
			w.sym(")")
		}))
	case 12:
		if n == 0 {
			return
		}
		s, err := cy.CypherReturning(z.v).Skip(n).Limit(n).Build()
		c.check(s, err, func(w *W) {
			w.kw("RETURN")
			w.x(z)
			w.kw("SKIP")
			w.num(n)
			w.kw("LIMIT")
			w.num(n)
		})
	case 13:
		if n == 0 {
			return
		}
		s, err := cy.Match(cy.AnyNodeNamed("a")).With(z.v).Skip(n).Limit(n).Returning(z.v).Build()
		c.check(s, err, func(w *W) {
			w.kw("MATCH")
			w.sym("(")
			w.name("a")
			w.sym(")")
			w.kw("WITH")
			w.x(z)
			w.kw("SKIP")
			w.num(n)
			w.kw("LIMIT")
			w.num(n)
			w.kw("RETURN")
			w.x(z)
		})
	}
}

type myString string
type myInt int

func (c *C) noLiteral() {
	one := 1
	var nilErr error
	_ = nilErr
	bad := []interface{}{math.NaN(), math.Inf(1), math.Inf(-1), int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint64(1), float32(1),
		[]int{1}, []string{"a"}, []interface{}{1}, map[string]int{"a": 1}, struct{}{}, &one, complex(1, 1), 'x', myString("a"), myInt(1),
		func() {}, make(chan int), [2]int{1, 2}}
	v := bad[c.Choose("value", len(bad))]
	k := c.Choose("place", nPlaces+8)
	what := "a value without literal"
	z := cy.ASymbolic("z")
	if k < nPlaces {
		s, err, _ := place(k, X{v: cy.LiteralOf(v), id: nextID(), em: func(w *W) {}})
		c.wantErr(s, err, what)
		return
	}
	ret := func(e cy.Expression) {
		s, err := cy.CypherReturning(e).Build()
		c.wantErr(s, err, what)
	}
	switch k - nPlaces {
	case 0:
		ret(cy.MapOf("a", 1, "k", v))
	case 1:
		s, err := cy.Match(cy.AnyNode().WithRawProperties("k", v).NamedByString("n")).Returning(z).Build()
		c.wantErr(s, err, what)
	case 2:
		s, err := cy.Match(cy.AnyNode().RelationshipTo(cy.AnyNode(), "T").WithRawProperties("k", v)).Returning(z).Build()
		c.wantErr(s, err, what)
	case 3:
		ret(cy.ListOfRaw(1, v))
	case 4:
		s, err := cy.Match(cy.NewNodeWithProperties("L", cy.MapOf("k", v))).Returning(z).Build()
		c.wantErr(s, err, what)
	case 5:
		ret(cy.LiteralOf([]cy.Literal{cy.LiteralOf(1), cy.LiteralOf(v)}))
	case 6:
		s, err := cy.Match(cy.AnyNode().RelationshipTo(cy.AnyNode()).RelationshipTo(cy.AnyNode()).PropertiesRaw("k", v)).Returning(z).Build()
		c.wantErr(s, err, what)
	case 7:
		f, ok := v.(float64)
		if !ok {
			return
		}
		ret([]func(cy.Expression, float64) cy.FunctionInvocation{cy.PercentileCont, cy.PercentileContDistinct, cy.PercentileDisc, cy.PercentileDiscDistinct}[c.Choose("percentile", 4)](z, f))
	}
}

package main

// An independent reader of Cypher's expression grammar (operator precedence of openCypher). Where the dialects of Cypher
// disagree about a text (a string, list or null operator next to unparenthesised arithmetic, chains of ^ or of
// comparisons) it refuses the text as ambiguous, so that accepted texts mean the same everywhere.

import (
	"fmt"
	"strings"
)

type Nd struct {
	op    string
	kids  []*Nd
	i, j  int // token span, without enclosing parentheses
	paren bool
}

// String is the canonical form: operator tree without layout.
func (n *Nd) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *Nd) write(sb *strings.Builder) {
	if len(n.kids) == 0 {
		sb.WriteString(n.op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(n.op)
	for _, k := range n.kids {
		sb.WriteByte(' ')
		k.write(sb)
	}
	sb.WriteByte(')')
}

type parser struct {
	t []Tok
	p int
}

type parseErr struct{ msg string }

func (p *parser) fail(f string, a ...interface{}) {
	panic(parseErr{fmt.Sprintf(f, a...)})
}

func (p *parser) peek() Tok {
	if p.p < len(p.t) {
		return p.t[p.p]
	}
	return Tok{K: Sym, S: "<end>"}
}

func (p *parser) at(k int) Tok {
	if p.p+k < len(p.t) {
		return p.t[p.p+k]
	}
	return Tok{K: Sym, S: "<end>"}
}

func isKw(t Tok, s string) bool { return (t.K == Word || t.K == KW) && strings.EqualFold(t.S, s) }
func isSym(t Tok, s string) bool {
	return t.K == Sym && t.S == s
}

func (p *parser) kw(s string) bool {
	if isKw(p.peek(), s) {
		p.p++
		return true
	}
	return false
}

func (p *parser) sym(s string) bool {
	if isSym(p.peek(), s) {
		p.p++
		return true
	}
	return false
}

func (p *parser) need(s string) {
	if !p.sym(s) {
		p.fail("expected %s at %s", s, p.peek())
	}
}

func isName(t Tok) bool { return t.K == Word || t.K == Quoted || t.K == NM }

func (p *parser) mk(i int, op string, kids ...*Nd) *Nd {
	return &Nd{op: op, kids: kids, i: i, j: p.p}
}

// parseExprAt reads one expression from position pos on.
func parseExprAt(t []Tok, pos int) (n *Nd, next int, err error) {
	p := &parser{t: t, p: pos}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	n = p.or()
	return n, p.p, nil
}

func parseExpr(text string) (*Nd, error) {
	t, err := Lex(text)
	if err != nil {
		return nil, err
	}
	n, next, err := parseExprAt(t, 0)
	if err != nil {
		return nil, err
	}
	if next != len(t) {
		return nil, fmt.Errorf("expression ends before %s", t[next])
	}
	return n, nil
}

func (p *parser) or() *Nd {
	i := p.p
	l := p.xor()
	for p.kw("OR") {
		r := p.xor()
		l = p.mk(i, "OR", l, r)
	}
	return l
}

func (p *parser) xor() *Nd {
	i := p.p
	l := p.and()
	for p.kw("XOR") {
		r := p.and()
		l = p.mk(i, "XOR", l, r)
	}
	return l
}

func (p *parser) and() *Nd {
	i := p.p
	l := p.not()
	for p.kw("AND") {
		r := p.not()
		l = p.mk(i, "AND", l, r)
	}
	return l
}

func (p *parser) not() *Nd {
	i := p.p
	if p.kw("NOT") {
		return p.mk(i, "NOT", p.not())
	}
	return p.cmp()
}

func (p *parser) cmp() *Nd {
	i := p.p
	l := p.strOp()
	n := 0
	for {
		t := p.peek()
		if t.K != Sym {
			return l
		}
		switch t.S {
		case "=", "<>", "<", "<=", ">", ">=":
			p.p++
			if n > 0 {
				p.fail("chained comparison")
			}
			n++
			r := p.strOp()
			l = p.mk(i, t.S, l, r)
		default:
			return l
		}
	}
}

func (p *parser) strict(n *Nd) *Nd {
	if n.paren {
		return n
	}
	switch n.op {
	case "+", "-", "*", "/", "%", "^":
		if len(n.kids) == 2 {
			p.fail("ambiguous: operator %s next to a string, list or null operator without parentheses", n.op)
		}
	}
	return n
}

func (p *parser) strOp() *Nd {
	i := p.p
	l := p.add()
	n := 0
	for {
		t := p.peek()
		op := ""
		switch {
		case isSym(t, "=~"):
			p.p++
			op = "=~"
		case isKw(t, "STARTS") && isKw(p.at(1), "WITH"):
			p.p += 2
			op = "STARTS WITH"
		case isKw(t, "ENDS") && isKw(p.at(1), "WITH"):
			p.p += 2
			op = "ENDS WITH"
		case isKw(t, "CONTAINS"):
			p.p++
			op = "CONTAINS"
		case isKw(t, "IN"):
			p.p++
			op = "IN"
		case isKw(t, "IS") && isKw(p.at(1), "NULL"):
			p.p += 2
			op = "IS NULL"
		case isKw(t, "IS") && isKw(p.at(1), "NOT") && isKw(p.at(2), "NULL"):
			p.p += 3
			op = "IS NOT NULL"
		default:
			return l
		}
		if n > 0 {
			p.fail("ambiguous chain of %s", op)
		}
		n++
		p.strict(l)
		if strings.HasPrefix(op, "IS") {
			l = p.mk(i, op, l)
			continue
		}
		r := p.strict(p.add())
		l = p.mk(i, op, l, r)
	}
}

func (p *parser) add() *Nd {
	i := p.p
	l := p.mul()
	for {
		t := p.peek()
		if isSym(t, "+") || isSym(t, "-") {
			p.p++
			r := p.mul()
			l = p.mk(i, t.S, l, r)
			continue
		}
		return l
	}
}

func (p *parser) mul() *Nd {
	i := p.p
	l := p.pow()
	for {
		t := p.peek()
		if isSym(t, "*") || isSym(t, "/") || isSym(t, "%") {
			p.p++
			r := p.pow()
			l = p.mk(i, t.S, l, r)
			continue
		}
		return l
	}
}

func (p *parser) pow() *Nd {
	i := p.p
	l := p.unary()
	n := 0
	for p.sym("^") {
		if n > 0 {
			p.fail("ambiguous chain of ^")
		}
		n++
		r := p.unary()
		l = p.mk(i, "^", l, r)
	}
	return l
}

func (p *parser) unary() *Nd {
	i := p.p
	if p.sym("-") {
		if t := p.peek(); t.K == Num {
			p.p++
			return p.post(i, p.mk(i, "-"+t.N.RatString()))
		}
		return p.mk(i, "neg", p.unary())
	}
	return p.post(i, p.atom())
}

func (p *parser) name() string {
	t := p.peek()
	if !isName(t) {
		p.fail("expected a name at %s", t)
	}
	p.p++
	return nameStr(t.S)
}

func nameStr(s string) string {
	if plainName(s) {
		return s
	}
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

func (p *parser) post(i int, n *Nd) *Nd {
	for {
		switch {
		case isSym(p.peek(), ".") && isName(p.at(1)):
			p.p++
			nm := p.name()
			n = p.mk(i, "."+nm, n)
		case isSym(p.peek(), "["):
			p.p++
			var a, b *Nd
			none := &Nd{op: "_"}
			if !isSym(p.peek(), "..") {
				a = p.or()
			}
			if p.sym("..") {
				if a == nil {
					a = none
				}
				b = none
				if !isSym(p.peek(), "]") {
					b = p.or()
				}
				p.need("]")
				n = p.mk(i, "slice", n, a, b)
			} else {
				p.need("]")
				n = p.mk(i, "index", n, a)
			}
		case isSym(p.peek(), ":") && isName(p.at(1)):
			p.p++
			nm := p.name()
			n = p.mk(i, ":"+nm, n)
		default:
			return n
		}
	}
}

func (p *parser) tokText(i, j int) string {
	var parts []string
	for _, t := range p.t[i:j] {
		switch t.K {
		case Word, KW, NM, Quoted:
			parts = append(parts, nameStr(t.S))
		case Str:
			parts = append(parts, fmt.Sprintf("%q", t.S))
		default:
			parts = append(parts, t.String())
		}
	}
	return strings.Join(parts, "_")
}

// balanced skips from the opening bracket at p to behind its partner.
func (p *parser) balanced() {
	depth := 0
	for {
		t := p.peek()
		if t.K == Sym {
			switch t.S {
			case "(", "[", "{":
				depth++
			case ")", "]", "}":
				depth--
			case "<end>":
				p.fail("unbalanced brackets")
			}
		}
		p.p++
		if depth == 0 {
			return
		}
	}
}

// tryPattern reads a relationship pattern (at least one relationship).
func (p *parser) tryPattern() *Nd {
	start := p.p
	n := 0
	for {
		if !isSym(p.peek(), "(") || !p.nodeBody() {
			p.p = start
			return nil
		}
		// relationship?
		q := p.p
		left := p.sym("<")
		if !p.sym("-") {
			p.p = q
			break
		}
		if isSym(p.peek(), "[") {
			p.balanced()
		}
		if !p.sym("-") {
			p.p = start
			return nil
		}
		if !left {
			p.sym(">")
		}
		if !isSym(p.peek(), "(") {
			p.p = start
			return nil
		}
		n++
	}
	if n == 0 {
		p.p = start
		return nil
	}
	return p.mk(start, "pattern:"+p.tokText(start, p.p))
}

func (p *parser) nodeBody() bool {
	p.p++
	if isName(p.peek()) {
		p.p++
	}
	for isSym(p.peek(), ":") && isName(p.at(1)) {
		p.p += 2
	}
	if isSym(p.peek(), "{") {
		p.balanced()
	}
	return p.sym(")")
}

func (p *parser) atom() *Nd {
	i := p.p
	t := p.peek()
	switch {
	case t.K == Num:
		p.p++
		return p.mk(i, t.N.RatString())
	case t.K == Str:
		p.p++
		return p.mk(i, fmt.Sprintf("%q", t.S))
	case isSym(t, "*"):
		p.p++
		return p.mk(i, "*")
	case isSym(t, "$"):
		p.p++
		if isName(p.peek()) || p.peek().K == Num {
			p.p++
		} else {
			p.fail("parameter without name")
		}
		return p.mk(i, p.tokText(i, p.p))
	case isSym(t, "("):
		if n := p.tryPattern(); n != nil {
			return n
		}
		p.p = i + 1
		n := p.or()
		p.need(")")
		c := *n
		c.paren = true
		return &c
	case isSym(t, "["):
		return p.list()
	case isSym(t, "{"):
		return p.mapLit("map")
	case isKw(t, "CASE"):
		return p.caseExpr()
	case isKw(t, "NOT"):
		p.fail("NOT in the place of an operand")
	case isName(t):
		if isKw(t, "EXISTS") && isSym(p.at(1), "{") {
			p.p++
			p.balanced()
			return p.mk(i, "exists:"+p.tokText(i, p.p))
		}
		p.p++
		nm := nameStr(t.S)
		q := p.p
		full := nm
		for isSym(p.peek(), ".") && isName(p.at(1)) {
			p.p++
			full += "." + p.name()
		}
		if isSym(p.peek(), "(") {
			return p.call(i, full)
		}
		p.p = q
		n := p.mk(i, nm)
		if isSym(p.peek(), "{") {
			k := p.projection()
			return p.mk(i, "project", n, k)
		}
		return n
	}
	p.fail("expected an expression at %s", t)
	return nil
}

func (p *parser) call(i int, name string) *Nd {
	p.need("(")
	kids := []*Nd{}
	if p.sym(")") {
		return p.mk(i, name+"()")
	}
	if p.kw("DISTINCT") {
		name += " DISTINCT"
	}
	lower := strings.ToLower(name)
	if (lower == "all" || lower == "any" || lower == "none" || lower == "single") && isName(p.peek()) && isKw(p.at(1), "IN") {
		v := p.name()
		p.p++
		l := p.or()
		if p.kw("WHERE") {
			c := p.or()
			p.need(")")
			return p.mk(i, lower+":"+v, l, c)
		}
		p.need(")")
		return p.mk(i, lower+":"+v, l)
	}
	for {
		// a function may take a pattern of a single node or a path
		kids = append(kids, p.or())
		if p.sym(",") {
			continue
		}
		p.need(")")
		return p.mk(i, name+"()", kids...)
	}
}

func (p *parser) list() *Nd {
	i := p.p
	p.need("[")
	if p.sym("]") {
		return p.mk(i, "list[]")
	}
	if isName(p.peek()) && isKw(p.at(1), "IN") {
		v := p.name()
		p.p++
		l := p.or()
		var w, r *Nd = &Nd{op: "_"}, &Nd{op: "_"}
		if p.kw("WHERE") {
			w = p.or()
		}
		if p.sym("|") {
			r = p.or()
		}
		p.need("]")
		return p.mk(i, "comp:"+v, l, w, r)
	}
	// pattern comprehension
	q := p.p
	v := ""
	if isName(p.peek()) && isSym(p.at(1), "=") && isSym(p.at(2), "(") {
		v = p.name()
		p.p++
	}
	if isSym(p.peek(), "(") {
		if pat := p.tryPattern(); pat != nil && (isSym(p.peek(), "|") || isKw(p.peek(), "WHERE")) {
			var w *Nd = &Nd{op: "_"}
			if p.kw("WHERE") {
				w = p.or()
			}
			p.need("|")
			r := p.or()
			p.need("]")
			return p.mk(i, "pcomp:"+v, pat, w, r)
		}
	}
	p.p = q
	kids := []*Nd{}
	for {
		kids = append(kids, p.or())
		if p.sym(",") {
			continue
		}
		p.need("]")
		return p.mk(i, "list", kids...)
	}
}

func (p *parser) mapLit(op string) *Nd {
	i := p.p
	p.need("{")
	if p.sym("}") {
		return p.mk(i, op+"{}")
	}
	kids := []*Nd{}
	for {
		k := p.name()
		p.need(":")
		v := p.or()
		kids = append(kids, p.mk(i, k+":", v))
		if p.sym(",") {
			continue
		}
		p.need("}")
		return p.mk(i, op, kids...)
	}
}

func (p *parser) projection() *Nd {
	i := p.p
	p.need("{")
	if p.sym("}") {
		return p.mk(i, "proj{}")
	}
	kids := []*Nd{}
	for {
		j := p.p
		if p.sym(".") {
			if p.sym("*") {
				kids = append(kids, p.mk(j, ".*"))
			} else {
				kids = append(kids, p.mk(j, "."+p.name()))
			}
		} else {
			k := p.name()
			if p.sym(":") {
				v := p.or()
				kids = append(kids, p.mk(j, k+":", v))
			} else {
				kids = append(kids, p.mk(j, k))
			}
		}
		if p.sym(",") {
			continue
		}
		p.need("}")
		return p.mk(i, "proj", kids...)
	}
}

func (p *parser) caseExpr() *Nd {
	i := p.p
	p.p++
	kids := []*Nd{}
	if isKw(p.peek(), "WHEN") {
		kids = append(kids, &Nd{op: "_"})
	} else {
		kids = append(kids, p.or())
	}
	for p.kw("WHEN") {
		w := p.or()
		if !p.kw("THEN") {
			p.fail("expected THEN at %s", p.peek())
		}
		t := p.or()
		kids = append(kids, p.mk(i, "when", w, t))
	}
	if p.kw("ELSE") {
		kids = append(kids, p.mk(i, "else", p.or()))
	}
	if !p.kw("END") {
		p.fail("expected END at %s", p.peek())
	}
	return p.mk(i, "case", kids...)
}

package main

// C03, C05: many arguments and many calls, by reflection over the whole API.

import (
	"fmt"
	"math"
	"reflect"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

func wideHarnesses() []*Harness {
	return []*Harness{
		{Prop: "C03", Name: "wide-branches", ShardDepth: 3,
			Rule: "every call with a variable number of arguments made with 9, 17 or 33 (thorough: every odd number up to 33, 65, 129) arguments, then any call that can be repeated made none or two (thorough: up to three) times, then two continuations (quick: that call again or the first one; thorough: all) in three orders of continuing and building; each compared with its execution alone",
			Body: func(c *C) {
				k := variadics[c.Choose("call", len(variadics))]
				vs := []int{4, 8, 16}
				if thorough() {
					vs = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 32, 64}
				}
				v := vs[c.Choose("arguments", len(vs))]
				var p prog
				if k.on == nil {
					p = prog{f: k.f, v: v}
				} else {
					p = k.on.then(apiStep{m: k.m, v: v})
				}
				if p.typ().Implements(tExpr) && p.typ().Kind() == reflect.Struct && p.typ() != tCase && !hasMethod(p.typ(), "And") && !hasMethod(p.typ(), "AddEntries") {
					return // the operators of expressions make new values
				}
				var grow []apiStep
				for _, s := range p.next() {
					if q := p.then(s); hasMethod(q.typ(), s.m) && (!q.typ().Implements(tExpr) || !exprMethods[s.m] && s.m != "Add" && s.m != "As") {
						grow = append(grow, s)
					}
				}
				if len(grow) == 0 {
					return
				}
				m := grow[c.Choose("repeat", len(grow))]
				times := []int{0, 2}
				if thorough() {
					times = []int{0, 1, 2, 3}
				}
				n := times[c.Choose("times", len(times))]
				for i := 0; i < n && hasMethod(p.typ(), m.m); i++ {
					p = p.then(m)
				}
				if !hasMethod(p.typ(), m.m) {
					return
				}
				as := []apiStep{m}
				if k.on != nil && k.m != m.m && hasMethod(p.typ(), k.m) {
					as = append(as, apiStep{m: k.m})
				}
				if thorough() {
					as = nil
					for _, s := range p.next() {
						if s.v == 0 || s.m == m.m {
							as = append(as, s)
						}
					}
				}
				a := as[c.Choose("one", len(as))]
				c.branch(p, []apiStep{a}, []apiStep{m})
			}},
		{Prop: "C05", Name: "invalid-in-many", ShardDepth: 2,
			Rule: "every call with a variable number of arguments made with about 9, 17, 33 and 65 (thorough: 129, 257) of them; an invalid value (three kinds per type, and an empty string, value without literal or nil where plain values are taken) at every position; completed",
			Body: func(c *C) {
				k := wideSites[c.Choose("call", len(wideSites))]
				vs := []int{4, 8, 16, 32}
				if thorough() {
					vs = append(vs, 64, 128)
				}
				v := vs[c.Choose("arguments", len(vs))]
				g := &G{p: "r"}
				var fn reflect.Value
				if k.on == nil {
					fn = apiFns[k.f].v
				} else {
					fn = k.on.run(g).MethodByName(k.m)
				}
				t := fn.Type()
				as := g.args(k.name(), t, v)
				par := t.NumIn() - 1
				el := t.In(par).Elem()
				pos := par + c.Choose("position", len(as)-par)
				var bs []bad
				switch el {
				case tString:
					bs = []bad{{"an empty string", reflect.ValueOf("")}}
				case tAny:
					bs = []bad{{"a value without literal", reflect.ValueOf(struct{}{})}, {"not a number", reflect.ValueOf(math.NaN())}, {"an empty name", reflect.ValueOf(cy.ASymbolic(""))}}
					if _, isString := as[pos].Interface().(string); isString && takesKeys[k.name()] {
						bs = append(bs, bad{"an empty key", reflect.ValueOf("")})
					}
				default:
					all := badsOf(el)
					for i, b := range all {
						if (i == 1 || i == len(all)/3 || i == 2*len(all)/3 || i == len(all)-1) && b.name != "nil" && !noneAllowed(k, b) {
							bs = append(bs, b)
						}
					}
				}
				if len(bs) == 0 {
					return
				}
				b := bs[c.Choose("invalid", len(bs))]
				x := reflect.New(el).Elem()
				if b.v.IsValid() && (b.v.Kind() != reflect.Interface || !b.v.IsNil()) {
					x.Set(reflect.ValueOf(b.v.Interface()))
				}
				as[pos] = x
				what := fmt.Sprintf("%s as argument %d of %d given to %s", b.name, pos-par, len(as)-par, k)
				c.Log("%s", what)
				c.mustFail(g, fn.Call(as)[0], what)
			}},
		{Prop: "C05", Name: "invalid-then-many-calls", ShardDepth: 2,
			Rule: "an invalid value given to every stage of a statement and to every condition, pattern, map, case or projection that can grow, then each call that can be repeated 5, 9, 17 and 33 (thorough: 65, 257) times, and completed",
			Body: func(c *C) {
				k := growing()[c.Choose("call", len(growing()))]
				all := badsOf(k.ptt)
				var bs []bad
				for i, b := range all {
					if (i == 1 || i == len(all)/2 || i == len(all)-1) && b.name != "nil" && !noneAllowed(k, b) {
						bs = append(bs, b)
					}
				}
				if len(bs) == 0 {
					return
				}
				b := bs[c.Choose("invalid", len(bs))]
				g := &G{p: "r"}
				x := k.consume(g, b.v)
				ss := repeatable(x.Type())
				if len(ss) == 0 {
					return
				}
				s := ss[c.Choose("repeat", len(ss))]
				ns := []int{5, 9, 17, 33}
				if thorough() {
					ns = append(ns, 65, 257)
				}
				n := ns[c.Choose("times", len(ns))]
				for i := 0; i < n && hasMethod(x.Type(), s.m); i++ {
					x = g.call(x, s)
				}
				c.mustFail(g, x, fmt.Sprintf("%s given to %s, followed by %d times %s,", b.name, k, n, s.m))
			}},
	}
}

// wideSites are the variadic calls as consumers of one of their arguments.
var wideSites = func() []consumer {
	var r []consumer
	for _, k := range variadics {
		if k.m == "AddEntries" {
			continue
		}
		t := k.fnType()
		k.par, k.ptt = t.NumIn()-1, t.In(t.NumIn()-1).Elem()
		r = append(r, k)
	}
	return r
}()

// repeatable lists the calls that can be made again on their result.
func repeatable(t reflect.Type) []apiStep {
	var r []apiStep
	for _, s := range apiSteps(t) {
		if s.v != 0 {
			continue
		}
		m, _ := t.MethodByName(s.m)
		out := methodType(t, m).Out(0)
		if hasMethod(out, s.m) && (!out.Implements(tExpr) || !exprMethods[s.m] && s.m != "Add" && s.m != "As") {
			r = append(r, s)
		}
	}
	return r
}

var growingMemo []consumer

func growing() []consumer {
	if growingMemo == nil {
		for _, k := range consumers {
			if len(repeatable(k.result())) > 0 {
				growingMemo = append(growingMemo, k)
			}
		}
	}
	return growingMemo
}

package main

// mc gen writes sched_gen.go: the calls of the exported API as plain Go calls. The schedule explorations use them
// because reflection uses locks and pools of its own, which would order the tasks in the eyes of the race detector.

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
)

func goType(t reflect.Type) (string, bool) {
	s := strings.ReplaceAll(t.String(), "cypher.", "cy.")
	n := t
	for n.Kind() == reflect.Ptr || n.Kind() == reflect.Slice {
		n = n.Elem()
	}
	if n.Name() != "" && n.PkgPath() != "" && (n.Name()[0] < 'A' || n.Name()[0] > 'Z') {
		return "", false
	}
	return s, true
}

func genArg(t reflect.Type, k int) string {
	switch t {
	case tExpr:
		return fmt.Sprintf("g.expr(%d)", k)
	case tCond:
		return fmt.Sprintf("g.cond(%d)", k)
	case tNamed:
		return []string{"g.node()", "g.rel()"}[k%2]
	case tPattern:
		return []string{"g.node()", "g.rel()", "g.chain()", "cy.APath(g.s()).DefinedBy(g.rel())"}[k%4]
	case tRelPat:
		return []string{"g.rel()", "g.chain()"}[k%2]
	case tNode:
		return "g.node()"
	case tRel:
		return "g.rel()"
	case tChain:
		return "g.chain()"
	case tPath:
		return "cy.APath(g.s()).DefinedBy(g.rel())"
	case tSym:
		return "cy.ASymbolic(g.s())"
	case tAliased:
		return "cy.AliasedExpressionCreate(cy.ASymbolic(g.s()), g.s())"
	case tProp:
		return "cy.AProperty(g.s(), g.s())"
	case tMap:
		return "g.props()"
	case tSort:
		return "cy.Sort(cy.ASymbolic(g.s())).Descending()"
	case tCondC:
		return fmt.Sprintf("cy.ConditionWrap(g.cond(%d))", k)
	case tExprC:
		return fmt.Sprintf("cy.ExpressionWrap(g.expr(%d))", k)
	case tStmt:
		return "g.stmt()"
	case tParam:
		return "cy.AParam(g.s())"
	case tString, tAny:
		return "g.s()"
	case tInt:
		return "g.i()"
	case tFloat:
		return "0.5"
	case tBool:
		return fmt.Sprint(k%2 == 1)
	case tLoc:
		return "time.UTC"
	case tExprs:
		return "[]cy.Expression{cy.EntryExpressionCreate(g.s(), cy.ASymbolic(g.s()))}"
	}
	panic("no argument of type " + t.String())
}

func genArgs(name string, t reflect.Type, v int) string {
	var r []string
	n := t.NumIn()
	for i := 0; i < n; i++ {
		if t.IsVariadic() && i == n-1 {
			e := t.In(i).Elem()
			m := 1 + 2*v
			switch name {
			case "MapOf", "WithRawProperties", "PropertiesRaw":
				for j := 0; j < m; j++ {
					r = append(r, "g.s()", "g.expr(0)")
				}
				continue
			case "Project", "And":
				if e == tAny {
					for j := 0; j < m; j++ {
						r = append(r, "g.s()")
						if j%2 == 1 {
							r = append(r, "g.expr(0)")
						}
					}
					continue
				}
			case "Set":
				for j := 0; j < m; j++ {
					r = append(r, "cy.AProperty(g.s(), g.s())", fmt.Sprintf("g.expr(%d)", 2*j))
				}
				continue
			case "Union", "UnionAll":
				m++
			case "RelationshipTo", "RelationshipFrom", "RelationshipBetween":
				m = 1 + v
			}
			for j := 0; j < m; j++ {
				r = append(r, genArg(e, j))
			}
			continue
		}
		k := v
		if v > 0 {
			k = v + i
		}
		r = append(r, genArg(t.In(i), k))
	}
	return strings.Join(r, ", ")
}

func stepKey(t reflect.Type, s apiStep) string { return fmt.Sprintf("%s.%s/%d", t, s.m, s.v) }

// generateReps writes the programs of typeReps and the methods that can be called on their values.
func generateReps(path string) {
	everyMethod = true
	stepCache = map[reflect.Type][]apiStep{}
	typeReps = bestReps()
	var b strings.Builder
	b.WriteString("package main\n\n// written by mc gen\n\nvar genReps = []repKey{\n")
	methods := map[string]bool{}
	for _, p := range typeReps {
		fmt.Fprintf(&b, "\t{%q, %d, []apiStep{", apiFns[p.f].name, p.v)
		for i, s := range p.steps {
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(&b, "{%q, %d}", s.m, s.v)
		}
		b.WriteString("}},\n")
		for _, s := range p.next() {
			methods[p.typ().String()+"."+s.m] = true
		}
	}
	b.WriteString("}\n\nvar genMethods = map[string]bool{\n")
	var ms []string
	for m := range methods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		fmt.Fprintf(&b, "\t%q: true,\n", m)
	}
	b.WriteString("}\n")
	os.WriteFile(path, []byte(b.String()), 0644)
	fmt.Println(len(typeReps), "programs,", len(ms), "methods")
}

func generate(path string) {
	var b strings.Builder
	b.WriteString("//go:build sched\n\npackage main\n\n// written by mc gen\n\nimport (\n\t\"time\"\n\n\tcy \"github.com/manhcuongbk56/cypher-go-dsl\"\n)\n\nvar _ = time.UTC\n\nvar genStart = map[string]func(g *G) interface{}{\n")
	for _, f := range apiFns {
		for v := 0; v < shapes(f.v.Type()); v++ {
			name := f.name
			fmt.Fprintf(&b, "\t%q: func(g *G) interface{} { return cy.%s(%s) },\n", fmt.Sprintf("%s/%d", name, v), fnGoName(name), genArgs(name, f.v.Type(), v))
		}
	}
	b.WriteString("}\n\nvar genStep = map[string]func(g *G, x interface{}) interface{}{\n")
	var lines []string
	skipped := 0
	for _, p := range typeReps {
		t := p.typ()
		tn, ok := goType(t)
		for _, s := range apiSteps(t) {
			if !ok {
				skipped++
				continue
			}
			m, _ := t.MethodByName(s.m)
			lines = append(lines, fmt.Sprintf("\t%q: func(g *G, x interface{}) interface{} { return x.(%s).%s(%s) },\n", stepKey(t, s), tn, s.m, genArgs(s.m, methodType(t, m), s.v)))
		}
	}
	sort.Strings(lines)
	b.WriteString(strings.Join(lines, ""))
	b.WriteString("}\n")
	os.WriteFile(path, []byte(b.String()), 0644)
	fmt.Println(len(lines), "calls,", skipped, "skipped")
}

func fnGoName(name string) string { return name }

// instr writes an overlay in which the library calls a hook at the start of every function and before every statement,
// and in which its locks are cooperative. Nothing in the library's own files is changed.
//
//	instr <library dir> <output dir>
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const hook = `package cypher

// MCPoint is called at every point of the library at which the scheduler can switch: 0 at the start of a function,
// 1 before a statement.
var MCPoint func(kind int)

//go:norace
func mcF() {
	if MCPoint != nil {
		MCPoint(0)
	}
}

//go:norace
func mcS() {
	if MCPoint != nil {
		MCPoint(1)
	}
}
`

// the stand-in for package sync: locks that hand over instead of blocking
const shim = `//go:build go1.21

package sync

import (
	real "sync"
	"runtime"
)

// Blocked is called while a lock can not be had; nil outside of controlled executions.
var Blocked func()

func wait() {
	if Blocked != nil {
		Blocked()
		return
	}
	runtime.Gosched()
}

type Mutex struct{ m real.Mutex }

func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		wait()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m real.RWMutex }

func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		wait()
	}
}
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		wait()
	}
}
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var r T
	var s U
	return func() (T, U) {
		o.Do(func() { r, s = f() })
		return r, s
	}
}

type (
	Locker    = real.Locker
	Pool      = real.Pool
	Map       = real.Map
	Cond      = real.Cond
	WaitGroup = real.WaitGroup
)

func NewCond(l Locker) *Cond { return real.NewCond(l) }
`

func call(name string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}
}

func spread(list []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range list {
		r = append(r, call("mcS"), s)
	}
	return r
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	lib, out := os.Args[1], os.Args[2]
	check(os.MkdirAll(out, 0755))
	p, err := build.ImportDir(lib, 0)
	check(err)
	replace := map[string]string{}
	put := func(target, name, text string) {
		f := filepath.Join(out, name)
		check(os.WriteFile(f, []byte(text), 0644))
		replace[filepath.Join(lib, target)] = f
	}
	mod, err := os.ReadFile(filepath.Join(lib, "go.mod"))
	check(err)
	path := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			path = f[1]
		}
	}
	for _, name := range p.GoFiles {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, filepath.Join(lib, name), nil, 0)
		check(err)
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				im.Path.Value = fmt.Sprintf("%q", path+"/mcsync")
				if im.Name == nil {
					im.Name = ast.NewIdent("sync")
				}
				im.EndPos = 0
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// the body of these holds clauses, not statements
				var b *ast.BlockStmt
				switch y := n.(type) {
				case *ast.SwitchStmt:
					b = y.Body
				case *ast.TypeSwitchStmt:
					b = y.Body
				case *ast.SelectStmt:
					b = y.Body
				}
				for _, cl := range b.List {
					switch z := cl.(type) {
					case *ast.CaseClause:
						z.Body = spread(z.Body)
					case *ast.CommClause:
						z.Body = spread(z.Body)
					}
				}
			case *ast.BlockStmt:
				clauses := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						clauses = true
					}
				}
				if !clauses {
					x.List = spread(x.List)
				}
			}
			return true
		})
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					x.Body.List = append([]ast.Stmt{call("mcF")}, x.Body.List...)
				}
			case *ast.FuncLit:
				x.Body.List = append([]ast.Stmt{call("mcF")}, x.Body.List...)
			}
			return true
		})
		var b bytes.Buffer
		check(printer.Fprint(&b, token.NewFileSet(), f))
		put(name, name, b.String())
	}
	put("zz_mc_hook.go", "zz_mc_hook.go", strings.Replace(hook, "package cypher", "package "+p.Name, 1))
	put("mcsync/sync.go", "mcsync.go", shim)
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644))
}

package main

// Stateless exploration of nondeterministic harness programs: a harness body asks Choose for every
// decision; the driver enumerates all decision sequences depth first, re-running the body from the start for
// each (replaying the prefix), until the space is exhausted.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

type skipExec struct{}

type C struct {
	prefix  []int
	path    []int
	widths  []int
	tracing bool
	trace   []string
	fails   []string
	nontriv bool
	sig     string
	shard   int
	shards  int
	sdepth  int
	scount  *int
	smap    map[uint64]int
	checks  int
	within  int // how statements are put inside others, if at all
	states  map[uint64]struct{}
	stateN  *int
}

// Choose is a decision with n outcomes.
func (c *C) Choose(label string, n int) int {
	if n <= 0 {
		panic("choose: no outcomes for " + label)
	}
	i := len(c.path)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("replay diverged at decision %d %s: %d of %d", i, label, v, n))
		}
		if i < len(c.widths) && c.widths[i] != n {
			panic(fmt.Sprintf("replay diverged at decision %d %s: width %d, was %d", i, label, n, c.widths[i]))
		}
	}
	c.path = append(c.path, v)
	if i >= len(c.widths) {
		c.widths = append(c.widths, n)
	}
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf("%s=%d/%d", label, v, n))
	}
	if c.shards > 1 && len(c.path) == c.sdepth {
		h := fnv.New64a()
		var b [8]byte
		for _, p := range c.path {
			binary.LittleEndian.PutUint64(b[:], uint64(p))
			h.Write(b[:])
		}
		k := h.Sum64()
		if _, ok := c.smap[k]; !ok {
			c.smap[k] = *c.scount
			*c.scount++
		}
		if c.smap[k]%c.shards != c.shard {
			panic(skipExec{})
		}
	}
	return v
}

func (c *C) Bool(label string) bool { return c.Choose(label, 2) == 1 }

// Log describes a step; it costs nothing unless a violation is being traced.
func (c *C) Log(format string, args ...interface{}) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// Fail records a violation of this execution.
func (c *C) Fail(format string, args ...interface{}) {
	c.fails = append(c.fails, fmt.Sprintf(format, args...))
}

// State counts a distinct observable state (the rendered text, say).
func (c *C) State(s string) {
	if c.states == nil {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states[h.Sum64()] = struct{}{}
}

type Harness struct {
	Prop string
	Name string
	// Rule says what is enumerated.
	Rule string
	Body func(c *C)
	// depth of the decision at which work is shared out between processes
	ShardDepth int
	// only in the thorough tier
	Thorough bool
	// Serial harnesses run alone in one process.
	Serial bool
	// Bin names the build of the library the harness needs: "", sched or race.
	Bin string
}

type Violation struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Choices  []int    `json:"choices"`
	Message  string   `json:"message"`
	Sig      string   `json:"signature,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Tier     string   `json:"tier"`
}

type Result struct {
	Harness    string   `json:"harness"`
	Rule       string   `json:"rule"`
	Executions int      `json:"executions"`
	Steps      int      `json:"transitions"`
	Checks     int      `json:"comparisons"`
	States     int      `json:"distinct_observations"`
	NonTrivial int      `json:"nontrivial"`
	MaxDepth   int      `json:"max_depth"`
	Complete   bool     `json:"complete"`
	Samples    []string `json:"samples"`
	Violations []Violation
	Failing    int
	Known      map[string]int
	Hashes     []uint64 `json:"-"`
}

// known holds the signatures of the recorded findings of the property.
var known = map[string]bool{}

func runBody(h *Harness, c *C) (skipped bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skipExec); ok {
				skipped = true
				return
			}
			st := string(debug.Stack())
			lines := strings.Split(st, "\n")
			keep := ""
			for _, l := range lines {
				if strings.Contains(l, "/repo/") {
					keep += " " + strings.TrimSpace(l)
				}
			}
			if len(keep) > 600 {
				keep = keep[:600]
			}
			c.Fail("panic: %v;%s", r, keep)
		}
	}()
	h.Body(c)
	return false
}

var beat []byte
var beatHarness int

func openBeat(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return
	}
	f.Truncate(4096)
	beat, _ = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

func writeBeat(n int, path []int) {
	if beat == nil {
		return
	}
	binary.LittleEndian.PutUint64(beat[0:], uint64(n))
	l := len(path)
	if l > 500 {
		l = 500
	}
	binary.LittleEndian.PutUint64(beat[8:], uint64(l))
	binary.LittleEndian.PutUint64(beat[16:], uint64(beatHarness))
	for i := 0; i < l; i++ {
		binary.LittleEndian.PutUint32(beat[24+4*i:], uint32(path[i]))
	}
}

// explore enumerates all executions of the harness (of this shard).
func explore(h *Harness, shard, shards int, deadline time.Time, tier string, maxViol int) *Result {
	res := &Result{Harness: h.Name, Rule: h.Rule, Complete: true, Known: map[string]int{}}
	states := map[uint64]struct{}{}
	scount := 0
	smap := map[uint64]int{}
	sdepth := h.ShardDepth
	if sdepth == 0 {
		sdepth = 1
	}
	var prefix, widths []int
	seenMsg := map[string]int{}
	for {
		c := &C{prefix: prefix, widths: widths, shard: shard, shards: shards, sdepth: sdepth, scount: &scount, smap: smap, states: states}
		writeBeat(res.Executions+1, prefix)
		skipped := runBody(h, c)
		if len(c.path) < len(prefix) && len(c.fails) == 0 {
			c.Fail("replay diverged: the execution ended after %d of %d decisions", len(c.path), len(prefix))
		}
		short := !skipped && shards > 1 && len(c.path) < sdepth
		if short && shard != 0 {
			skipped = true // executions that end before the work is shared out belong to the first process
		}
		if !skipped {
			res.Executions++
			if d := len(c.path) - len(prefix) + 1; d > 0 {
				res.Steps += d
			}
			res.Checks += c.checks
			if c.nontriv {
				res.NonTrivial++
			}
			if len(c.path) > res.MaxDepth {
				res.MaxDepth = len(c.path)
			}
			if len(c.fails) > 0 && c.sig != "" && known[c.sig] {
				res.Known[c.sig]++
			} else if len(c.fails) > 0 {
				res.Failing++
				sig := c.fails[0]
				if len(sig) > 40 {
					sig = sig[:40]
				}
				seenMsg[sig]++
				if len(res.Violations) < maxViol && seenMsg[sig] <= 3+1000*len(os.Getenv("MC_ALL")) {
					choices := append([]int(nil), c.path...)
					v := Violation{Property: h.Prop, Harness: h.Name, Choices: choices, Message: c.fails[0], Sig: c.sig, Tier: tier}
					t := &C{prefix: choices, tracing: true}
					runBody(h, t)
					v.Trace = t.trace
					if len(t.fails) == 0 {
						v.Message += " (not seen again when the execution was replayed)"
					}
					res.Violations = append(res.Violations, v)
				}
			} else if res.Executions <= 2 || res.Executions == 1000 {
				t := &C{prefix: append([]int(nil), c.path...), tracing: true}
				runBody(h, t)
				res.Samples = append(res.Samples, fmt.Sprintf("%s %v: %s", h.Name, c.path, strings.Join(t.trace, "; ")))
			}
		}
		// next
		path := c.path
		w := c.widths
		i := len(path) - 1
		for i >= 0 && path[i]+1 >= w[i] {
			i--
		}
		if i < 0 {
			break
		}
		prefix = append(append(make([]int, 0, i+8), path[:i]...), path[i]+1)
		widths = append([]int(nil), w[:i+1]...)
		if res.Executions&255 == 0 && time.Now().After(deadline) {
			res.Complete = false
			break
		}
	}
	res.States = len(states)
	for k := range states {
		res.Hashes = append(res.Hashes, k)
	}
	return res
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	setTier(v.Tier)
	for _, h := range allHarnesses() {
		if h.Name == v.Harness {
			c := &C{prefix: v.Choices, tracing: true}
			runBody(h, c)
			for _, t := range c.trace {
				fmt.Println("  ", t)
			}
			if len(c.fails) > 0 {
				fmt.Println("REPRODUCED:", c.fails[0])
				return 1
			}
			fmt.Println("not reproduced")
			return 0
		}
	}
	fmt.Println("no harness", v.Harness)
	return 2
}

func writeReplay(dir string, n int, v Violation) string {
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Property, n))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

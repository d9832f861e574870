package main

// mc run <property>      explores everything that decides the property (tier from VERIF_TIER)
// mc replay <file>       re-executes a recorded violation
// mc list                lists the explorations

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var tier = "quick"

func setTier(t string) { tier = t }

func thorough() bool { return tier == "thorough" }

// dep gives the bound of the tier.
func dep(quick, thoroughBound int) int {
	if world.mode != unique {
		if thorough() {
			return quick
		}
		if quick <= depCut {
			return 1
		}
		return quick - depCut
	}
	if thorough() {
		return thoroughBound
	}
	return quick
}

func harnessesOf(prop, bin string) []*Harness {
	var r []*Harness
	only := os.Getenv("MC_ONLY")
	for _, h := range allHarnesses() {
		if h.Prop == prop && (!h.Thorough || thorough()) && (only == "" || h.Name == only) && (bin == "*" || h.Bin == bin) {
			r = append(r, h)
		}
	}
	return r
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(prop string) map[string]string {
	r := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		pre := "finding: property=" + prop + " history="
		if strings.HasPrefix(l, pre) {
			rest := l[len(pre):]
			i := strings.Index(rest, " :: ")
			if i > 0 {
				r[rest[:i]] = rest[i+4:]
			}
		}
	}
	return r
}

func main() {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: mc run|replay|list")
		os.Exit(2)
	}
	debug.SetMaxStack(128 << 20)
	if os.Args[1] != "cold" {
		consumers = consumersInit()
		nestable, stages, plains = nestableInit(), stagesInit(), plainsInit()
	}
	switch os.Args[1] {
	case "list":
		for _, h := range allHarnesses() {
			fmt.Println(h.Prop, h.Name, "--", h.Rule)
		}
	case "gen":
		generateReps(os.Args[2] + "/reps_gen.go")
		generate(os.Args[2] + "/sched_gen.go")
	case "cold":
		os.Exit(coldMain(os.Args[2:]))
	case "solo":
		i, _ := strconv.Atoi(os.Args[2])
		fmt.Print(histText(histMemo()[i]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "run":
		os.Exit(run(os.Args[2]))
	default:
		os.Exit(2)
	}
}

func worker(args []string) {
	prop := args[0]
	shard, _ := strconv.Atoi(args[1])
	shards, _ := strconv.Atoi(args[2])
	out, beatPath := args[3], args[4]
	dl, _ := strconv.ParseInt(args[5], 10, 64)
	deadline := time.Unix(dl, 0)
	if !raceBuild {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	}
	openBeat(beatPath)
	for k := range loadKnown(prop) {
		known[k] = true
	}
	enc, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if pp := os.Getenv("MC_PROF"); pp != "" && shard == 0 {
		f, _ := os.Create(pp)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	hs := harnessesOf(prop, args[6])
	for i, h := range hs {
		beatHarness = i
		n := shards
		if h.Serial {
			n = 1
			if i%shards != shard {
				continue
			}
		}
		sh := shard
		if h.Serial {
			sh = 0
		}
		res := explore(h, sh, n, deadline, tier, 10+1000*len(os.Getenv("MC_ALL")))
		b, _ := json.Marshal(res)
		hb := make([]byte, 8*len(res.Hashes))
		for k, x := range res.Hashes {
			binary.LittleEndian.PutUint64(hb[8*k:], x)
		}
		os.WriteFile(fmt.Sprintf("%s.h%d", out, i), hb, 0644)
		enc.Write(append(b, '\n'))
	}
	enc.Close()
	pprof.StopCPUProfile()
	os.Exit(0)
}

func run(prop string) int {
	start := time.Now()
	hs := harnessesOf(prop, "*")
	if len(hs) == 0 {
		fmt.Println("no check for", prop)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	limit := 600 * time.Second
	if thorough() {
		limit = 4 * time.Hour
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	deadline := start.Add(limit)
	dir, err := os.MkdirTemp(filepath.Join(verifDir(), ".build"), "run-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	sum := map[string]*Result{}
	hashes := map[string]map[uint64]struct{}{}
	var order []string
	var viols []Violation
	knownHit := map[string]int{}
	internal := ""
	died := false
	for _, bin := range []string{"", "race", "sched"} {
		hs := harnessesOf(prop, bin)
		if len(hs) == 0 {
			continue
		}
		self, _ := os.Executable()
		if bin != "" {
			self = filepath.Join(verifDir(), ".build", "mc"+bin)
		}
		dir := filepath.Join(dir, "w"+bin)
		os.MkdirAll(dir, 0755)
		shards := 8
		type dead struct {
			shard int
			why   string
			h     int
			path  []int
			out   string
		}
		var mu sync.Mutex
		var deaths []dead
		var wg sync.WaitGroup
		for s := 0; s < shards; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				bp := filepath.Join(dir, fmt.Sprintf("beat%d", s))
				cmd := exec.Command(self, "worker", prop, fmt.Sprint(s), fmt.Sprint(shards), filepath.Join(dir, fmt.Sprintf("out%d", s)), bp, fmt.Sprint(deadline.Unix()), bin)
				cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
				// the shards are the parallelism
				if os.Getenv("GOMAXPROCS") == "" {
					cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
				}
				if os.Getenv("GOGC") == "" {
					cmd.Env = append(cmd.Env, "GOGC=800")
				}
				eo, _ := os.Create(filepath.Join(dir, fmt.Sprintf("err%d", s)))
				cmd.Stderr, cmd.Stdout = eo, eo
				if err := cmd.Start(); err != nil {
					mu.Lock()
					deaths = append(deaths, dead{shard: s, why: "can not start: " + err.Error(), h: -1})
					mu.Unlock()
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				lastN, lastH, since := uint64(0), uint64(0), time.Now()
				why := ""
				for {
					select {
					case err := <-done:
						if err != nil && why == "" {
							why = "the process died: " + err.Error()
						}
						goto over
					case <-time.After(500 * time.Millisecond):
						b, err := os.ReadFile(bp)
						if err == nil && len(b) >= 24 {
							n, h := binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[16:])
							if n != lastN || h != lastH {
								lastN, lastH, since = n, h, time.Now()
							}
						}
						if time.Since(since) > 90*time.Second && why == "" {
							why = "a call does not return"
							cmd.Process.Kill()
						}
					}
				}
			over:
				if why != "" {
					d := dead{shard: s, why: why, h: -1}
					b, err := os.ReadFile(bp)
					if err == nil && len(b) >= 24 {
						d.h = int(binary.LittleEndian.Uint64(b[16:]))
						l := int(binary.LittleEndian.Uint64(b[8:]))
						for i := 0; i < l && 28+4*i <= len(b); i++ {
							d.path = append(d.path, int(binary.LittleEndian.Uint32(b[24+4*i:])))
						}
					}
					eb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("err%d", s)))
					if len(eb) > 4000 {
						eb = eb[:4000]
					}
					d.out = string(eb)
					mu.Lock()
					deaths = append(deaths, d)
					mu.Unlock()
				}
			}(s)
		}
		wg.Wait()

		for s := 0; s < shards; s++ {
			op := filepath.Join(dir, fmt.Sprintf("out%d", s))
			b, err := os.ReadFile(op)
			if err != nil {
				continue
			}
			for _, l := range strings.Split(string(b), "\n") {
				if l == "" {
					continue
				}
				var r Result
				if json.Unmarshal([]byte(l), &r) != nil {
					continue
				}
				t := sum[r.Harness]
				if t == nil {
					t = &Result{Harness: r.Harness, Rule: r.Rule, Complete: true}
					sum[r.Harness] = t
					order = append(order, r.Harness)
					hashes[r.Harness] = map[uint64]struct{}{}
				}
				t.Executions += r.Executions
				t.Steps += r.Steps
				t.Checks += r.Checks
				t.NonTrivial += r.NonTrivial
				t.Failing += r.Failing
				if r.MaxDepth > t.MaxDepth {
					t.MaxDepth = r.MaxDepth
				}
				t.Complete = t.Complete && r.Complete
				if len(t.Samples) < 2 {
					t.Samples = append(t.Samples, r.Samples...)
				}
				for k, n := range r.Known {
					knownHit[k] += n
				}
				viols = append(viols, r.Violations...)
			}
			for i, h := range hs {
				hb, err := os.ReadFile(fmt.Sprintf("%s.h%d", op, i))
				if err != nil || hashes[h.Name] == nil {
					continue
				}
				for k := 0; k+8 <= len(hb); k += 8 {
					hashes[h.Name][binary.LittleEndian.Uint64(hb[k:])] = struct{}{}
				}
			}
		}
		for _, d := range deaths {
			if d.h < 0 || d.h >= len(hs) {
				internal = fmt.Sprintf("worker %d: %s %s", d.shard, d.why, d.out)
				continue
			}
			viols = append(viols, Violation{Property: prop, Harness: hs[d.h].Name, Choices: d.path, Message: d.why + ": " + firstLines(d.out, 14), Tier: tier})
		}
		died = died || len(deaths) > 0
	}
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Choices) < len(viols[j].Choices) })

	tot := &Result{Complete: !died}
	allHashes := map[uint64]struct{}{}
	var samples []interface{}
	var rules []string
	var per []map[string]interface{}
	sort.Strings(order)
	for _, n := range order {
		r := sum[n]
		tot.Executions += r.Executions
		tot.Steps += r.Steps
		tot.Checks += r.Checks
		tot.Failing += r.Failing
		tot.Complete = tot.Complete && r.Complete
		for k := range hashes[n] {
			allHashes[k] = struct{}{}
		}
		for _, s := range r.Samples {
			samples = append(samples, s)
		}
		rules = append(rules, n+": "+r.Rule)
		per = append(per, map[string]interface{}{"exploration": n, "executions": r.Executions, "transitions": r.Steps, "comparisons": r.Checks, "distinct_observations": len(hashes[n]), "longest_history": r.MaxDepth, "complete": r.Complete})
		fmt.Printf("%s %s: %d executions, %d transitions, %d distinct observations, %d comparisons, longest history %d, complete=%v, failing=%d\n", prop, n, r.Executions, r.Steps, len(hashes[n]), r.Checks, r.MaxDepth, r.Complete, r.Failing)
	}
	for _, h := range hs {
		if sum[h.Name] == nil {
			tot.Complete = false
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": len(allHashes), "transitions": tot.Steps, "traces_validated_against_impl": tot.Executions,
			"comparisons": tot.Checks, "samples": samples, "rule": strings.Join(rules, " || "), "exhaustive": tot.Complete,
			"explorations": per,
		},
		"assumptions": []string{"the specification's reading of Cypher (lexer, expression grammar) in mc/lex.go and mc/parse.go"},
		"wall_s":      time.Since(start).Seconds(), "violations": len(viols),
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), eb, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	kn := loadKnown(prop)
	var ks []string
	for k := range kn {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if knownHit[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k, kn[k])
		}
	}
	if internal != "" {
		fmt.Println("internal error:", internal)
		if len(viols) == 0 {
			return 2
		}
	}
	if len(viols) == 0 {
		return 0
	}
	rdir := filepath.Join(verifDir(), "replays")
	for i, v := range viols {
		if i >= 5+1000*len(os.Getenv("MC_ALL")) {
			fmt.Printf("... and %d more failing executions\n", tot.Failing-i)
			break
		}
		p := writeReplay(rdir, i, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  %s %v: %s\n", v.Harness, v.Choices, v.Message)
		for _, t := range v.Trace {
			fmt.Println("     ", t)
		}
		if os.Getenv("MC_SIGS") != "" {
			fmt.Println("  SIG", v.Sig)
		}
	}
	return 1
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

// Command mc is the bounded exhaustive explorer behind the checks of /verif.
//
// The parent process starts N copies of itself as workers. Every worker walks
// the same deterministic enumeration of cases and executes the ones whose
// ordinal is its own modulo N, on the real code of /repo. A case that panics,
// overflows its stack, eats memory or does not finish is found by the parent
// from the ordinal the worker left behind, and confirmed by running that
// single case again.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagShard  = flag.Int("shard", -1, "worker shard (internal)")
	flagShards = flag.Int("shards", 1, "number of shards (internal)")
	flagOnly   = flag.Int64("only", -1, "execute only this case ordinal")
	flagBin    = flag.String("bin", "", "diskii binary built from /repo")
	flagWork   = flag.String("work", "", "scratch directory")
	flagOut    = flag.String("out", "", "/verif")
	flagN      = flag.Int("workers", 0, "number of workers (0: by CPU count)")
	flagStride = flag.Int("stride", 1, "execute only every n-th case (development; never exhaustive)")
	flagSecs   = flag.Int("deadline", 0, "stop exploring after this many seconds")
)

// prop is one property's exploration.
type prop struct {
	run   func(c *Ctx)
	level string
	assum []string
}

// diag is where the explorer itself complains.
var diag = os.Stderr

var props = map[string]prop{}

// msg is what a worker writes on its result pipe.
type msg struct {
	Kind    string // "viol", "done"
	Ord     int64
	Desc    string
	Section string
	What    string
	Detail  string
	Stats   *stats
}

type sectionStat struct {
	Name        string `json:"section"`
	Cases       int64  `json:"cases"`
	Transitions int64  `json:"transitions"`
	Bound       string `json:"bound,omitempty"`
}

type stats struct {
	Cases, Trans, Evals int64
	Total               int64 // ordinals enumerated (all shards)
	Complete            bool
	Sections            []*sectionStat
	Samples             []sample
	Outcomes            map[string]int64
	StateFile           string
	Known               map[string]int64
}

type sample struct {
	Ord     int64  `json:"case"`
	Section string `json:"section"`
	Desc    string `json:"what"`
	Outcome string `json:"outcome,omitempty"`
}

func main() {
	flag.Parse()
	p, ok := props[*flagProp]
	if !ok {
		fmt.Fprintf(os.Stderr, "mc: unknown property %q\n", *flagProp)
		os.Exit(3)
	}
	if *flagShard >= 0 {
		worker(p)
		return
	}
	parent(p)
}

func deadlineSeconds() int {
	if *flagSecs > 0 {
		return *flagSecs
	}
	if *flagTier == "thorough" {
		return 3600
	}
	return 420
}

// ---------------------------------------------------------------- worker

func worker(p prop) {
	debug.SetMaxStack(64 << 20)
	runtime.GOMAXPROCS(2)
	// Last line of defence against unbounded growth: 6 GB of address space
	// beyond what the runtime reserves.
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	syscall.Umask(0o022)
	res := os.NewFile(3, "results")
	cell, err := newCell(filepath.Join(*flagWork, fmt.Sprintf("cell%d", *flagShard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(3)
	}
	// What the code under test says on standard error at its debug levels is
	// not looked at.
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null
	}
	c := &Ctx{
		tier: *flagTier, shard: int64(*flagShard), shards: int64(*flagShards), only: *flagOnly,
		bin: *flagBin, work: *flagWork, cell: cell, res: res,
		states: map[uint64]struct{}{}, ord: -1,
		deadline: time.Now().Add(time.Duration(deadlineSeconds()) * time.Second),
		st:       stats{Outcomes: map[string]int64{}, Known: map[string]int64{}},
	}
	c.scratch = filepath.Join(*flagWork, fmt.Sprintf("scratch%d", *flagShard))
	if err := os.MkdirAll(c.scratch, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(3)
	}
	go c.watchdog()
	complete := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(deadlineHit); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		p.run(c)
		return true
	}()
	c.closeSection()
	c.st.Complete = complete
	c.st.Total = c.ord + 1
	sf := filepath.Join(*flagWork, fmt.Sprintf("states%d", *flagShard))
	c.st.StateFile = sf
	f, err := os.Create(sf)
	if err == nil {
		w := bufio.NewWriter(f)
		var b [8]byte
		for h := range c.states {
			binary.LittleEndian.PutUint64(b[:], h)
			_, _ = w.Write(b[:])
		}
		_ = w.Flush()
		_ = f.Close()
	}
	c.send(msg{Kind: "done", Stats: &c.st})
	os.Exit(0)
}

// ---------------------------------------------------------------- parent

type workerResult struct {
	shard  int
	msgs   []msg
	err    error
	stderr string
	ord    int64
}

func startWorker(shard, shards int, only int64, workdir string) workerResult {
	r := workerResult{shard: shard, ord: -1}
	pr, pw, err := os.Pipe()
	if err != nil {
		r.err = err
		return r
	}
	args := []string{"-prop", *flagProp, "-tier", *flagTier, "-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards),
		"-only", strconv.FormatInt(only, 10), "-bin", *flagBin, "-work", workdir, "-deadline", strconv.Itoa(deadlineSeconds())}
	cmd := exec.Command(os.Args[0], args...)
	cmd.ExtraFiles = []*os.File{pw}
	errf, err := os.Create(filepath.Join(workdir, fmt.Sprintf("stderr%d", shard)))
	if err != nil {
		r.err = err
		return r
	}
	cmd.Stderr = errf
	cmd.Stdout = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		r.err = err
		return r
	}
	_ = pw.Close()
	// Whatever happens, a worker does not outlive its deadline by much.
	timer := time.AfterFunc(time.Duration(deadlineSeconds()+120)*time.Second, func() { _ = cmd.Process.Kill() })
	data, _ := io.ReadAll(pr)
	r.err = cmd.Wait()
	timer.Stop()
	_ = errf.Close()
	b, _ := os.ReadFile(errf.Name())
	if len(b) > 6000 {
		b = append(b[:3000:3000], b[len(b)-3000:]...)
	}
	r.stderr = string(b)
	for _, line := range strings.Split(string(data), "\n") {
		if line == "" {
			continue
		}
		var m msg
		if json.Unmarshal([]byte(line), &m) == nil {
			r.msgs = append(r.msgs, m)
		}
	}
	r.ord = readCell(filepath.Join(workdir, fmt.Sprintf("cell%d", shard)))
	return r
}

type violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Ord      int64  `json:"case"`
	Section  string `json:"section"`
	Desc     string `json:"input"`
	What     string `json:"what"`
	Detail   string `json:"detail,omitempty"`
	Reruns   int    `json:"reruns"`
	Failed   int    `json:"reruns_failing"`
	Replay   string `json:"replay_with"`
}

// violationOf extracts what one worker run found, if anything.
func violationOf(r workerResult) *violation {
	for _, m := range r.msgs {
		if m.Kind == "viol" {
			return &violation{Ord: m.Ord, Desc: m.Desc, Section: m.Section, What: m.What, Detail: m.Detail}
		}
	}
	for _, m := range r.msgs {
		if m.Kind == "done" {
			return nil
		}
	}
	if r.err == nil && len(r.msgs) == 0 {
		return nil
	}
	what := fmt.Sprintf("the process died: %v", r.err)
	return &violation{Ord: r.ord, What: "crash: " + what, Detail: r.stderr}
}

func parent(p prop) {
	start := time.Now()
	n := *flagN
	if n <= 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	results := make([]workerResult, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = startWorker(i, n**flagStride, *flagOnly, *flagWork)
		}(i)
	}
	wg.Wait()

	var viols []*violation
	broken := ""
	for _, r := range results {
		v := violationOf(r)
		if v == nil {
			continue
		}
		var ee *exec.ExitError
		if v.Ord < 0 || errors.As(r.err, &ee) && ee.ExitCode() == 3 { // 3: the harness itself could not go on
			broken = fmt.Sprintf("worker %d failed outside any case: %v\n%s", r.shard, r.err, r.stderr)
			continue
		}
		viols = append(viols, v)
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Ord < viols[j].Ord })

	var confirmed *violation
	for _, v := range viols {
		v.Property, v.Tier = *flagProp, *flagTier
		soft := strings.HasPrefix(v.What, "crash:") || strings.HasPrefix(v.What, "hang:") || strings.HasPrefix(v.What, "growth:")
		reruns := 5
		if strings.HasPrefix(v.What, "hang:") {
			reruns = 2
		}
		for i := 0; i < reruns; i++ {
			dir := filepath.Join(*flagWork, fmt.Sprintf("rerun-%d-%d", v.Ord, i))
			if err := os.MkdirAll(dir, 0o755); err != nil {
				broken = err.Error()
				break
			}
			r := startWorker(0, 1, v.Ord, dir)
			v.Reruns++
			if v2 := violationOf(r); v2 != nil && v2.Ord == v.Ord {
				v.Failed++
				if v.Desc == "" {
					v.Desc, v.Section = v2.Desc, v2.Section
				}
				if v.Detail == "" {
					v.Detail = v2.Detail
				}
			}
			_ = os.RemoveAll(dir)
		}
		if v.Desc == "" {
			v.Desc = describeCell(*flagWork, v.Ord)
		}
		if soft && v.Failed == 0 {
			// A crash or timeout that never repeats on its own case is a
			// fault of this run (memory, load), not of the code.
			fmt.Printf("note: case %d: %s did not repeat in %d reruns; ignored\n", v.Ord, v.What, v.Reruns)
			continue
		}
		confirmed = v
		break
	}

	ev := evidence(p, results, n, time.Since(start), confirmed)
	if err := writeJSON(filepath.Join(*flagOut, "evidence", *flagProp+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(3)
	}
	if confirmed != nil {
		dir := filepath.Join(*flagOut, "replay")
		path := filepath.Join(dir, *flagProp+".json")
		confirmed.Replay = fmt.Sprintf("bash /verif/run.sh %s %s -only %d", *flagProp, *flagTier, confirmed.Ord)
		if err := os.MkdirAll(dir, 0o755); err == nil {
			_ = writeJSON(path, confirmed)
		}
		fmt.Printf("%s: case %d [%s] %s\n  %s\n", *flagProp, confirmed.Ord, confirmed.Section, confirmed.Desc, confirmed.What)
		if confirmed.Detail != "" {
			fmt.Printf("  %s\n", firstLines(confirmed.Detail, 12))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, path)
		os.Exit(1)
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "mc: "+broken)
		os.Exit(3)
	}
	cov := ev["coverage"].(map[string]any)
	fmt.Printf("%s %s: held; states=%v transitions=%v traces=%v exhaustive=%v in %.1fs\n", *flagProp, *flagTier,
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], time.Since(start).Seconds())
	os.Exit(0)
}

func firstLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n  ")
}

func evidence(p prop, results []workerResult, n int, wall time.Duration, v *violation) map[string]any {
	var cases, trans, evals, total int64
	complete := v == nil
	secs := map[string]*sectionStat{}
	var order []string
	var samples []sample
	outcomes := map[string]int64{}
	all := map[uint64]struct{}{}
	for _, r := range results {
		done := false
		for _, m := range r.msgs {
			if m.Kind != "done" {
				continue
			}
			done = true
			s := m.Stats
			cases += s.Cases
			trans += s.Trans
			evals += s.Evals
			if s.Total > total {
				total = s.Total
			}
			if !s.Complete {
				complete = false
			}
			for _, sec := range s.Sections {
				t := secs[sec.Name]
				if t == nil {
					t = &sectionStat{Name: sec.Name, Bound: sec.Bound}
					secs[sec.Name] = t
					order = append(order, sec.Name)
				}
				t.Cases += sec.Cases
				t.Transitions += sec.Transitions
			}
			samples = append(samples, s.Samples...)
			for k, c := range s.Outcomes {
				outcomes[k] += c
			}
			if b, err := os.ReadFile(s.StateFile); err == nil {
				for i := 0; i+8 <= len(b); i += 8 {
					all[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
				}
			}
		}
		if !done {
			complete = false
		}
	}
	sort.Slice(samples, func(i, j int) bool { return samples[i].Ord < samples[j].Ord })
	if len(samples) > 24 {
		var few []sample
		for i := 0; i < 24; i++ {
			few = append(few, samples[i*len(samples)/24])
		}
		samples = few
	}
	if samples == nil {
		samples = []sample{}
	}
	var seclist []*sectionStat
	for _, k := range order {
		seclist = append(seclist, secs[k])
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nviol := 0
	if v != nil {
		nviol = 1
	}
	cov := map[string]any{
		"states":                        len(all),
		"transitions":                   trans,
		"traces_validated_against_impl": cases,
		"samples":                       samples,
		"exhaustive":                    complete && *flagStride == 1,
		"cases_enumerated":              total,
		"workers":                       n,
		"sections":                      seclist,
		"outcomes":                      outcomes,
		"rule":                          "a state is a distinct input, image or operator state by hash; a transition is one call into the code of /repo; a trace is one complete enumerated execution compared with the reference model",
	}
	if p.level == "fault_enumeration" {
		cov["evaluations"] = cases
		cov["distinct_nontrivial"] = len(all)
		cov["rule"] = "one execution per (command, fault kind, fault position); non-trivial when its (command, fault, outcome) triple is distinct"
	}
	return map[string]any{
		"property": *flagProp, "tier": *flagTier, "seed": seed, "level": p.level,
		"coverage": cov, "assumptions": p.assum, "wall_s": wall.Seconds(), "violations": nviol,
	}
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"
)

// Limits of one case. They only decide what counts as "does not finish": a
// case takes milliseconds, and its CPU time, not wall time, is measured.
const (
	cpuLimit  = 20 * time.Second
	heapLimit = 1500 << 20
	wallLimit = 150 * time.Second // for calls that wait without computing
)

type deadlineHit struct{}

// Ctx enumerates the cases of one property in one worker.
type Ctx struct {
	tier          string
	shard, shards int64
	only          int64
	bin           string
	work          string
	scratch       string
	cell          []byte
	res           *os.File
	ord           int64
	section       *sectionStat
	states        map[uint64]struct{}
	st            stats
	deadline      time.Time
	beat          atomic.Int64
	inCase        atomic.Bool
	cur           atomic.Value // string: section of the running case
	sampled       map[string]int
	note          string
	cpuScale      int64
}

// debug is the debug level the case runs with, 0 for most and 1 to 3 for one
// case in eleven, by its number: no answer may depend on it.
func (t *T) debug() int {
	if d := int(uint64(t.c.ord)*0x9E3779B97F4A7C15>>59) - 28; d > 0 {
		return d
	}
	return 0
}

// Number is a fixed scrambled number of the case, to rotate through choices with.
func (t *T) Number() int { return int(uint64(t.c.ord) * 0x9E3779B97F4A7C15 >> 40) }

// T is one running case.
type T struct {
	c       *Ctx
	outcome string
}

type failure struct{ what string }

// Thorough tells whether the deep bounds are asked for.
func (c *Ctx) Thorough() bool { return c.tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func Pick[V any](c *Ctx, q, th V) V {
	if c.Thorough() {
		return th
	}
	return q
}

// Section starts a named part of the exploration; bound says what it covers.
func (c *Ctx) Section(name, bound string) {
	c.closeSection()
	c.section = &sectionStat{Name: name, Bound: bound}
	c.cur.Store(name)
	c.sampled = map[string]int{}
}

func (c *Ctx) closeSection() {
	if c.section != nil {
		c.st.Sections = append(c.st.Sections, c.section)
		c.section = nil
	}
}

// Mine reports whether the next case belongs to this worker; generators use it
// to skip building inputs of other workers' cases. It does not advance.
func (c *Ctx) Mine() bool {
	o := c.ord + 1
	if c.only >= 0 {
		return o == c.only
	}
	return o%c.shards == c.shard
}

// Skip advances past the next case without executing it.
func (c *Ctx) Skip() { c.ord++ }

// Case executes f as the next case of the enumeration if it is this worker's.
func (c *Ctx) Case(f func(t *T), format string, args ...any) {
	if !c.Mine() {
		c.ord++
		return
	}
	c.ord++
	if c.st.Cases&15 == 15 && c.only < 0 && time.Now().After(c.deadline) {
		panic(deadlineHit{})
	}
	binary.LittleEndian.PutUint64(c.cell, uint64(c.ord))
	t := &T{c: c}
	c.beat.Add(1)
	c.inCase.Store(true)
	if c.only >= 0 {
		c.note = fmt.Sprintf(format, args...)
	}
	fail := c.protect(t, f)
	c.inCase.Store(false)
	c.beat.Add(1)
	c.st.Cases++
	if c.section != nil {
		c.section.Cases++
	}
	if t.outcome != "" {
		c.st.Outcomes[t.outcome]++
	}
	if fail != nil {
		if _, ok := fail.(deadlineHit); ok {
			panic(deadlineHit{})
		}
		what := fmt.Sprintf("%v", fail)
		detail := ""
		switch v := fail.(type) {
		case failure:
			what = v.what
		case crash:
			what = "panic: " + v.what
			detail = v.stack
		}
		name := ""
		if c.section != nil {
			name = c.section.Name
		}
		c.send(msg{Kind: "viol", Ord: c.ord, Section: name, Desc: fmt.Sprintf(format, args...), What: what, Detail: detail})
		os.Exit(1)
	}
	if c.section != nil && c.only < 0 {
		if k := c.sampled[t.outcome]; k < 1 {
			c.sampled[t.outcome] = k + 1
			d := fmt.Sprintf(format, args...)
			if len(d) > 300 {
				d = d[:300] + "…"
			}
			c.st.Samples = append(c.st.Samples, sample{Ord: c.ord, Section: c.section.Name, Desc: d, Outcome: t.outcome})
		}
	}
}

type crash struct{ what, stack string }

func (c *Ctx) protect(t *T, f func(t *T)) (fail any) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, deadlineHit:
				fail = r
			default:
				fail = crash{what: fmt.Sprint(r), stack: string(debug.Stack())}
			}
		}
	}()
	f(t)
	return nil
}

// Fail ends the case: the code under test broke the property.
func (t *T) Fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Step counts one call into the code under test and tells the watchdog that
// the case is alive.
func (t *T) Step() {
	t.c.st.Trans++
	if t.c.section != nil {
		t.c.section.Transitions++
	}
	t.c.beat.Add(1)
}

// Steps counts n calls.
func (t *T) Steps(n int) {
	t.c.st.Trans += int64(n)
	if t.c.section != nil {
		t.c.section.Transitions += int64(n)
	}
	t.c.beat.Add(1)
}

// State records a distinct state.
func (t *T) State(h uint64) bool {
	if _, ok := t.c.states[h]; ok {
		return false
	}
	t.c.states[h] = struct{}{}
	return true
}

// Outcome labels how the case went (for the evidence).
func (t *T) Outcome(format string, args ...any) {
	if len(args) == 0 {
		t.outcome = format
		return
	}
	t.outcome = fmt.Sprintf(format, args...)
}

// Over tells whether the worker's time is up.
func (t *T) Over() bool { return t.c.only < 0 && time.Now().After(t.c.deadline) }

// Stop ends the exploration: time is up.
func (t *T) Stop() { panic(deadlineHit{}) }

func (c *Ctx) send(m msg) {
	b, _ := json.Marshal(m)
	_, _ = c.res.Write(append(b, '\n'))
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends a case that uses far more CPU time or memory between two steps
// than any bounded execution of the code could.
func (c *Ctx) watchdog() {
	last, since, wall := c.beat.Load(), cpuTime(), time.Now()
	for i := 0; ; i++ {
		time.Sleep(40 * time.Millisecond)
		if b := c.beat.Load(); b != last {
			last, since, wall = b, cpuTime(), time.Now()
		}
		if !c.inCase.Load() {
			wall = time.Now()
			continue
		}
		what := ""
		if cpuTime()-since > cpuLimit {
			what = fmt.Sprintf("hang: no result after %v of CPU time in one call", cpuLimit)
		}
		if time.Since(wall) > wallLimit {
			what = fmt.Sprintf("hang: no result after %v in one call", wallLimit)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			what = fmt.Sprintf("growth: heap grew to %d MB in one case", ms.HeapAlloc>>20)
		}
		if what == "" || !c.inCase.Load() {
			continue
		}
		sec, _ := c.cur.Load().(string)
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.send(msg{Kind: "viol", Ord: int64(binary.LittleEndian.Uint64(c.cell)), Section: sec, Desc: c.note, What: what, Detail: string(buf)})
		os.Exit(1)
	}
}

// ---- the ordinal a worker leaves behind when it dies

func newCell(path string) ([]byte, error) {
	f, err := os.Create(path)
	if err != nil {
		return nil, err
	}
	if err := f.Truncate(8); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	binary.LittleEndian.PutUint64(m, ^uint64(0))
	return m, nil
}

func readCell(path string) int64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b))
}

func describeCell(work string, ord int64) string {
	return fmt.Sprintf("case %d (re-run it with -only %d; scratch %s)", ord, ord, filepath.Base(work))
}

// ---- hashing

// hashBytes is a fast 64-bit hash, the same in every process.
func hashBytes(h uint64, b []byte) uint64 {
	const m1, m2 = 0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F
	h ^= uint64(len(b)) * m1
	for len(b) >= 8 {
		h ^= binary.LittleEndian.Uint64(b) * m2
		h = (h<<27 | h>>37) * m1
		b = b[8:]
	}
	for _, x := range b {
		h ^= uint64(x) * m2
		h = (h<<11 | h>>53) * m1
	}
	h ^= h >> 32
	h *= m2
	h ^= h >> 29
	return h
}

func hashString(h uint64, s string) uint64 { return hashBytes(h, []byte(s)) }
func hashInt(h uint64, n int) uint64 {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(n))
	return hashBytes(h, b[:])
}

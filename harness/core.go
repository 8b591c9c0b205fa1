package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
)

var (
	defBlockSizeLimit = h.BlockSizeLimit
	defLinksPerBlock  = h.DefaultLinksPerBlock
	defShardWidth     = uio.DefaultShardWidth
	defShardingSize   = uio.HAMTShardingSize
)

// resetGlobals restores the library's package variables a case may set.
// Not instrumented: a goroutine that an earlier case left to end by itself may
// have read them without synchronisation.
//
//go:norace
func resetGlobals() {
	h.BlockSizeLimit = defBlockSizeLimit
	h.DefaultLinksPerBlock = defLinksPerBlock
	uio.DefaultShardWidth = defShardWidth
	uio.HAMTShardingSize = defShardingSize
}

//go:norace
func setGlobals(linksPerBlock, shardWidth, shardingSize int) {
	h.DefaultLinksPerBlock = linksPerBlock
	uio.DefaultShardWidth = shardWidth
	uio.HAMTShardingSize = shardingSize
}

//go:norace
func setLinksPerBlock(n int) { h.DefaultLinksPerBlock = n }

//go:norace
func setShardWidth(n int) { uio.DefaultShardWidth = n }

//go:norace
func setShardingSize(n int) { uio.HAMTShardingSize = n }

//go:norace
func setBlockSizeLimit(n int) { h.BlockSizeLimit = n }

// Prop is one property's check: a generator of cases plus the monitors that
// judge each case's execution.
type Prop struct {
	ID          string
	Level       string // evidence level
	Rule        string // how cases are made and what makes one non-trivial
	Race        bool   // run under the race detector
	Leak        bool   // goroutine-leak monitor after every case
	Quick       int    // cases, quick tier
	Thorough    int    // cases, thorough tier
	Procs       int    // GOMAXPROCS of a worker (default 2)
	Assumptions []string
	Required    []string // counters that must be non-zero, otherwise inconclusive
	Run         func(c *Case)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.Procs == 0 {
		p.Procs = 2
	}
	props[p.ID] = p
}

// Rng is the deterministic random source of one case.
type Rng struct{ *rand.Rand }

func newRng(seed uint64) *Rng { return &Rng{rand.New(rand.NewSource(int64(seed)))} }

func (r *Rng) Chance(p float64) bool { return r.Float64() < p }
func (r *Rng) Range(lo, hi int) int  { return lo + r.Intn(hi-lo+1) }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
func pick[T any](r *Rng, xs ...T) T { return xs[r.Intn(len(xs))] }

func mix(a, b uint64) uint64 {
	z := a*0x9E3779B97F4A7C15 + b + 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func hash64(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Case is one execution under observation.
type Case struct {
	P     *Prop
	Index int
	Seed  uint64
	Thor  bool
	R     *Rng
	w     *Worker
	mu    sync.Mutex
	trace []string
}

type failure struct{ sig, msg string }

// Fail reports that the property was violated. sig identifies the kind of
// failing input or call site (matched against known_findings.json).
func (c *Case) Fail(sig, format string, args ...interface{}) {
	panic(failure{sig, fmt.Sprintf(format, args...)})
}

// Check fails the case unless ok.
func (c *Case) Check(ok bool, sig, format string, args ...interface{}) {
	if !ok {
		c.Fail(sig, format, args...)
	}
}

// Must fails the case on a non-nil error where the property demands success.
func (c *Case) Must(err error, sig string) {
	if err != nil {
		c.Fail(sig, "unexpected error: %v", err)
	}
}

// Logf records one step of the case's history (shown in the replay file).
func (c *Case) Logf(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.trace) < 4000 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.trace = append(c.trace, s)
	}
	c.mu.Unlock()
}

// Count adds to a named observation counter of the evidence.
func (c *Case) Count(name string, n int) {
	if n == 0 {
		return
	}
	c.w.mu.Lock()
	c.w.sum.Counters[name] += int64(n)
	c.w.mu.Unlock()
}

// Max keeps the maximum of an observed quantity.
func (c *Case) Max(name string, n int) {
	c.w.mu.Lock()
	if c.w.sum.Maxes[name] < int64(n) {
		c.w.sum.Maxes[name] = int64(n)
	}
	c.w.mu.Unlock()
}

// Eval counts one evaluation; key identifies it when it was non-trivial
// (empty key: trivial).
func (c *Case) Eval(key string) {
	c.w.mu.Lock()
	c.w.sum.Evals++
	if key != "" {
		c.w.sum.Distinct[hash64(key)] = true
	}
	c.w.mu.Unlock()
}

// State records a distinct abstract state or interleaving that was observed.
func (c *Case) State(kind, key string) {
	c.w.mu.Lock()
	m := c.w.sum.States[kind]
	if m == nil {
		m = map[uint64]bool{}
		c.w.sum.States[kind] = m
	}
	if len(m) < 200000 {
		m[hash64(key)] = true
	}
	c.w.mu.Unlock()
}

// Sample keeps a written-out case for the evidence (a few per worker).
func (c *Case) Sample(s string) {
	c.w.mu.Lock()
	if len(c.w.sum.Samples) < 3 {
		if len(s) > 500 {
			s = s[:500] + "..."
		}
		c.w.sum.Samples = append(c.w.sum.Samples, fmt.Sprintf("case %d: %s", c.Index, s))
	}
	c.w.mu.Unlock()
}

type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     int      `json:"case"`
	Sig      string   `json:"sig"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
}

type Summary struct {
	Evals    int64
	Cases    int64
	Counters map[string]int64
	Maxes    map[string]int64
	Distinct map[uint64]bool
	States   map[string]map[uint64]bool
	Samples  []string
	Known    map[string]int64
	Done     bool
}

func newSummary() *Summary {
	return &Summary{Counters: map[string]int64{}, Maxes: map[string]int64{}, Distinct: map[uint64]bool{},
		States: map[string]map[uint64]bool{}, Known: map[string]int64{}}
}

type Worker struct {
	mu       sync.Mutex
	prop     *Prop
	tier     string
	seed     uint64
	idx, n   int
	dir      string
	sum      *Summary
	known    map[string]bool
	progress *os.File

	curCase  atomic.Int64 // index, -1 when idle
	curStart atomic.Int64 // CPU ns at the start of the case
	cur      *Case
	verbose  bool
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func caseSeed(seed uint64, prop string, i int) uint64 {
	return mix(mix(seed, hash64(prop)), uint64(i))
}

func (w *Worker) newCase(i int) *Case {
	s := caseSeed(w.seed, w.prop.ID, i)
	return &Case{P: w.prop, Index: i, Seed: s, Thor: w.tier == "thorough", R: newRng(s), w: w}
}

func (w *Worker) report(v *Violation) {
	b, _ := json.Marshal(v)
	f, err := os.OpenFile(fmt.Sprintf("%s/viol.%d", w.dir, w.idx), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
	if w.verbose {
		fmt.Printf("VIOLATED %s case %d [%s]\n%s\n", v.Property, v.Case, v.Sig, v.Message)
		for _, t := range v.Trace {
			fmt.Println("   ", t)
		}
	}
}

var unixfsFrame = regexp.MustCompile(`(?m)^github\.com/ipfs/go-unixfs[^\n]*`)

// topUnixfsFrame names the innermost go-unixfs function of a stack.
func topUnixfsFrame(stack string) string {
	m := unixfsFrame.FindString(stack)
	if m == "" {
		return ""
	}
	if i := strings.LastIndex(m, "("); i > 0 {
		m = m[:i]
	}
	return strings.TrimPrefix(m, "github.com/ipfs/go-unixfs")
}

// runCase executes one case; it returns the violation, if any.
func (w *Worker) runCase(c *Case) (v *Violation) {
	mk := func(sig, msg string) *Violation {
		c.mu.Lock()
		defer c.mu.Unlock()
		return &Violation{w.prop.ID, w.tier, w.seed, c.Index, sig, msg, append([]string(nil), c.trace...)}
	}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failure); ok {
				v = mk(f.sig, f.msg)
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if strings.Contains(fmt.Sprint(e), "negative Tsize") { // raised by the dag-pb encoder
				v = mk("panic:negative-tsize", fmt.Sprintf("panic: %v\n%s", e, st))
				return
			}
			v = mk("panic:"+topUnixfsFrame(st), fmt.Sprintf("panic: %v\n%s", e, st))
		}
	}()
	resetGlobals()
	w.prop.Run(c)
	if w.prop.Leak {
		if l := leakedGoroutines(); l != "" {
			v = mk("leak:"+topUnixfsFrame(l), "goroutines left behind, permanently blocked:\n"+l)
		}
	}
	return v
}

func (w *Worker) loop(cases int) int {
	go w.watchdog()
	bad := 0
	for i := w.idx; i < cases; i += w.n {
		c := w.newCase(i)
		w.mu.Lock()
		w.cur = c
		w.mu.Unlock()
		w.curStart.Store(cpuNow())
		w.curCase.Store(int64(i))
		w.progress.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		v := w.runCase(c)
		w.curCase.Store(-1)
		w.sum.Cases++
		if v != nil {
			if w.known[v.Sig] {
				w.sum.Known[v.Sig]++
				continue
			}
			w.report(v)
			bad++
			if bad >= 2 {
				break
			}
		}
	}
	w.sum.Done = true
	w.flush()
	return bad
}

func (w *Worker) flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	b, err := json.Marshal(w.sum)
	if err == nil {
		os.WriteFile(fmt.Sprintf("%s/sum.%d", w.dir, w.idx), b, 0o644)
	}
}

// goroutine dump parsing ------------------------------------------------

type gor struct {
	id, state, stack string
}

var gorHead = regexp.MustCompile(`^goroutine (\d+)(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],]+)[^\]]*\]:`)

func goroutines() []gor {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []gor
	for _, s := range strings.Split(string(buf), "\n\n") {
		m := gorHead.FindStringSubmatch(s)
		if m == nil {
			continue
		}
		out = append(out, gor{m[1], m[2], s})
	}
	return out
}

// canProgress says whether a goroutine in this state might run by itself.
func canProgress(state string) bool {
	switch {
	case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"),
		strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "sync."),
		state == "finalizer wait", state == "force gc (idle)", state == "cleanup wait":
		return false
	}
	return true
}

// leakedGoroutines waits until either no goroutine of the code under test is
// left, or those left are blocked with nothing in the process able to wake
// them (a logical condition, not a time limit), and returns their stacks.
func leakedGoroutines() string {
	stable := 0
	for {
		var leaked []string
		progress := 0
		for i, g := range goroutines() {
			if i == 0 { // self
				continue
			}
			if strings.Contains(g.stack, "main.(*Worker).watchdog") {
				continue
			}
			if canProgress(g.state) {
				progress++
			}
			if strings.Contains(g.stack, "github.com/ipfs/go-unixfs") {
				leaked = append(leaked, g.stack)
			}
		}
		if len(leaked) == 0 {
			return ""
		}
		if progress == 0 {
			stable++
			if stable >= 6 {
				if len(leaked) > 3 {
					leaked = leaked[:3]
				}
				return strings.Join(leaked, "\n\n")
			}
		} else {
			stable = 0
		}
		runtime.Gosched()
		time.Sleep(500 * time.Microsecond)
	}
}

func (w *Worker) watchdog() {
	cpuBudget := int64(40) * int64(time.Second)
	if w.prop.Race {
		cpuBudget *= 2
	}
	last, stable, startWall := "", 0, time.Now()
	lastCase := int64(-2)
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	die := func(sig, msg string) {
		w.mu.Lock()
		c := w.cur
		w.mu.Unlock()
		c.mu.Lock()
		tr := append([]string(nil), c.trace...)
		c.mu.Unlock()
		if w.known[sig] {
			w.mu.Lock()
			w.sum.Known[sig]++
			w.mu.Unlock()
		} else {
			w.report(&Violation{w.prop.ID, w.tier, w.seed, c.Index, sig, msg, tr})
		}
		w.flush()
		os.Exit(7)
	}
	dump := func() string {
		var b strings.Builder
		for i, g := range goroutines() {
			if i == 0 || !strings.Contains(g.stack, "go-unixfs") && !strings.Contains(g.stack, "main.") {
				continue
			}
			b.WriteString(g.stack + "\n\n")
			if b.Len() > 12000 {
				break
			}
		}
		return b.String()
	}
	for {
		time.Sleep(100 * time.Millisecond)
		cc := w.curCase.Load()
		if cc != lastCase {
			lastCase, stable, last, startWall = cc, 0, "", time.Now()
		}
		if cc < 0 {
			continue
		}
		metrics.Read(sample)
		if h := sample[0].Value.Uint64(); h > 2500<<20 {
			d := dump()
			die("memory:"+topUnixfsFrame(d), fmt.Sprintf("heap grew to %d MB in one case\n%s", h>>20, d))
		}
		if cpu := cpuNow() - w.curStart.Load(); cpu > cpuBudget && w.curCase.Load() == cc {
			d := dump()
			die("hang:"+topUnixfsFrame(d), fmt.Sprintf("one case used %d s of CPU time without finishing\n%s", cpu/int64(time.Second), d))
		}
		if time.Since(startWall) < 2*time.Second {
			continue
		}
		var key strings.Builder
		prog := false
		for i, g := range goroutines() {
			if i == 0 {
				continue
			}
			if canProgress(g.state) {
				prog = true
				break
			}
			key.WriteString(g.id + g.state + ";")
		}
		if prog || key.String() != last {
			stable = 0
			last = key.String()
			continue
		}
		stable++
		if stable >= 30 && w.curCase.Load() == cc {
			d := dump()
			die("deadlock:"+topUnixfsFrame(d), "deadlock: every goroutine is blocked\n"+d)
		}
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type check struct {
	run  func(*Ctx)
	race bool // use the race-instrumented worker
}

var checks = map[string]check{}

// Violation is one observed breach of the property.
type Violation struct {
	Case   string `json:"case"`
	What   string `json:"what"`
	Input  string `json:"input,omitempty"` // quoted Go string
	Detail string `json:"detail,omitempty"`
}

// Result is what a worker reports to its supervisor.
type Result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	Rule        string           `json:"rule"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Truncated   bool             `json:"truncated"`
	Exhaustive  bool             `json:"exhaustive"`
	Assumptions []string         `json:"assumptions"`
}

// Ctx drives the cases of one check and collects what its monitors saw.
type Ctx struct {
	ID       string
	Seed     int64
	Thorough bool
	Race     bool
	Scratch  string // removed by the supervisor
	Bin      string // directory with the built binaries

	evals    atomic.Int64
	progress atomic.Int64
	nviol    atomic.Int64
	stopAt   time.Time
	trunc    atomic.Bool

	mu       sync.Mutex
	shards   [64]shard
	counters map[string]*atomic.Int64
	res      Result
	out      string
	seen     int64
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

const maxViolations = 5

func newCtx(id string) *Ctx {
	c := &Ctx{ID: id, counters: map[string]*atomic.Int64{}}
	for i := range c.shards {
		c.shards[i].m = map[uint64]struct{}{}
	}
	return c
}

func hashStr(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		h.Write([]byte(s))
		h.Write([]byte{0xfe, 0xff})
	}
	return h.Sum64()
}

// Eval records an evaluated case; key identifies it, nontrivial per the rule of the check.
func (c *Ctx) Eval(key uint64, nontrivial bool) {
	c.evals.Add(1)
	c.progress.Add(1)
	if !nontrivial {
		return
	}
	s := &c.shards[key%64]
	s.mu.Lock()
	s.m[key] = struct{}{}
	s.mu.Unlock()
}

// Count adds to a named monitor counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	p := c.counters[name]
	if p == nil {
		p = new(atomic.Int64)
		c.counters[name] = p
	}
	c.mu.Unlock()
	p.Add(int64(n))
}

// Counter returns a counter for hot loops.
func (c *Ctx) Counter(name string) *atomic.Int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.counters[name]
	if p == nil {
		p = new(atomic.Int64)
		c.counters[name] = p
	}
	return p
}

// Max keeps the maximum of a named value.
func (c *Ctx) Max(name string, n int) {
	p := c.Counter(name)
	for {
		o := p.Load()
		if int64(n) <= o || p.CompareAndSwap(o, int64(n)) {
			return
		}
	}
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seen++
	if c.seen&(c.seen-1) == 0 && len(c.res.Samples) < 12 { // the 1st, 2nd, 4th, 8th ...
		c.res.Samples = append(c.res.Samples, v)
	}
}

func (c *Ctx) Rule(s string)      { c.res.Rule = s }
func (c *Ctx) Assume(s ...string) { c.res.Assumptions = append(c.res.Assumptions, s...) }
func (c *Ctx) Tick()              { c.progress.Add(1) }
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return fmt.Sprintf("%s...(%d bytes)", s[:n], len(s))
}

// Fail records a violation.
func (c *Ctx) Fail(where, what, input string, format string, a ...any) {
	v := Violation{Case: where, What: what, Input: clip(strconv.QuoteToASCII(input), 200000), Detail: clip(fmt.Sprintf(format, a...), 20000)}
	c.mu.Lock()
	defer c.mu.Unlock()
	if int(c.nviol.Add(1)) > maxViolations {
		return
	}
	c.res.Violations = append(c.res.Violations, v)
	c.writeLocked()
}

func (c *Ctx) Failed() bool { return c.nviol.Load() > 0 }

// Stop says that no further cases are needed.
func (c *Ctx) Stop() bool {
	if c.nviol.Load() >= maxViolations {
		return true
	}
	if !c.stopAt.IsZero() && time.Now().After(c.stopAt) {
		c.trunc.Store(true)
		return true
	}
	return false
}

// Guard runs f and turns a panic into a violation. It returns false if f panicked.
func (c *Ctx) Guard(where, input string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			c.Fail(where, "panic", input, "%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return true
}

// Rand returns the random source of a numbered case.
func (c *Ctx) Rand(stream string, i int) *rand.Rand {
	h := hashStr(c.ID, stream, strconv.FormatInt(c.Seed, 10), strconv.Itoa(i))
	return rand.New(rand.NewSource(int64(h & (1<<63 - 1))))
}

// Run executes n numbered cases on all cores.
func (c *Ctx) Run(stream string, n int, f func(i int, r *rand.Rand)) {
	c.RunP(stream, n, runtime.GOMAXPROCS(0), f)
}

// RunP is Run with a given number of goroutines.
func (c *Ctx) RunP(stream string, n, par int, f func(i int, r *rand.Rand)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Stop() {
					return
				}
				c.Guard(fmt.Sprintf("%s/%d", stream, i), "", func() { f(i, c.Rand(stream, i)) })
				c.Tick()
			}
		}()
	}
	wg.Wait()
}

func (c *Ctx) writeLocked() {
	r := c.res
	r.Evaluations = c.evals.Load()
	for i := range c.shards {
		c.shards[i].mu.Lock()
		r.Distinct += int64(len(c.shards[i].m))
		c.shards[i].mu.Unlock()
	}
	r.Counters = map[string]int64{}
	for k, v := range c.counters {
		r.Counters[k] = v.Load()
	}
	r.Truncated = c.trunc.Load()
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	tmp := c.out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, c.out); err != nil {
		panic(err)
	}
}

func (c *Ctx) write() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writeLocked()
}

func (c *Ctx) path(elem ...string) string {
	return filepath.Join(append([]string{c.Scratch}, elem...)...)
}

func setupError(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vh: setup error: "+format+"\n", a...)
	os.Exit(2)
}

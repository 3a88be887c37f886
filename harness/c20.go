package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
)

func init() { checks["C20"] = check{run: runC20, race: true} }

// poolMonitor follows the owner state of every pooled object and poisons objects while they are pooled.
type poolMonitor struct {
	mu     sync.Mutex
	c      *Ctx
	poison bool
	objs   map[uintptr]*pooled
	templ  map[reflect.Type]reflect.Value
	gets   map[string]int
	puts   map[string]int
	reused int
	out    int
	maxOut int
	where  string
	trace  [64]poolEvent
	ntrace int
}

type poolEvent struct {
	get bool
	t   string
	id  uintptr
}

type pooled struct {
	x     any // keeps the object, so that its address stays its own
	out   bool
	saved reflect.Value // contents while pooled
	puts  int
}

func newPoolMonitor(c *Ctx) *poolMonitor {
	return &poolMonitor{c: c, objs: map[uintptr]*pooled{}, templ: map[reflect.Type]reflect.Value{}, gets: map[string]int{}, puts: map[string]int{}}
}

// template is a value of the type whose every field is conspicuous.
func (m *poolMonitor) template(t reflect.Type) reflect.Value {
	if v, ok := m.templ[t]; ok {
		return v
	}
	p := reflect.New(t)
	fillPoison(p.Elem())
	m.templ[t] = p
	return p
}

func fillPoison(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			fillPoison(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16:
		v.SetInt(-21555)
	case reflect.Int8:
		v.SetInt(-55)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16:
		v.SetUint(21555)
	case reflect.Uint8:
		v.SetUint(155)
	case reflect.String:
		v.SetString("\x01POISON\x01")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(-21555)
	}
}

func rawBytes(p reflect.Value) []byte {
	return unsafe.Slice((*byte)(p.UnsafePointer()), int(p.Type().Elem().Size()))
}

func (m *poolMonitor) note(e poolEvent) {
	m.trace[m.ntrace%len(m.trace)] = e
	m.ntrace++
}

func (m *poolMonitor) history() string {
	var b strings.Builder
	for i := max(0, m.ntrace-len(m.trace)); i < m.ntrace; i++ {
		e := m.trace[i%len(m.trace)]
		fmt.Fprintf(&b, "%s %s %x; ", map[bool]string{true: "get", false: "put"}[e.get], e.t, e.id)
	}
	return b.String()
}

func (m *poolMonitor) observe(x any, get bool) {
	v := reflect.ValueOf(x)
	t := v.Type().String()
	m.mu.Lock()
	defer m.mu.Unlock()
	if v.IsNil() {
		m.c.Fail("pool "+m.where, "nil object", "", "get=%v of %s", get, t)
		return
	}
	id := v.Pointer()
	o := m.objs[id]
	if o == nil {
		o = &pooled{x: x}
		m.objs[id] = o
		if !get {
			o.out = true // made elsewhere
		}
	}
	if get {
		m.note(poolEvent{true, t, id})
		m.gets[t]++
		if o.out {
			m.c.Fail("pool "+m.where, "object handed out to a second owner", "", "%s %x; %s", t, id, m.history())
		}
		if o.saved.IsValid() {
			m.reused++
			if m.poison {
				if !bytes.Equal(rawBytes(v), rawBytes(m.template(v.Type().Elem()))) {
					m.c.Fail("pool "+m.where, "object was written to while it was in the pool", "", "%s %x: %+v", t, id, v.Elem())
				}
			}
			v.Elem().Set(o.saved.Elem())
			o.saved = reflect.Value{}
		}
		o.out = true
		m.out++
		if m.out > m.maxOut {
			m.maxOut = m.out
		}
		return
	}
	m.note(poolEvent{false, t, id})
	m.puts[t]++
	if !o.out {
		m.c.Fail("pool "+m.where, "object put back twice", "", "%s %x; %s", t, id, m.history())
		return
	}
	o.out = false
	m.out--
	o.puts++
	if m.poison {
		o.saved = reflect.New(v.Type().Elem())
		o.saved.Elem().Set(v.Elem())
		v.Elem().Set(m.template(v.Type().Elem()).Elem())
	}
}

// forget drops the objects (after everything has been returned).
func (m *poolMonitor) forget() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, o := range m.objs {
		if o.out { // leaked by its owner; nobody hands it out again
			delete(m.objs, k)
		}
	}
	m.out = 0
}

// ball is an object of a directly used pool.
type ball struct {
	pool  int
	owner atomic.Int64
	made  bool
	data  [4]uint64
}

func directPools(c *Ctx, r *rand.Rand, round int, c2 *poolCounters) {
	np := 1 + r.Intn(3)
	pools := make([]mem.Pool[ball], np)
	known := make([]sync.Map, np)
	var made atomic.Int64
	for i := range pools {
		i := i
		pools[i] = mem.NewPool[ball](func() *ball {
			b := &ball{pool: i, made: true, data: [4]uint64{1, 2, 3, uint64(i)}}
			known[i].Store(b, true)
			made.Add(1)
			return b
		})
	}
	where := fmt.Sprintf("direct/%d", round)
	g := []int{1, 2, 4, 8, 16, 32}[r.Intn(6)]
	n := 400
	var wg sync.WaitGroup
	for w := 1; w <= g; w++ {
		wg.Add(1)
		seed := r.Int63()
		go func(w int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					c.Fail(where, "panic", "", "%v", p)
				}
			}()
			r := rand.New(rand.NewSource(seed))
			var held []*ball
			for i := 0; i < n; i++ {
				k := r.Intn(np)
				if len(held) > 0 && r.Intn(2) == 0 {
					j := r.Intn(len(held))
					b := held[j]
					held = append(held[:j], held[j+1:]...)
					if b.data[0] != uint64(w) || b.data[1] != b.data[2] {
						c.Fail(where, "object changed while it was held", "", "%v held by %d", b.data, w)
					}
					if !b.owner.CompareAndSwap(int64(w), 0) {
						c.Fail(where, "object has two owners", "", "owner %d, put by %d", b.owner.Load(), w)
					}
					pools[b.pool].Put(b)
					c2.puts.Add(1)
					continue
				}
				if r.Intn(10) == 0 { // an object made elsewhere
					b := &ball{pool: k}
					b.owner.Store(0)
					known[k].Store(b, true)
					pools[k].Put(b)
					c2.puts.Add(1)
					continue
				}
				b := pools[k].Get()
				c2.gets.Add(1)
				if b == nil {
					c.Fail(where, "nil object", "", "")
					return
				}
				if _, ok := known[k].Load(b); !ok {
					c.Fail(where, "object neither made by the constructor nor put back", "", "pool %d object of pool %d", k, b.pool)
				}
				if !b.owner.CompareAndSwap(0, int64(w)) {
					c.Fail(where, "object handed out to a second owner", "", "held by %d, got by %d", b.owner.Load(), w)
					return
				}
				b.data = [4]uint64{uint64(w), uint64(i), uint64(i), 0}
				held = append(held, b)
				if r.Intn(50) == 0 {
					runtime.Gosched()
				}
			}
			for _, b := range held {
				if b.data[0] != uint64(w) {
					c.Fail(where, "object changed while it was held", "", "%v held by %d", b.data, w)
				}
				b.owner.Store(0)
				pools[b.pool].Put(b)
			}
		}(w)
		if r.Intn(8) == 0 {
			runtime.GC()
		}
	}
	wg.Wait()
	c2.made.Add(made.Load())
}

type poolCounters struct{ gets, puts, made atomic.Int64 }

func runC20(c *Ctx) {
	c.Rule("a case is one call (analysis or graph export, including failing and panicking writers) whose pool events (through the hook) were followed by the ownership monitor with contents poisoned while pooled, its result compared with the one computed before any poisoning; or one round of a directly used pool; race-detector build; non-trivial: the call drew on objects that had been used and given back before")
	// direct use of pools
	var pc poolCounters
	for i := 0; i < c.N(400, 6000) && !c.Stop(); i++ {
		directPools(c, c.Rand("direct", i), i, &pc)
		c.Eval(hashStr("direct", fmt.Sprint(i)), true)
	}
	c.Count("direct_pool_gets", int(pc.gets.Load()))
	c.Count("direct_pool_puts", int(pc.puts.Load()))
	c.Count("direct_pool_objects_made", int(pc.made.Load()))

	// a world of calls and their results without monitor
	seed := c.Rand("world", 0).Int63()
	cs, items := historyWorld(seed, true, c.N(10, 40), c.N(400, 3000))
	want := make([]uint64, len(items))
	for i, it := range items {
		if c.Stop() {
			return
		}
		c.Guard(fmt.Sprintf("reference %d", i), it.in, func() { want[i] = hashStr(it.eval(cs)) })
		c.Tick()
	}
	mon := newPoolMonitor(c)
	mon.poison = true
	mem.Observer = mon.observe
	defer func() { mem.Observer = nil }()
	call := func(where string, r *rand.Rand) {
		k := r.Intn(len(items))
		it := items[k]
		c.Guard(where+" conf "+cs[it.conf].name, it.in, func() {
			if got := it.eval(cs); hashStr(got) != want[k] {
				c.Fail(fmt.Sprintf("%s conf %s mode %d graph %v", where, cs[it.conf].name, it.mode, it.graph), "result differs when pooled objects are poisoned (an object is used after it was given back)", it.in, "%s", clip(got, 3000))
			}
			c.Eval(hashStr(where), true)
		})
		switch r.Intn(8) {
		case 0:
			cs[it.conf].t.AnalyzeGraph(&badWriter{n: r.Intn(10)}, it.in, modes[r.Intn(3)])
			c.Count("failing_writers", 1)
		case 1:
			func() {
				defer func() { recover() }()
				cs[it.conf].t.AnalyzeGraph(&badWriter{n: r.Intn(10), panic: true}, it.in, modes[r.Intn(3)])
			}()
			c.Count("panicking_writers", 1)
		case 2:
			cs[it.conf].o.Wakati(genDoc(r, 500+r.Intn(2000)))
		case 3: // a writer that analyses while it is written to
			var b bytes.Buffer
			cs[it.conf].t.AnalyzeGraph(writerFunc(func(p []byte) (int, error) {
				if b.Len() < 2000 {
					cs[it.conf].t.Analyze(genText(r, nil, 10), modes[r.Intn(3)])
					b.Write(p)
				}
				return len(p), nil
			}), it.in, tokenizer.Normal)
			c.Count("reentrant_writers", 1)
		}
	}
	runtime.GOMAXPROCS(1)
	for i := 0; i < c.N(1200, 20000) && !c.Stop(); i++ {
		mon.where = fmt.Sprintf("single/%d", i)
		r := c.Rand("single", i)
		c.Guard(mon.where, "", func() { call(mon.where, r) })
		if i%500 == 499 {
			mon.forget()
		}
		if r.Intn(60) == 0 {
			runtime.GC()
		}
	}
	mon.where = "concurrent"
	for _, procs := range []int{2, 8, 16} {
		runtime.GOMAXPROCS(procs)
		c.RunP(fmt.Sprintf("concurrent%d", procs), c.N(600, 15000), 12, func(i int, r *rand.Rand) {
			call(fmt.Sprintf("concurrent%d/%d", procs, i), r)
			if r.Intn(60) == 0 {
				runtime.GC()
			}
		})
		mon.forget()
	}
	mem.Observer = nil
	ng := 0
	for t, n := range mon.gets {
		c.Count("pool_gets "+t, n)
		ng += n
	}
	for t, n := range mon.puts {
		c.Count("pool_puts "+t, n)
	}
	c.Count("poisoned_objects_checked_and_reused", mon.reused)
	c.Max("most_objects_out_at_once", mon.maxOut)
	if len(items) > 0 {
		c.Sample(map[string]any{"last_pool_events": clip(mon.history(), 800), "calls": len(items)})
	}
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { checks["C25"] = check{run: runC25} }

// growCase is a kind of text that can be made in any length.
type growCase struct {
	name string
	text func(n int) string // about n characters
}

func repeatTo(s string, n int) string {
	return string([]rune(strings.Repeat(s, n/len([]rune(s))+1))[:n])
}

func growTexts(r *rand.Rand) []growCase {
	rep := func(name, s string) growCase {
		return growCase{name, func(n int) string {
			if !utf8.ValidString(s) {
				return strings.Repeat(s, n/len(s)+1)[:n]
			}
			return repeatTo(s, n)
		}}
	}
	base := corpusSlice(r, 3000) + corpusSlice(r, 3000) + "。"
	return []growCase{
		rep("prose", base), rep("katakana", "ア"), rep("hiragana", "の"), rep("ideographs", "猫"), rep("rare ideographs", "𠀋𠂉"),
		rep("digits", "1"), rep("letters", "abcdefgh"), rep("symbols", "＠"), rep("emoji", "🍣"), rep("blanks", " "), rep("full-width blanks", "　"),
		rep("line feeds", "\n"), rep("delimiters", "。"), rep("followers", "」"), rep("sentences", "猫。」 \n"), rep("broken bytes", "\xff"), rep("broken characters", "\xff猫"),
		rep("NUL", "\x00"), rep("user words", "東京都庁"), rep("mixed", "すもも1ア猫a ＠"), rep("unknown and known", "ﾊﾟㇰㇷ゚漢字"),
	}
}

// growWork is something done with a text.
type growWork struct {
	name string
	unit int // length of the short text for this work
	do   func(text string) error
}

func growWorks(cf *conf) []growWork {
	var ws []growWork
	for _, m := range modes {
		m := m
		ws = append(ws, growWork{fmt.Sprintf("analysis in mode %d", m), 2000, func(s string) error {
			if n := len(cf.t.Analyze(s, m)); n < 2 {
				return fmt.Errorf("%d tokens", n)
			}
			return nil
		}})
	}
	pf := filter.NewPOSFilter(filter.POS{"名詞"}, filter.POS{"助詞", "*"}, filter.POS{filter.Any, "一般"})
	wf := filter.NewWordFilter([]string{"の", "、", "猫"})
	jf, err := ja.NewFilter()
	if err != nil {
		setupError("%v", err)
	}
	split := func(s splitRules) func(string) error {
		return func(text string) error {
			sc := bufio.NewScanner(strings.NewReader(text))
			sc.Buffer(nil, 1<<28)
			sc.Split(s.fn())
			for sc.Scan() {
			}
			return sc.Err()
		}
	}
	open := defaultRules
	open.def, open.max = false, 1<<30
	keep := defaultRules
	keep.def, keep.skip, keep.dlf = false, false, false
	return append(ws,
		growWork{"words", 2000, func(s string) error { cf.t.Wakati(s); return nil }},
		growWork{"graph", 2000, func(s string) error { cf.t.AnalyzeGraph(io.Discard, s, tokenizer.Search); return nil }},
		growWork{"data records", 1000, func(s string) error {
			var ds []tokenizer.TokenData
			for _, t := range cf.t.Tokenize(s) {
				ds = append(ds, tokenizer.NewTokenData(t))
			}
			_, err := json.Marshal(ds)
			return err
		}},
		growWork{"filters", 1500, func(s string) error {
			ts := cf.t.Tokenize(s)
			a := append([]tokenizer.Token{}, ts...)
			pf.Drop(&a)
			wf.Keep(&ts)
			return nil
		}},
		growWork{"search filter", 1500, func(s string) error {
			ts := cf.t.Tokenize(s)
			jf.Yield(ts)
			jf.Drop(&ts)
			return nil
		}},
		growWork{"default splitter", 20000, split(defaultRules)},
		growWork{"splitter without limit", 20000, split(open)},
		growWork{"splitter keeping white space", 20000, split(keep)},
	)
}

// threadCPU is the processor time of the calling thread.
func threadCPU() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		setupError("%v", e)
	}
	return time.Duration(ts.Nano())
}

const (
	growFactor = 16  // the long text against the short one
	growSlack  = 6   // how much more than proportional is tolerated
	usualBytes = 400 // per character; a short text may get by with memory used before
)

func liveHeap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ { // pools are emptied in two cycles
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runC25(c *Ctx) {
	c.Rule(fmt.Sprintf("a case is (kind of text, work done with it): processor time of the thread and bytes allocated for a text and for one %d times as long, which may cost at most %d times as much per character; and (workload, rounds): memory in use and goroutines after many calls whose results were dropped against a moment before; non-trivial: the long text took more than a millisecond", growFactor, growSlack))
	c.Assume("the processor time of a thread is what the work on it took, up to a factor of a few")
	var recs []dict.UserDicRecord
	for k := 1; k <= 4; k++ {
		w := string([]rune("東京都庁")[:k])
		recs = append(recs, dict.UserDicRecord{Text: w, Tokens: []string{w}, Yomi: []string{"ヨミ"}, Pos: "名詞"})
	}
	plain, user := newConf("ipa", ipaDict(), nil, nil), newConf("ipa+user", ipaDict(), nil, newUserDict(recs))
	texts := growTexts(c.Rand("texts", 0))
	works := growWorks(plain)
	type pair struct {
		t growCase
		w growWork
	}
	var ps []pair
	for _, w := range works {
		for _, t := range texts {
			ps = append(ps, pair{t, w})
		}
	}
	for _, w := range growWorks(user)[:3] {
		for _, t := range texts {
			if t.name == "user words" || t.name == "prose" {
				w.name += " with a user dictionary"
				ps = append(ps, pair{t, w})
			}
		}
	}
	scale := c.N(1, 4)
	runtime.GC()
	c.RunP("time", len(ps), 8, func(i int, r *rand.Rand) {
		p := ps[i]
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		where := p.w.name + " of " + p.t.name
		measure := func(n int) (best time.Duration) {
			s := p.t.text(n)
			for k := 0; k < 3; k++ {
				t0 := threadCPU()
				if err := p.w.do(s); err != nil {
					c.Fail(where, "the work fails", s, "%v", err)
				}
				if d := threadCPU() - t0; k == 0 || d < best {
					best = d
				}
				if best > 400*time.Millisecond {
					break
				}
			}
			return best
		}
		n := p.w.unit * scale
		var short, long time.Duration
		var ratio float64
		for k := 0; k < 3; k++ { // other work on the machine may disturb it
			short, long = measure(n), measure(n*growFactor)
			ratio = float64(long) / float64(max(short, 200*time.Microsecond))
			if ratio <= growFactor*growSlack/2 || c.Failed() {
				break
			}
		}
		c.Eval(hashStr("time", where), long > time.Millisecond)
		if long > 200*time.Millisecond {
			c.Max("largest growth of time per character, in percent", int(100*ratio/growFactor))
		}
		if ratio > growFactor*growSlack && long > 200*time.Millisecond {
			c.Fail(where, "time grows faster than the text", p.t.text(20), "%d characters take %v, %d take %v", n, short, n*growFactor, long)
		}
		c.Sample(map[string]any{"work": where, "characters": n * growFactor, "ms": long.Milliseconds(), "per-character growth": ratio / growFactor})
	})
	few := ps[:0:0]
	for _, p := range ps {
		switch p.t.name {
		case "prose", "letters", "ideographs", "hiragana", "user words", "blanks", "sentences", "broken characters":
			few = append(few, p)
		}
	}
	if c.Thorough {
		few = ps
	}
	c.RunP("bytes", len(few), 1, func(i int, r *rand.Rand) {
		p := few[i]
		where := p.w.name + " of " + p.t.name
		measure := func(n int) int64 {
			s := p.t.text(n)
			best := int64(0)
			for k := 0; k < 2; k++ {
				var a, b runtime.MemStats
				runtime.ReadMemStats(&a)
				if err := p.w.do(s); err != nil {
					c.Fail(where, "the work fails", s, "%v", err)
				}
				runtime.ReadMemStats(&b)
				if d := int64(b.TotalAlloc - a.TotalAlloc); k == 0 || d < best {
					best = d
				}
			}
			return best
		}
		n := p.w.unit / 2 * scale
		short := measure(n)
		long := measure(n * growFactor)
		ratio := float64(long) / float64(max(short, int64(n)*usualBytes))
		c.Eval(hashStr("bytes", where), long > 1<<16)
		c.Max("largest growth of allocated bytes per character, in percent", int(100*ratio/growFactor))
		if ratio > growFactor*growSlack && long > 1<<22 {
			c.Fail(where, "memory grows faster than the text", p.t.text(20), "%d characters take %d bytes, %d take %d", n, short, n*growFactor, long)
		}
	})
	// what is left behind
	churn := func(name string, rounds, calls int, limit int64, f func(r *rand.Rand)) {
		if c.Failed() {
			return
		}
		one := func(k int) { c.RunP(fmt.Sprint(name, k), calls, 4, func(i int, r *rand.Rand) { f(r) }) }
		one(0) // whatever is made once
		before, routines := liveHeap(), runtime.NumGoroutine()
		least := int64(1 << 62)
		for k := 1; k <= rounds; k++ {
			one(k)
			least = min(least, liveHeap()-before)
			c.Tick()
		}
		grown := liveHeap() - before
		c.Max("bytes left behind by "+name, int(max(grown, 0)))
		c.Eval(hashStr("left", name), true)
		if grown > limit && least*2 < grown {
			c.Fail(name, "memory is left behind", "", "%d bytes more in use after %d further calls", grown, rounds*calls)
		} else if grown > 4*limit {
			c.Fail(name, "memory is left behind", "", "%d bytes more in use after %d further calls", grown, rounds*calls)
		}
		if n := runtime.NumGoroutine(); n > routines+8 {
			c.Fail(name, "goroutines are left behind", "", "%d before, %d after", routines, n)
		}
	}
	all := append(append([]growWork{}, works...), growWorks(user)[:3]...)
	var same []string
	for k := 0; k < 40; k++ {
		same = append(same, genText(c.Rand("same", k), nil, 60))
	}
	churn("calls on the same texts", 4, c.N(20000, 100000), 1<<20, func(r *rand.Rand) {
		all[r.Intn(len(all))].do(pick(r, same))
	})
	churn("calls on ever new texts", 4, c.N(6000, 60000), 8<<20, func(r *rand.Rand) {
		all[r.Intn(len(all))].do(corpusSlice(r, 400) + genText(r, nil, 400))
	})
	churn("tokenizers and dictionaries", 4, c.N(300, 1500), 4<<20, func(r *rand.Rand) {
		in := genText(r, nil, 60)
		s := genSynth(r)
		cf := newConf("", s.D, s, genUserDict(r, []string{in, s.text(r)}))
		cf.t.Tokenize(s.text(r))
		cf = newConf("", ipaDict(), nil, genUserDict(r, []string{in}))
		cf.t.AnalyzeGraph(io.Discard, in, tokenizer.Search)
		f, err := ja.NewFilter()
		if err != nil {
			setupError("%v", err)
		}
		f.Yield(cf.t.Tokenize(in))
		filter.NewFeaturesFilter(filter.Features{in}).Match([]string{in})
	})
	churn("failing and panicking writers", 4, c.N(3000, 30000), 1<<20, func(r *rand.Rand) {
		defer func() { recover() }()
		plain.t.AnalyzeGraph(&breaking{left: r.Intn(3000), panics: r.Intn(2) == 0}, pick(r, same), modes[r.Intn(3)])
	})
	if !c.Failed() {
		serverLeak(c)
	}
}

// breaking is a writer that fails after so many bytes.
type breaking struct {
	left   int
	panics bool
}

func (b *breaking) Write(p []byte) (int, error) {
	if b.left -= len(p); b.left < 0 {
		if b.panics {
			panic("broken writer")
		}
		return 0, io.ErrShortWrite
	}
	return len(p), nil
}

var gcLine = regexp.MustCompile(`(?m)^gc \d+ @.* \d+->\d+->(\d+) MB`)

// serverLeak watches a server process over rounds of requests with ever new sentences.
func serverLeak(c *Ctx) {
	dir := c.path("bin")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		setupError("%v", err)
	}
	dot := "#!/bin/sh\ncat >/dev/null\necho '<svg></svg>'\n"
	if err := os.WriteFile(filepath.Join(dir, "dot"), []byte(dot), 0o755); err != nil {
		setupError("%v", err)
	}
	p := startProc(c.kagome(), func(addr string) []string { return []string{"server", "-http", addr} }, "GOGC=10", "GODEBUG=gctrace=1", "PATH="+dir+":"+os.Getenv("PATH"))
	if !p.alive() {
		c.Fail("server", "the server does not start", "", "%s", p.err.String())
		return
	}
	defer p.kill()
	type use struct{ fds, threads, children int }
	look := func() (u use) {
		pid := p.cmd.Process.Pid
		fs, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
		u.fds = len(fs)
		ts, _ := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
		u.threads = len(ts)
		for _, t := range ts {
			b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/children", pid, t.Name()))
			u.children += len(strings.Fields(string(b)))
		}
		return u
	}
	sent := c.Counter("bytes sent to the server")
	round := func(k int) {
		c.RunP(fmt.Sprint("server", k), c.N(200, 2000), 8, func(i int, r *rand.Rand) {
			client := newClient()
			defer client.CloseIdleConnections()
			in := corpusSlice(r, 9000) + fmt.Sprint(r.Int63())
			var res *http.Response
			var err error
			switch k := r.Intn(12); {
			case k < 9:
				b, _ := json.Marshal(map[string]string{"sentence": in, "mode": pick(r, []string{"Normal", "Search", "Extended"})})
				req, _ := http.NewRequest(http.MethodPut, "http://"+p.addr+"/tokenize", bytes.NewReader(b))
				res, err = client.Do(req)
			case k == 9:
				in = "{" + in
				req, _ := http.NewRequest(http.MethodPut, "http://"+p.addr+"/tokenize", strings.NewReader(in))
				res, err = client.Do(req)
			default:
				in = string([]rune(in)[:min(60, len([]rune(in)))])
				res, err = client.Get("http://" + p.addr + "/_demo?s=" + url.QueryEscape(in))
			}
			if err != nil {
				c.Count("requests without an answer", 1)
				return
			}
			if r.Intn(10) > 0 { // or leave in the middle of the answer
				io.Copy(io.Discard, res.Body)
			}
			res.Body.Close()
			sent.Add(int64(len(in)))
		})
	}
	read := 0
	heap := func(b *syncBuf) (mb []int) { // memory in use after each collection since the last call
		all := gcLine.FindAllStringSubmatch(b.String(), -1)
		for ; read < len(all); read++ {
			n, _ := strconv.Atoi(all[read][1])
			mb = append(mb, n)
		}
		return mb
	}
	settle := func(base use) (u use) {
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(200 * time.Millisecond) {
			u = look()
			if u.fds <= base.fds+4 && u.children == 0 || time.Now().After(end) {
				return u
			}
			c.Tick()
		}
	}
	first := look()
	round(0)
	round(1)
	before := settle(first)
	heap(p.err) // from here on
	round(2)
	round(3)
	early := heap(p.err)
	s0 := sent.Load()
	for k := 4; k < 8; k++ {
		round(k)
	}
	heap(p.err)
	round(8)
	round(9)
	late := heap(p.err)
	after := settle(first)
	if len(early) == 0 || len(late) == 0 {
		setupError("no reports of the garbage collector")
	}
	sort.Ints(early)
	sort.Ints(late)
	mb := int(sent.Load()-s0) >> 20
	c.Count("megabytes sent between two looks at the server", mb)
	c.Max("growth of the memory in use by the server (MB)", max(0, late[0]-early[0]))
	c.Count("garbage collections of the server seen", len(early)+len(late))
	c.Max("open files of the server process", after.fds)
	c.Eval(hashStr("server"), true)
	switch {
	case after.fds > before.fds+16:
		c.Fail("server", "the server leaves files or connections open", "", "%+v before, %+v after", before, after)
	case after.children > 0:
		c.Fail("server", "the server leaves processes behind", "", "%+v before, %+v after", before, after)
	case after.threads > before.threads+40:
		c.Fail("server", "the server leaves threads behind", "", "%+v before, %+v after", before, after)
	case late[0] > early[0]+max(6, mb/3) && late[len(late)/2] > early[len(early)/2]+max(6, mb/3):
		c.Fail("server", "the memory of the server grows with the requests", "", "%d MB in use at some time, at least %d after %d MB of sentences", early[0], late[0], mb)
	}
}

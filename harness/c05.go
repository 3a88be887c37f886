package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { checks["C05"] = check{run: runC05} }

// digest is everything a user can read from a result.
func digest(toks []tokenizer.Token) string {
	var b strings.Builder
	for _, t := range toks {
		fmt.Fprintf(&b, "%d %d %d %d %d %d %q", t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface)
		fmt.Fprintf(&b, " %q %q", t.Features(), t.POS())
		bf, ok1 := t.BaseForm()
		rd, ok2 := t.Reading()
		pr, ok3 := t.Pronunciation()
		it, ok4 := t.InflectionalType()
		fm, ok5 := t.InflectionalForm()
		fmt.Fprintf(&b, " %q%v%q%v%q%v%q%v%q%v", bf, ok1, rd, ok2, pr, ok3, it, ok4, fm, ok5)
		if x := t.UserExtra(); x != nil {
			fmt.Fprintf(&b, " %q %q", x.Tokens, x.Readings)
		}
		d := tokenizer.NewTokenData(t)
		fmt.Fprintf(&b, " %q %q %q\n", d.Surface, d.Features, d.POS)
	}
	return b.String()
}

// graphDigest is the content of a graph without the names of its nodes.
func graphDigest(out string) string {
	g, err := parseDot(out)
	if err != nil {
		return "malformed: " + err.Error()
	}
	attrs := func(m map[string]string) string {
		var ks []string
		for k, v := range m {
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		return strings.Join(ks, ",")
	}
	lab := map[string]string{}
	var lines []string
	for _, n := range g.Nodes {
		lab[n.ID] = n.Attrs["label"]
		lines = append(lines, "n "+attrs(n.Attrs))
	}
	for _, e := range g.Edges {
		lines = append(lines, fmt.Sprintf("e %q %q %s", lab[e.From], lab[e.To], attrs(e.Attrs)))
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// item is one call whose result is observed in several histories.
type item struct {
	conf  int
	in    string
	mode  tokenizer.TokenizeMode
	graph bool
	omit  bool
}

func (it item) eval(cs []*conf) string {
	t := cs[it.conf].t
	if it.omit {
		t = cs[it.conf].o
	}
	if it.graph {
		var b bytes.Buffer
		d := digest(t.AnalyzeGraph(&b, it.in, it.mode))
		return d + "\n" + graphDigest(b.String())
	}
	return digest(t.Analyze(it.in, it.mode))
}

// historyWorld is the same in every process with the same seed. Confs with big dictionaries
// come first; nbig says how many.
func historyWorld(seed int64, big bool, nsynth, nitems int) (cs []*conf, items []item) {
	r := rand.New(rand.NewSource(seed))
	var texts []string
	for i := 0; i < 40; i++ {
		texts = append(texts, genText(r, nil, 40))
	}
	nbig := 0
	if big {
		u1, u2 := genUserDict(r, texts), genUserDict(r, texts)
		cs = append(cs, newConf("ipa", ipaDict(), nil, nil), newConf("ipa+user1", ipaDict(), nil, u1), newConf("ipa+user2", ipaDict(), nil, u2), newConf("ipa-shrunk", shrunkIPA(), nil, nil))
		nbig = len(cs)
	}
	for i := 0; i < nsynth; i++ {
		s := genSynth(r)
		cs = append(cs, newConf("synthetic", s.D, s, nil))
		cs = append(cs, newConf("synthetic+user", s.D, s, genUserDict(r, []string{s.text(r) + strings.Join(s.Alphabet, ""), s.text(r) + "x"})))
	}
	for i := 0; i < nitems; i++ {
		k := r.Intn(len(cs))
		in := ""
		switch {
		case k < nbig && r.Intn(3) > 0:
			in = texts[r.Intn(len(texts))]
		case k < nbig:
			in = genText(r, nil, 80)
		default:
			in = cs[k].m.s.text(r)
		}
		items = append(items, item{conf: k, in: in, mode: modes[r.Intn(3)], graph: r.Intn(4) == 0, omit: r.Intn(4) == 0})
	}
	return cs, items
}

// childMain answers digests in a process of its own: args are the world and an order of items.
func childMain(id string, args []string) {
	if id == "C06" {
		aloneMain()
		return
	}
	if id == "C17" {
		demoServerMain(args)
		return
	}
	if id == "limit" {
		limitMain(args)
		return
	}
	if id != "C05" {
		os.Exit(2)
	}
	var q childQuery
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		setupError("%v", err)
	}
	cs, items := historyWorld(q.Seed, q.Big, q.NSynth, q.NItems)
	out := make([]string, len(q.Order))
	for i, k := range q.Order {
		out[i] = fmt.Sprintf("%x", hashStr(items[k].eval(cs)))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

type childQuery struct {
	Seed           int64
	Big            bool
	NSynth, NItems int
	Order          []int
}

func askChild(q childQuery) ([]string, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(q)
	cmd := exec.Command(exe, "-child", "C05")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, clip(errb.String(), 3000))
	}
	var res []string
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, err
	}
	if len(res) != len(q.Order) {
		return nil, errors.New("short answer")
	}
	return res, nil
}

// badWriter fails or panics at its n-th write.
type badWriter struct {
	n     int
	panic bool
}

func (w *badWriter) Write(p []byte) (int, error) {
	w.n--
	if w.n <= 0 {
		if w.panic {
			panic("writer panics")
		}
		return 0, errors.New("writer fails")
	}
	return len(p), nil
}

// disturb does something that must not matter for later results.
func disturb(c *Ctx, r *rand.Rand, cs []*conf, items []item, wait bool) string {
	it := items[r.Intn(len(items))]
	cf := cs[it.conf]
	switch k := r.Intn(9); k {
	case 0, 1: // some other call
		cf.t.Analyze(it.in, modes[r.Intn(3)])
		return "analysis"
	case 2: // a long text
		n := []int{2000, 20000, 120000}[r.Intn(3)]
		cf.t.Analyze(genDoc(r, n), modes[r.Intn(3)])
		return "long text"
	case 3: // failing writer
		cf.t.AnalyzeGraph(&badWriter{n: r.Intn(12)}, it.in, modes[r.Intn(3)])
		return "failing writer"
	case 4: // panicking writer
		func() {
			defer func() { recover() }()
			cf.t.AnalyzeGraph(&badWriter{n: r.Intn(12), panic: true}, it.in, modes[r.Intn(3)])
		}()
		return "panicking writer"
	case 5:
		if r.Intn(6) == 0 {
			runtime.GC()
			return "gc"
		}
		cf.t.Wakati(it.in)
		return "wakati"
	case 6, 7: // write into everything that was returned
		toks := cf.t.Analyze(it.in, it.mode)
		for i := range toks {
			for _, s := range [][]string{toks[i].Features(), toks[i].POS(), tokenizer.NewTokenData(toks[i]).Features, tokenizer.NewTokenData(toks[i]).POS} {
				s = s[:cap(s)]
				for j := range s {
					s[j] = "MUTATED"
				}
			}
			if x := toks[i].UserExtra(); x != nil {
				for _, s := range [][]string{x.Tokens, x.Readings} {
					s = s[:cap(s)]
					for j := range s {
						s[j] = "MUTATED"
					}
				}
			}
		}
		w := cf.t.Wakati(it.in)
		w = w[:cap(w)]
		for j := range w {
			w[j] = "MUTATED"
		}
		toks = toks[:cap(toks)]
		for i := range toks {
			toks[i] = tokenizer.Token{ID: 1 << 30, Class: 9, Surface: "MUTATED"}
		}
		return "mutation of returned slices"
	default:
		cf.o.AnalyzeGraph(&bytes.Buffer{}, genText(r, nil, 60), modes[r.Intn(3)])
		return "graph"
	}
}

func runC05(c *Ctx) {
	c.Rule("a case is the observation of one call's complete result (tokens, all accessors, graph content) at one point of a history; reference digests come from fresh processes (for synthetic dictionaries one process per call, for the big dictionary processes with different orders); non-trivial: the observed result has at least two tokens besides markers and the history before it is non-empty")
	c.Count("retained_tokens_reread", 0)
	obs := c.Counter("observations_in_histories")
	// 1. synthetic world: each item alone in a process
	type world struct {
		q      childQuery
		cs     []*conf
		items  []item
		digest []string
	}
	var worlds []*world
	nw := c.N(6, 40)
	for k := 0; k < nw; k++ {
		w := &world{q: childQuery{Seed: c.Rand("world", k).Int63(), NSynth: 5, NItems: c.N(40, 60)}}
		w.cs, w.items = historyWorld(w.q.Seed, false, w.q.NSynth, w.q.NItems)
		w.digest = make([]string, w.q.NItems)
		worlds = append(worlds, w)
	}
	c.Run("fresh", nw*worlds[0].q.NItems, func(i int, r *rand.Rand) {
		w := worlds[i/worlds[0].q.NItems]
		k := i % worlds[0].q.NItems
		q := w.q
		q.Order = []int{k}
		res, err := askChild(q)
		if err != nil {
			c.Fail(fmt.Sprintf("fresh/%d", i), "process of one call failed", w.items[k].in, "%v", err)
			return
		}
		w.digest[k] = res[0]
		c.Count("fresh_process_calls", 1)
	})
	// 2. big dictionary: processes with different orders must agree
	big := &world{q: childQuery{Seed: c.Rand("bigworld", 0).Int63(), Big: true, NSynth: 3, NItems: c.N(300, 1500)}}
	big.cs, big.items = historyWorld(big.q.Seed, true, big.q.NSynth, big.q.NItems)
	var mu sync.Mutex
	by := make([]map[string]int, big.q.NItems)
	for i := range by {
		by[i] = map[string]int{}
	}
	orders := c.N(8, 24)
	c.RunP("orders", orders, 4, func(i int, r *rand.Rand) {
		q := big.q
		q.Order = r.Perm(q.NItems)
		res, err := askChild(q)
		if err != nil {
			c.Fail(fmt.Sprintf("orders/%d", i), "process failed", "", "%v", err)
			return
		}
		mu.Lock()
		for j, k := range q.Order {
			by[k][res[j]]++
		}
		mu.Unlock()
		c.Count("order_process_calls", len(res))
	})
	big.digest = make([]string, big.q.NItems)
	for k := range by {
		if len(by[k]) > 1 {
			it := big.items[k]
			c.Fail(fmt.Sprintf("orders item %d conf %s mode %d", k, big.cs[it.conf].name, it.mode), "result depends on the order of calls in the process", it.in, "%v", by[k])
		}
		for d := range by[k] {
			big.digest[k] = d
		}
	}
	worlds = append(worlds, big)
	if c.Stop() {
		return
	}
	// 3. histories
	check := func(where string, w *world, k int, hist []string) {
		it := w.items[k]
		c.Guard(where, it.in, func() {
			d := it.eval(w.cs)
			h := fmt.Sprintf("%x", hashStr(d))
			if w.digest[k] != "" && h != w.digest[k] {
				c.Fail(fmt.Sprintf("%s conf %s mode %d graph %v", where, w.cs[it.conf].name, it.mode, it.graph), "result differs from that of a fresh process", it.in, "last events %v\n%s", hist, clip(d, 3000))
			}
			obs.Add(1)
			c.Eval(hashStr(where, strconv.Itoa(k)), strings.Count(d, "\n") >= 4)
			if len(d) < 1500 {
				c.Sample(map[string]any{"case": where, "conf": w.cs[it.conf].name, "input": clip(fmt.Sprintf("%q", it.in), 100), "after": hist, "result": clip(d, 400)})
			}
		})
	}
	type kept struct {
		toks []tokenizer.Token
		d    string
		it   item
	}
	history := func(name string, steps int, r *rand.Rand) {
		var keep []kept
		var hist []string
		for s := 0; s < steps && !c.Stop(); s++ {
			w := worlds[r.Intn(len(worlds))]
			if r.Intn(3) == 0 {
				w = big
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						c.Fail(name, "panic", "", "%v after %v", p, hist)
					}
				}()
				if r.Intn(2) == 0 {
					hist = append(hist, disturb(c, r, w.cs, w.items, false))
				}
				k := r.Intn(len(w.items))
				check(fmt.Sprintf("%s step %d", name, s), w, k, hist)
				hist = append(hist, "call")
				if len(hist) > 12 {
					hist = hist[len(hist)-12:]
				}
				if r.Intn(6) == 0 && len(keep) < 400 {
					it := w.items[r.Intn(len(w.items))]
					t := w.cs[it.conf].t.Analyze(it.in, it.mode)
					keep = append(keep, kept{t, digest(t), it})
				}
			}()
		}
		for _, k := range keep {
			c.Guard(name+" retained", k.it.in, func() {
				if d := digest(k.toks); d != k.d {
					c.Fail(name+" retained", "tokens returned earlier have changed", k.it.in, "was\n%s\nis\n%s", clip(k.d, 2000), clip(d, 2000))
				}
			})
			c.Count("retained_tokens_reread", len(k.toks))
		}
	}
	// one processor: the pools give back exactly what was put last
	runtime.GOMAXPROCS(1)
	for i := 0; i < c.N(12, 100) && !c.Stop(); i++ {
		history(fmt.Sprintf("history1/%d", i), c.N(400, 1500), c.Rand("history1", i))
		c.Count("histories_single_processor", 1)
		c.Tick()
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	c.Run("history8", c.N(24, 200), func(i int, r *rand.Rand) {
		history(fmt.Sprintf("history8/%d", i), c.N(300, 1000), r)
		c.Count("histories_parallel", 1)
	})
}

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
)

func init() { checks["C06"] = check{run: runC06, race: true} }

// shared is what the goroutines of a round use together.
type shared struct {
	cs     []*conf
	texts  [][]string // per conf
	jaf    *ja.Filter
	pf     *filter.POSFilter
	wf     *filter.WordFilter
	ff     *filter.FeaturesFilter
	split  filter.SentenceSplitter
	tokens [][]tokenizer.Token // returned before the round, read by all
	docs   []string
}

// newShared builds the same objects for the same seed, sharing nothing but the big dictionary's tables.
func newShared(seed int64, big bool) *shared {
	r := rand.New(rand.NewSource(seed))
	s := &shared{}
	var texts []string
	for i := 0; i < 12; i++ {
		texts = append(texts, genText(r, nil, 40))
	}
	u := genUserDict(r, texts)
	if big {
		d := *ipaDict()
		s.cs = append(s.cs, newConf("ipa", &d, nil, nil), newConf("ipa+user", &d, nil, u))
		s.texts = append(s.texts, texts, texts)
	}
	for i := 0; i < 3; i++ {
		y := genSynth(r)
		var ts []string
		for k := 0; k < 12; k++ {
			ts = append(ts, y.text(r))
		}
		if r.Intn(2) == 0 {
			s.cs = append(s.cs, newConf("synthetic+user", y.D, y, genUserDict(r, append(ts, "あ"))))
		} else {
			s.cs = append(s.cs, newConf("synthetic", y.D, y, nil))
		}
		s.texts = append(s.texts, ts)
	}
	f, err := ja.NewFilter()
	if err != nil {
		setupError("%v", err)
	}
	s.jaf = f
	s.pf = filter.NewPOSFilter([]string{"助詞"}, []string{"名詞", filter.Any, "*"}, []string{filter.Any, "自立"}, []string{"記号", "一般"})
	s.wf = filter.NewWordFilter([]string{"の", "a", "漢", "た", "。"})
	s.ff = filter.NewFeaturesFilter([]string{"動詞"}, []string{filter.Any, filter.Any, "一般"}, []string{"名詞", "一般", filter.Any})
	s.split = filter.SentenceSplitter{Delim: []rune{'。', '!'}, Follower: []rune{'」'}, SkipWhiteSpace: true, DoubleLineFeedSplit: true, MaxRuneLen: 40}
	for i := 0; i < 4; i++ {
		s.docs = append(s.docs, corpusSlice(r, 400)+genSplitText(r, 60))
	}
	return s
}

const nOps = 14

var opNames = [nOps]string{"analyze", "analyze", "analyze", "graph", "wakati", "accessors", "ja filter", "keep/drop", "splitter", "new tokenizer", "read shared tokens", "write into returned slices", "bad writer", "new user dictionary"}

// do performs one operation; its outcome depends on s and seed only.
func (s *shared) do(seed int64) (op int, out string) {
	r := rand.New(rand.NewSource(seed))
	k := r.Intn(len(s.cs))
	cf := s.cs[k]
	in := pick(r, s.texts[k])
	mode := modes[r.Intn(3)]
	t := cf.t
	if r.Intn(3) == 0 {
		t = cf.o
	}
	op = r.Intn(nOps)
	switch op {
	case 0, 1, 2:
		return op, digest(t.Analyze(in, mode))
	case 3:
		var b bytes.Buffer
		d := digest(t.AnalyzeGraph(&b, in, mode))
		return op, d + graphDigest(b.String())
	case 4:
		return op, fmt.Sprintf("%q", t.Wakati(in))
	case 5:
		toks := t.Tokenize(in)
		var b strings.Builder
		for i := range toks {
			f, ok := toks[i].FeatureAt(r.Intn(8))
			fmt.Fprint(&b, f, ok, toks[i].Equal(toks[0]), toks[i].EqualPOS(toks[len(toks)-1]), toks[i].String(), toks[i].Class.String())
		}
		return op, b.String()
	case 6:
		toks := t.Analyze(in, mode)
		w := s.jaf.Yield(toks)
		s.jaf.Drop(&toks)
		return op, fmt.Sprintf("%q", w) + digest(toks)
	case 7:
		toks := t.Analyze(in, mode)
		a := append([]tokenizer.Token{}, toks...)
		s.pf.Keep(&a)
		b := append([]tokenizer.Token{}, toks...)
		s.wf.Drop(&b)
		c := append([]tokenizer.Token{}, toks...)
		filter.Keep(&c, func(t tokenizer.Token) bool { return s.ff.Match(t.Features()) })
		return op, digest(a) + "|" + digest(b) + "|" + digest(c)
	case 8:
		var got []string
		doc := pick(r, s.docs)
		sc := bufio.NewScanner(strings.NewReader(doc))
		if r.Intn(2) == 0 {
			sc.Split(filter.ScanSentences)
		} else {
			sc.Split(s.split.ScanSentences)
		}
		for sc.Scan() {
			got = append(got, sc.Text())
		}
		return op, fmt.Sprintf("%q", got)
	case 9:
		opts := []tokenizer.Option{}
		if cf.m.u != nil {
			opts = append(opts, tokenizer.UserDict(cf.m.u.U))
		}
		if r.Intn(2) == 0 {
			opts = append(opts, tokenizer.OmitBosEos())
		}
		n, err := tokenizer.New(cf.m.d, opts...)
		if err != nil {
			return op, err.Error()
		}
		return op, digest(n.Analyze(in, mode))
	case 10:
		if len(s.tokens) == 0 {
			return op, ""
		}
		return op, digest(s.tokens[r.Intn(len(s.tokens))])
	case 11:
		toks := t.Analyze(in, mode)
		d := digest(toks)
		for i := range toks {
			for _, x := range [][]string{toks[i].Features(), toks[i].POS(), tokenizer.NewTokenData(toks[i]).Features, tokenizer.NewTokenData(toks[i]).POS} {
				x = x[:cap(x)]
				for j := range x {
					x[j] = "WRITTEN"
				}
			}
			if x := toks[i].UserExtra(); x != nil {
				for j := range x.Tokens {
					x.Tokens[j] = "WRITTEN"
				}
				for j := range x.Readings {
					x.Readings[j] = "WRITTEN"
				}
			}
		}
		full := toks[:cap(toks)]
		for i := range full {
			full[i].Surface = "WRITTEN"
		}
		return op, d
	case 12:
		func() {
			defer func() { recover() }()
			t.AnalyzeGraph(&badWriter{n: r.Intn(8), panic: r.Intn(2) == 0}, in, mode)
		}()
		return op, digest(t.Analyze(in, mode))
	default:
		u := newUserDict([]dict.UserDicRecord{{Text: "猫", Tokens: []string{"猫"}, Yomi: []string{"ネコ"}, Pos: "名詞"}, {Text: "a", Tokens: []string{"a"}, Yomi: []string{"エー"}, Pos: "x"}})
		n, err := tokenizer.New(cf.m.d, tokenizer.UserDict(u.U))
		if err != nil {
			return op, err.Error()
		}
		return op, digest(n.Analyze(in+"猫", mode))
	}
}

type aloneQuery struct {
	Seed   int64
	Big    bool
	Tokens bool
	Seeds  []int64
}

func (s *shared) prepare() {
	for k, cf := range s.cs {
		s.tokens = append(s.tokens, cf.t.Analyze(s.texts[k][0], modes[k%3]))
	}
}

func aloneMain() {
	var q aloneQuery
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		setupError("%v", err)
	}
	s := newShared(q.Seed, q.Big)
	if q.Tokens {
		s.prepare()
	}
	out := make([]uint64, len(q.Seeds))
	for i, x := range q.Seeds {
		_, d := s.do(x)
		out[i] = hashStr(d)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func askAlone(c *Ctx, q aloneQuery) ([]uint64, error) {
	b, _ := json.Marshal(q)
	cmd := exec.Command(filepath.Join(c.Bin, "vh"), "-child", "C06")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, clip(errb.String(), 3000))
	}
	var res []uint64
	if err := json.Unmarshal(out.Bytes(), &res); err != nil || len(res) != len(q.Seeds) {
		return nil, fmt.Errorf("bad answer: %v", err)
	}
	return res, nil
}

func runC06(c *Ctx) {
	c.Rule("a case is one operation executed concurrently with others on shared tokenizers, filters, splitters, dictionaries and tokens (race-detector build, random yields at pool operations, no synchronisation by the harness during a round), its complete outcome compared with the same operation run alone afterwards on separately built equal objects; non-trivial: other goroutines were running operations at the same time (rounds with at least two goroutines)")
	c.Assume("the race detector sees the executed interleavings only")
	mem.Observer = func(x any, get bool) { // must not synchronise
		switch randv2.Uint32() % 512 {
		case 0, 1, 2, 3:
			runtime.Gosched()
		case 4:
			time.Sleep(time.Microsecond)
		}
	}
	ipaDict()
	type result struct {
		seed       int64
		op         int
		h          uint64
		start, end time.Duration
	}
	rounds := c.N(22, 400)
	var refs sync.WaitGroup
	overlaps := 0
	maxpar := 0
	orders := map[uint64]bool{}
	for round := 0; round < rounds && !c.Stop(); round++ {
		r := c.Rand("round", round)
		seed := r.Int63()
		big := round%3 != 2
		s := newShared(seed, big)
		if round%2 == 1 { // tokens to be read by all
			s.prepare()
		}
		runtime.GOMAXPROCS([]int{8, 2, 4, 16}[round%4])
		g := []int{2, 4, 8, 16, 32}[r.Intn(5)]
		n := c.N(1600, 4000) / g
		out := make([][]result, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		t0 := time.Now()
		fails := make([]string, g)
		for w := 0; w < g; w++ {
			ws := r.Int63()
			out[w] = make([]result, 0, n)
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				wr := rand.New(rand.NewSource(ws))
				cur := int64(0)
				defer func() {
					if p := recover(); p != nil {
						fails[w] = fmt.Sprintf("operation seed %d: %v", cur, p)
					}
				}()
				<-start
				for i := 0; i < n; i++ {
					cur = wr.Int63()
					if i%5 == 4 && w > 0 { // the same operations as the first goroutine's
						cur = seed + int64(i)
					}
					if w == 0 && i%3 == 0 {
						cur = seed + int64(i)
					}
					a := time.Since(t0)
					op, d := s.do(cur)
					out[w] = append(out[w], result{cur, op, hashStr(d), a, time.Since(t0)})
				}
			}(w)
		}
		close(start)
		wg.Wait()
		c.Tick()
		for w := range fails {
			if fails[w] != "" {
				c.Fail(fmt.Sprintf("round/%d", round), "panic in a concurrent operation", "", "goroutine %d: %s", w, fails[w])
			}
		}
		// alone, in another process, on separately built equal objects
		q := aloneQuery{Seed: seed, Big: big, Tokens: round%2 == 1}
		idx := map[int64]int{}
		for w := range out {
			for _, x := range out[w] {
				if _, ok := idx[x.seed]; !ok {
					idx[x.seed] = len(q.Seeds)
					q.Seeds = append(q.Seeds, x.seed)
				}
			}
		}
		refs.Add(1)
		go func() {
			defer refs.Done()
			ref, err := askAlone(c, q)
			if err != nil {
				c.Fail(fmt.Sprintf("round/%d alone", round), "operations run alone fail", "", "%v", err)
				return
			}
			for w := range out {
				for i, x := range out[w] {
					if ref[idx[x.seed]] != x.h {
						c.Fail(fmt.Sprintf("round/%d goroutine %d operation %d (%s, seed %d)", round, w, i, opNames[x.op], x.seed), "concurrent result differs from the one run alone", "", "world seed %d", seed)
					}
				}
			}
			c.Tick()
		}()
		var evs []result
		for w := range out {
			for i, x := range out[w] {
				c.Count("operations "+opNames[x.op], 1)
				c.Eval(hashStr(fmt.Sprint(round, w, i)), g >= 2)
				evs = append(evs, x)
			}
		}
		// overlap seen
		for w := range out {
			for v := w + 1; v < g; v++ {
				i, j := 0, 0
				for i < len(out[w]) && j < len(out[v]) {
					a, b := out[w][i], out[v][j]
					if a.start < b.end && b.start < a.end {
						overlaps++
						orders[hashStr(opNames[a.op], opNames[b.op])*3+uint64(map[bool]int{true: 1}[a.start < b.start])+uint64(map[bool]int{true: 7}[a.end < b.end])] = true
					}
					if a.end < b.end {
						i++
					} else {
						j++
					}
				}
			}
		}
		if g > maxpar {
			maxpar = g
		}
		c.Sample(map[string]any{"round": round, "goroutines": g, "operations": len(evs), "overlapping_pairs_so_far": overlaps})
	}
	refs.Wait()
	runtime.GOMAXPROCS(runtime.NumCPU())
	c.Count("overlapping_operation_pairs", overlaps)
	c.Count("distinct_overlap_kinds", len(orders))
	c.Max("goroutines", maxpar)
	// hand-over: tokens are analysed in one goroutine and read in others while more analyses go on
	c.RunP("handover", c.N(24, 300), 3, func(i int, r *rand.Rand) {
		s := newShared(r.Int63(), i%2 == 0)
		ch := make(chan []tokenizer.Token)
		dg := make(chan string, 1000)
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for t := range ch {
					dg <- digest(t)
				}
			}()
		}
		var keep [][]tokenizer.Token
		n := 60
		for k := 0; k < n; k++ {
			j := r.Intn(len(s.cs))
			t := s.cs[j].t.Analyze(pick(r, s.texts[j]), modes[r.Intn(3)])
			keep = append(keep, t)
			ch <- t
		}
		close(ch)
		wg.Wait()
		close(dg)
		got := map[string]int{}
		for d := range dg {
			got[d]++
		}
		for _, t := range keep {
			d := digest(t)
			if got[d] == 0 {
				c.Fail(fmt.Sprintf("handover/%d", i), "tokens read by another goroutine differ", "", "%s", clip(d, 2000))
			}
			got[d]--
		}
		c.Count("tokens_handed_over", n)
		c.Eval(hashStr("handover", fmt.Sprint(i)), true)
	})
	mem.Observer = nil
}

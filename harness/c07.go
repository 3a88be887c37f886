package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	checks["C07"] = check{run: runC07}
	checks["C08"] = check{run: runC08}
}

// entry is what the dictionary says about a token.
type entry struct {
	features []string
	pos      []string
	meta     dict.ContentsMeta
	user     *dict.UserDicRecord
	class    string
}

func (m *model) entry(t tokenizer.Token) (entry, error) {
	d := m.d
	switch t.Class {
	case tokenizer.KNOWN:
		if t.ID < 0 || t.ID >= len(d.Morphs) {
			return entry{}, fmt.Errorf("no dictionary word %d", t.ID)
		}
		var e entry
		for _, id := range d.POSTable.POSs[t.ID] {
			e.pos = append(e.pos, d.POSTable.NameList[id])
		}
		e.features = append(e.features, e.pos...)
		if d.Contents != nil {
			e.features = append(e.features, d.Contents[t.ID]...)
		}
		e.meta = d.ContentsMeta
		e.class = "KNOWN"
		return e, nil
	case tokenizer.UNKNOWN:
		if t.ID < 0 || t.ID >= len(d.UnkDict.Contents) {
			return entry{}, fmt.Errorf("no unknown word entry %d", t.ID)
		}
		return entry{features: d.UnkDict.Contents[t.ID], pos: unkPOS(d, t.ID), meta: d.UnkDict.ContentsMeta, class: "UNKNOWN"}, nil
	case tokenizer.USER:
		if m.u == nil || t.ID < 0 || t.ID >= len(m.u.Recs) {
			return entry{}, fmt.Errorf("no user entry %d", t.ID)
		}
		r := &m.u.Recs[t.ID]
		return entry{features: []string{r.Pos, strings.Join(r.Tokens, "/"), strings.Join(r.Yomi, "/")}, pos: []string{r.Pos}, user: r, class: "USER"}, nil
	case tokenizer.DUMMY:
		return entry{class: "DUMMY"}, nil
	}
	return entry{}, fmt.Errorf("no such class %d", t.Class)
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// jsonStr is what encoding/json makes of a string.
func jsonStr(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c, w := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(c)
		i += w
	}
	return b.String()
}

func jsonStrs(ss []string) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, jsonStr(s))
	}
	return out
}

// attrs returns base form, reading, pronunciation, inflection type and form per the entry.
func (e entry) attr(key string) (string, bool) {
	i, ok := e.meta[key]
	if !ok || int(i) < 0 || int(i) >= len(e.features) {
		return "", false
	}
	return e.features[i], true
}

// dataRecord is the JSON value expected for the exported record of a token.
func (e entry) dataRecord(t tokenizer.Token) map[string]any {
	get := func(k string) any { s, _ := e.attr(k); return jsonStr(s) }
	return map[string]any{
		"id": float64(t.ID), "start": float64(t.Start), "end": float64(t.End), "surface": jsonStr(t.Surface), "class": e.class,
		"pos": jsonStrs(e.pos), "base_form": get(dict.BaseFormIndex), "reading": get(dict.ReadingIndex), "pronunciation": get(dict.PronunciationIndex),
		"features": jsonStrs(e.features),
	}
}

// tokenMismatch compares everything a token says about itself with the dictionary.
func (m *model) tokenMismatch(t tokenizer.Token, reads *int) string {
	e, err := m.entry(t)
	if err != nil {
		return err.Error()
	}
	if f := t.Features(); !sameList(f, e.features) {
		return fmt.Sprintf("Features %q, entry has %q", f, e.features)
	}
	if p := t.POS(); !sameList(p, e.pos) {
		return fmt.Sprintf("POS %q, entry has %q", p, e.pos)
	}
	if s := t.Class.String(); s != e.class {
		return fmt.Sprintf("class name %q, want %q", s, e.class)
	}
	n := len(e.features)
	idx := []int{-2, -1, n, n + 1, n + 2, n + 3, 127, 128, 255, 256, math.MaxInt32, math.MinInt32, math.MaxInt, math.MinInt, 1 << 32, 1<<32 + 1}
	for i := 0; i < n; i++ {
		idx = append(idx, i)
	}
	for _, i := range idx {
		f, ok := t.FeatureAt(i)
		wok := i >= 0 && i < n
		w := ""
		if wok {
			w = e.features[i]
		}
		if ok != wok || f != w {
			return fmt.Sprintf("FeatureAt(%d) = %q, %v; entry has %q, %v (features %q)", i, f, ok, w, wok, e.features)
		}
		*reads++
	}
	for _, a := range []struct {
		key string
		f   func() (string, bool)
	}{
		{dict.InflectionalType, t.InflectionalType}, {dict.InflectionalForm, t.InflectionalForm}, {dict.BaseFormIndex, t.BaseForm},
		{dict.ReadingIndex, t.Reading}, {dict.PronunciationIndex, t.Pronunciation},
	} {
		w, wok := e.attr(a.key)
		if v, ok := a.f(); v != w || ok != wok {
			return fmt.Sprintf("%s = %q, %v; entry has %q, %v", a.key, v, ok, w, wok)
		}
		*reads++
	}
	x := t.UserExtra()
	if (x != nil) != (e.user != nil) {
		return fmt.Sprintf("UserExtra %v for class %s", x, e.class)
	}
	if x != nil && (!sameList(x.Tokens, e.user.Tokens) || !sameList(x.Readings, e.user.Yomi)) {
		return fmt.Sprintf("UserExtra %q %q; entry has %q %q", x.Tokens, x.Readings, e.user.Tokens, e.user.Yomi)
	}
	td := tokenizer.NewTokenData(t)
	bf, _ := e.attr(dict.BaseFormIndex)
	rd, _ := e.attr(dict.ReadingIndex)
	pr, _ := e.attr(dict.PronunciationIndex)
	if td.ID != t.ID || td.Start != t.Start || td.End != t.End || td.Surface != t.Surface || td.Class != e.class || !sameList(td.POS, e.pos) || !sameList(td.Features, e.features) ||
		td.BaseForm != bf || td.Reading != rd || td.Pronunciation != pr {
		return fmt.Sprintf("data record %+v of %v; entry has %+v %q %q %q", td, t, e, bf, rd, pr)
	}
	b, err := json.Marshal(td)
	if err != nil {
		return fmt.Sprintf("data record is not JSON: %v", err)
	}
	var got map[string]any
	if err := json.Unmarshal(b, &got); err != nil {
		return fmt.Sprintf("data record is not JSON: %v", err)
	}
	if want := e.dataRecord(t); !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("JSON record %s; want %v", b, want)
	}
	return ""
}

func runC07(c *Ctx) {
	c.Rule("a case is one returned token: every accessor, every index (in and out of range), the data record and its JSON against an independent reading of the dictionary tables for the token's class and id, plus the comparison functions on pairs of tokens; non-trivial: the entry has features")
	toksN := c.Counter("tokens_checked")
	readsN := c.Counter("attribute_reads_checked")
	pairs := c.Counter("token_pairs_compared")
	eqPairs := c.Counter("token_pairs_with_equal_features")
	cls := map[tokenizer.TokenClass]string{tokenizer.DUMMY: "tokens_dummy", tokenizer.KNOWN: "tokens_known", tokenizer.UNKNOWN: "tokens_unknown", tokenizer.USER: "tokens_user"}
	f := func(where string, cf *conf, in string, r *rand.Rand) {
		mode := modes[r.Intn(3)]
		c.Guard(where, in, func() {
			t := cf.t
			if r.Intn(5) == 0 {
				t = cf.o
			}
			toks := t.Analyze(in, mode)
			n := len(toks)
			for k := range toks {
				if n > 300 && k%7 != 0 {
					continue
				}
				tk := toks[k]
				reads := 0
				if msg := cf.m.tokenMismatch(tk, &reads); msg != "" {
					c.Fail(fmt.Sprintf("%s mode=%d token %v", where, mode, tk), "token disagrees with its dictionary entry", in, "%s", msg)
					return
				}
				toksN.Add(1)
				readsN.Add(int64(reads))
				c.Count(cls[tk.Class], 1)
				e, _ := cf.m.entry(tk)
				c.Eval(hashStr(confKey(cf), fmt.Sprint(tk.Class, tk.ID), tk.Surface), len(e.features) > 0)
				if len(e.features) > 0 {
					c.Sample(map[string]any{"conf": cf.name, "token": tk.String(), "features": e.features})
				}
				for z := 0; z < 3; z++ {
					u := toks[r.Intn(n)]
					if z == 0 { // another surface or id or class
						u = tk
						switch r.Intn(5) {
						case 0:
							u.Surface += "x"
						case 1:
							u.Position++
							u.Index += 3
						case 2:
							u.Start, u.End = 0, 0
						case 3:
							u.Surface = strings.Repeat("x", len(u.Surface))
						case 4:
							u.Surface = ""
						}
						if u.Equal(tk) != (u.Surface == tk.Surface) {
							c.Fail(where, "Equal", in, "%v / %v: %v", u, tk, u.Equal(tk))
						}
						w := tk
						w.ID++
						if w.Equal(tk) || tk.Equal(w) {
							c.Fail(where, "Equal: different id", in, "%v / %v", w, tk)
						}
						w = tk
						w.Class++
						if w.Equal(tk) || tk.Equal(w) {
							c.Fail(where, "Equal: different class", in, "%v / %v", w, tk)
						}
						continue
					}
					eu, err := cf.m.entry(u)
					if err != nil {
						continue
					}
					weq := u.ID == tk.ID && u.Class == tk.Class && u.Surface == tk.Surface
					wf := sameList(eu.features, e.features)
					wp := sameList(eu.pos, e.pos)
					if tk.Equal(u) != weq || tk.EqualFeatures(u) != wf || tk.EqualPOS(u) != wp {
						c.Fail(where, "comparison of tokens", in, "%v %q / %v %q: Equal %v features %v pos %v", tk, e.features, u, eu.features, tk.Equal(u), tk.EqualFeatures(u), tk.EqualPOS(u))
					}
					pairs.Add(1)
					if wf {
						eqPairs.Add(1)
					}
				}
			}
		})
	}
	// feature lists as such
	c.Run("lists", c.N(2000, 40000), func(i int, r *rand.Rand) {
		mk := func() []string {
			var v []string
			if r.Intn(3) > 0 {
				v = []string{}
			}
			for n := r.Intn(4); n > 0; n-- {
				v = append(v, pick(r, []string{"", "a", "b", "*", "aa"}))
			}
			return v
		}
		a, b := mk(), mk()
		if i%3 == 0 { // long lists that differ in one place, in length, or not at all
			a = nil
			for n := 1 + r.Intn(40); n > 0; n-- {
				a = append(a, pick(r, []string{"", "a", "b", "*", "名詞", "一般", "カナ"}))
			}
			b = append([]string{}, a...)
			switch r.Intn(3) {
			case 0:
				k := r.Intn(len(b))
				b[k] = pick(r, []string{b[k] + "x", b[k] + "*", "*", ""})
			case 1:
				b = b[:len(b)-1]
			}
			if r.Intn(2) == 0 {
				a, b = b, a
			}
		}
		if tokenizer.EqualFeatures(a, b) != sameList(a, b) {
			c.Fail(fmt.Sprintf("lists/%d", i), "EqualFeatures", "", "%q / %q: %v", a, b, tokenizer.EqualFeatures(a, b))
		}
		c.Count("lists_compared", 1)
	})
	confs := stdConfs(c, true)
	confs = append(confs, newConf("ipa-shrunk", shrunkIPA(), nil, nil))
	workload{short: c.N(6000, 150000), frag3: 3, synths: c.N(12000, 300000), perSynth: 8, user: true}.run(c, confs, f)
	ws := words(ipaDict())
	step := c.N(4, 1)
	c.Run("words", len(ws)/step, func(i int, r *rand.Rand) {
		f(fmt.Sprintf("words/%d", i), confs[r.Intn(len(confs))], ws[i*step], r)
	})
	workload{points: true}.run(c, confs[1:2], func(where string, cf *conf, in string, r *rand.Rand) {
		if p := []rune(in)[0]; !c.Thorough && (p > 0x10000 || p%3 != 0) {
			return
		}
		f(where, cf, in, r)
	})
}

func runC08(c *Ctx) {
	c.Rule("a case is (configuration, text): all entry points (Tokenize, Analyze, Wakati, Dot, AnalyzeGraph; with and without markers; full and shrunk dictionary) observed on the same text and compared pairwise; non-trivial: at least two tokens besides the markers")
	calls := c.Counter("entry_point_calls")
	cmp := c.Counter("tokens_compared")
	strip := func(ts []tokenizer.Token) []tokenizer.Token {
		var out []tokenizer.Token
		for _, t := range ts {
			if t.ID == tokenizer.BosEosID && t.Class == tokenizer.DUMMY {
				continue
			}
			t.Index = len(out)
			out = append(out, t)
		}
		return out
	}
	f := func(where string, cf *conf, in string, r *rand.Rand) {
		c.Guard(where, in, func() {
			fail := func(what, msg string) {
				if msg != "" {
					c.Fail(where, what, in, "%s", msg)
				}
			}
			nor := cf.t.Analyze(in, tokenizer.Normal)
			fail("Tokenize differs from Analyze(Normal)", sameTokens(cf.t.Tokenize(in), nor))
			plain := strip(nor)
			if len(nor) != len(plain)+2 {
				fail("markers", fmt.Sprintf("%d tokens, %d of them without markers", len(nor), len(plain)))
			}
			fail("Tokenize without markers", sameTokens(cf.o.Tokenize(in), plain))
			for k, t := range []*tokenizer.Tokenizer{cf.t, cf.o} {
				w := t.Wakati(in)
				if len(w) != len(plain) {
					fail(fmt.Sprintf("Wakati (omit=%v)", k == 1), fmt.Sprintf("%d words, %d tokens: %q / %v", len(w), len(plain), w, plain))
				}
				for i := range w {
					if w[i] != plain[i].Surface {
						fail("Wakati", fmt.Sprintf("word %d is %q, token %v", i, w[i], plain[i]))
						break
					}
				}
			}
			calls.Add(5)
			cmp.Add(int64(len(nor)))
			ms := modes
			if len(in) > 600 {
				ms = modes[r.Intn(3):][:1]
			} else if r.Intn(10) == 0 {
				ms = append(append([]tokenizer.TokenizeMode{}, modes...), oddModes[r.Intn(len(oddModes))])
			}
			for _, m := range ms {
				a := cf.t.Analyze(in, m)
				b := cf.o.Analyze(in, m)
				fail(fmt.Sprintf("omitting markers in mode %d", m), sameTokens(b, strip(a)))
				if len(in) < 3000 {
					fail(fmt.Sprintf("AnalyzeGraph in mode %d", m), sameTokens(cf.t.AnalyzeGraph(discard{}, in, m), a))
					fail(fmt.Sprintf("AnalyzeGraph without markers in mode %d", m), sameTokens(cf.o.AnalyzeGraph(discard{}, in, m), b))
					calls.Add(2)
				}
				calls.Add(2)
				cmp.Add(int64(2 * len(a)))
			}
			if len(in) < 3000 {
				fail("Dot", sameTokens(cf.t.Dot(discard{}, in), nor))
				fail("Dot without markers", sameTokens(cf.o.Dot(discard{}, in), plain))
				calls.Add(2)
			}
			// without contents
			if cf.m.d.Contents != nil && (cf.m.s != nil || r.Intn(4) == 0) {
				d := *cf.m.d
				d.Contents = nil
				sh := newConf("shrunk", &d, cf.m.s, cf.m.u)
				m := modes[r.Intn(3)]
				a, b := cf.t.Analyze(in, m), sh.t.Analyze(in, m)
				fail(fmt.Sprintf("without contents, mode %d", m), sameTokens(a, b))
				if sh.m.u == nil || true {
					fail("without contents, graph", sameTokens(sh.t.AnalyzeGraph(discard{}, in, m), a))
				}
				c.Count("shrunk_comparisons", 1)
				calls.Add(2)
			}
			c.Eval(hashStr(confKey(cf), in), len(plain) >= 2)
			if len(plain) > 3 && len(in) < 100 {
				c.Sample(sampleTokens(cf, in, "all", nor))
			}
		})
	}
	confs := stdConfs(c, true)
	workload{short: c.N(5000, 150000), runs: c.N(150, 3000), frag3: 3, synths: c.N(4000, 150000), perSynth: 10, user: true, docs: c.N(6, 60), docSize: 100000}.run(c, confs, f)
	ws := words(ipaDict())
	step := c.N(10, 1)
	c.Run("words", len(ws)/step, func(i int, r *rand.Rand) {
		f(fmt.Sprintf("words/%d", i), confs[r.Intn(len(confs))], ws[i*step], r)
	})
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

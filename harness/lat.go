package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// stdConfs are the big dictionaries.
func stdConfs(c *Ctx, withUni bool) []*conf {
	cs := []*conf{newConf("ipa", ipaDict(), nil, nil)}
	if withUni {
		cs = append(cs, newConf("uni", uniDict(), nil, nil))
	}
	return cs
}

var fragments = []string{"a", "!", "1", "あ", "ア", "漢", "。", " ", "\n", "\uFFFD", "\xff", "\xe3\x81", "𠮷", "\x00", "ー", "\"", "々"}

// texts drives a workload of texts over the given configurations: f gets every text. kinds of
// workload: short texts, runs, exhaustive short fragment strings, synthetic dictionaries, documents.
type workload struct {
	short, runs, frag3, synths, perSynth, docs int
	docSize                                    int
	points                                     bool
	user                                       bool // also with random user dictionaries
	noSynthUser                                bool
}

func (w workload) run(c *Ctx, confs []*conf, f func(where string, cf *conf, in string, r *rand.Rand)) {
	ws := words(ipaDict())
	if w.frag3 > 0 {
		var list []string
		list = append(list, "")
		for _, a := range fragments {
			list = append(list, a)
			for _, b := range fragments {
				list = append(list, a+b)
				if w.frag3 > 2 {
					for _, x := range fragments {
						list = append(list, a+b+x)
					}
				}
			}
		}
		c.Run("fragments", len(list), func(i int, r *rand.Rand) {
			for _, cf := range confs {
				f(fmt.Sprintf("fragments/%d %s", i, cf.name), cf, list[i], r)
			}
		})
	}
	if w.points {
		const block = 256
		step := 1
		c.Run("codepoints", 0x110000/block, func(i int, r *rand.Rand) {
			for k := 0; k < block; k += step {
				p := rune(i*block + k)
				if !utf8.ValidRune(p) {
					continue
				}
				if p >= 0x30000 && p < 0x10FF00 && k%64 != 0 { // unassigned planes: sampled
					continue
				}
				for _, cf := range confs {
					f(fmt.Sprintf("codepoint/U+%04X %s", p, cf.name), cf, string(p), r)
				}
			}
		})
	}
	c.Run("short", w.short, func(i int, r *rand.Rand) {
		in := genText(r, ws, []int{6, 20, 60, 200}[r.Intn(4)])
		for _, cf := range confs {
			use := cf
			if w.user && r.Intn(2) == 0 {
				u := genUserDict(r, []string{in, in, corpusSlice(r, 50)})
				use = newConf(cf.name+"+user", cf.m.d, cf.m.s, u)
			}
			f(fmt.Sprintf("short/%d %s", i, use.name), use, in, r)
		}
	})
	c.Run("runs", w.runs, func(i int, r *rand.Rand) {
		in := genRun(r)
		cf := confs[r.Intn(len(confs))]
		f(fmt.Sprintf("runs/%d %s", i, cf.name), cf, in, r)
	})
	c.Run("synthetic", w.synths, func(i int, r *rand.Rand) {
		s := genSynth(r)
		cf := newConf("synthetic", s.D, s, nil)
		var texts []string
		for k := 0; k < w.perSynth; k++ {
			texts = append(texts, s.text(r))
		}
		var cu *conf
		if w.user && !w.noSynthUser {
			cu = newConf("synthetic+user", s.D, s, genUserDict(r, append(texts, strings.Join(s.Alphabet, ""))))
		}
		for k, in := range texts {
			use := cf
			if cu != nil && r.Intn(2) == 0 {
				use = cu
			}
			f(fmt.Sprintf("synthetic/%d/%d %s", i, k, use.name), use, in, r)
		}
	})
	c.RunP("docs", w.docs, 4, func(i int, r *rand.Rand) {
		size := w.docSize/4 + r.Intn(w.docSize)
		in := genDoc(r, size)
		cf := confs[i%len(confs)]
		if w.user && r.Intn(2) == 0 {
			cf = newConf(cf.name+"+user", cf.m.d, nil, genUserDict(r, []string{"ABC", "BC", "a!", in[len(in)-min(len(in), 60):]}))
		}
		f(fmt.Sprintf("docs/%d %s", i, cf.name), cf, in, r)
	})
}

func nontrivialText(in string, toks []tokenizer.Token) bool { return len(toks) >= 4 }

func confKey(cf *conf) string {
	k := cf.name
	if cf.m.s != nil {
		k += strings.Join(cf.m.s.Keys, "|")
	}
	if cf.m.u != nil {
		for _, v := range cf.m.u.Recs {
			k += "|" + v.Text
		}
	}
	return k
}

func init() {
	checks["C01"] = check{run: runC01}
	checks["C02"] = check{run: runC02}
	checks["C03"] = check{run: runC03}
	checks["C04"] = check{run: runC04}
}

func sampleTokens(cf *conf, in string, mode any, toks []tokenizer.Token) map[string]any {
	var ss []string
	for i, t := range toks {
		if i == 12 {
			ss = append(ss, "...")
			break
		}
		ss = append(ss, t.String())
	}
	return map[string]any{"conf": cf.name, "mode": fmt.Sprint(mode), "input": clip(fmt.Sprintf("%q", in), 200), "tokens": ss}
}

func runC01(c *Ctx) {
	c.Rule("a case is (configuration, text, mode, marker option); texts are corpus slices, category-random, dictionary words, damaged and raw bytes, runs at boundary lengths, all code points, all strings of <=3 nasty fragments, long documents; non-trivial: at least two tokens besides the markers")
	tokens := c.Counter("tokens_checked")
	bytes := c.Counter("input_bytes")
	invalid := c.Counter("inputs_with_invalid_utf8")
	one := func(where string, cf *conf, in string, mode tokenizer.TokenizeMode, omit bool) {
		t := cf.t
		if omit {
			t = cf.o
		}
		c.Guard(where, in, func() {
			toks := t.Analyze(in, mode)
			if msg := checkTiling(in, toks, omit); msg != "" {
				c.Fail(fmt.Sprintf("%s mode=%d omit=%v", where, mode, omit), "tokens do not tile the input", in, "%s", msg)
			}
			tokens.Add(int64(len(toks)))
			bytes.Add(int64(len(in)))
			if !utf8.ValidString(in) {
				invalid.Add(1)
			}
			c.Eval(hashStr(confKey(cf), in, fmt.Sprint(mode, omit)), nontrivialText(in, toks))
			if len(toks) > 5 && len(in) < 100 {
				c.Sample(sampleTokens(cf, in, mode, toks))
			}
		})
	}
	f := func(where string, cf *conf, in string, r *rand.Rand) {
		if len(in) > 20000 {
			one(where, cf, in, modes[r.Intn(3)], r.Intn(2) == 0)
			return
		}
		omit := r.Intn(3) == 0
		for _, m := range modes {
			one(where, cf, in, m, omit)
		}
		if r.Intn(10) == 0 {
			one(where, cf, in, oddModes[r.Intn(len(oddModes))], omit)
		}
	}
	confs := stdConfs(c, true)
	confs = append(confs, newConf("ipa-shrunk", shrunkIPA(), nil, nil))
	workload{short: c.N(12000, 400000), runs: c.N(600, 8000), frag3: 3, synths: c.N(2500, 100000), perSynth: 12,
		docs: c.N(10, 80), docSize: 300000, user: true}.run(c, confs, f)
	workload{points: true}.run(c, confs[:1], f)
	// saturation of an int32 cost: > 2^31 with an unreachable user word at the end
	ud := newUserDict([]dict.UserDicRecord{
		{Text: "AB", Tokens: []string{"AB"}, Yomi: []string{"x"}, Pos: "p"},
		{Text: "BC", Tokens: []string{"BC"}, Yomi: []string{"x"}, Pos: "p"},
		{Text: "C", Tokens: []string{"C"}, Yomi: []string{"x"}, Pos: "p"},
	})
	sat := []*conf{newConf("ipa", ipaDict(), nil, nil), newConf("ipa+user", ipaDict(), nil, ud)}
	c.RunP("saturate", c.N(6, 24), 3, func(i int, r *rand.Rand) {
		in := strings.Repeat(pick(r, []string{"a!", "漢!", "あ＠"}), 160000+r.Intn(200000)) + pick(r, []string{"ABC", "ABCABCA", "吾輩は猫である", ""})
		f(fmt.Sprintf("saturate/%d", i), sat[i%2], in, r)
	})
}

func runC02(c *Ctx) {
	c.Rule("a case is (dictionary, text) analysed in normal mode and compared with the int64 reference model over independently generated candidates; non-trivial: more candidates than tokens (a real choice) and at least two tokens besides the markers")
	c.Assume("the kagome-dict index search and matrices are correct (dependency outside the repository)")
	judgeModes(c, []tokenizer.TokenizeMode{tokenizer.Normal}, workload{short: c.N(16000, 400000), runs: c.N(300, 5000), frag3: 3, synths: c.N(12000, 400000), perSynth: 16, docs: c.N(8, 60), docSize: 400000}, true)
}

// judgeModes runs a workload against the model.
func judgeModes(c *Ctx, ms []tokenizer.TokenizeMode, w workload, saturate bool) {
	ncand := c.Counter("candidates_evaluated")
	tokens := c.Counter("tokens_checked")
	paths := c.Counter("paths_compared_with_optimum")
	ties := c.Counter("unknown_tokens")
	f := func(where string, cf *conf, in string, r *rand.Rand) {
		for _, mode := range ms {
			c.Guard(where, in, func() {
				toks := cf.t.Analyze(in, mode)
				opt, n, msg := cf.m.judge(in, toks, mode == tokenizer.Search)
				if msg != "" {
					c.Fail(fmt.Sprintf("%s mode=%d", where, mode), "not a least-cost path of candidates", in, "%s; tokens %v", msg, clip(fmt.Sprint(toks), 1500))
				} else if len(in) > 0 && len(toks) == 2 {
					c.Fail(fmt.Sprintf("%s mode=%d", where, mode), "text lost", in, "tokens %v", toks)
				} else if t := checkTiling(in, toks, false); t != "" {
					c.Fail(fmt.Sprintf("%s mode=%d", where, mode), "path does not cover the text", in, "%s", t)
				}
				ncand.Add(int64(n))
				tokens.Add(int64(len(toks)))
				paths.Add(1)
				for _, t := range toks {
					if t.Class == tokenizer.UNKNOWN {
						ties.Add(1)
					}
				}
				c.Max("max_abs_optimum", int(max(opt, -opt)))
				c.Eval(hashStr(confKey(cf), in, fmt.Sprint(mode)), len(toks) >= 4 && n > len(toks)-2)
				if len(toks) > 5 && len(in) < 100 {
					s := sampleTokens(cf, in, mode, toks)
					s["least_cost"] = opt
					c.Sample(s)
				}
			})
		}
	}
	confs := stdConfs(c, true)
	w.run(c, confs, f)
	if saturate {
		c.RunP("saturate", c.N(4, 16), 2, func(i int, r *rand.Rand) {
			cf := confs[i%len(confs)]
			in := strings.Repeat(pick(r, []string{"a!", "漢!", "あ＠"}), 160000+r.Intn(100000)) + corpusSlice(r, 3000)
			f(fmt.Sprintf("saturate/%d", i), cf, in, r)
		})
		// very negative totals
		c.RunP("saturate-neg", c.N(2, 8), 2, func(i int, r *rand.Rand) {
			s := genSynth(r)
			for k := range s.D.Morphs {
				s.D.Morphs[k].Weight = int16(-30000 - r.Intn(2000))
			}
			for k := range s.D.UnkDict.Morphs {
				s.D.UnkDict.Morphs[k].Weight = int16(-30000 - r.Intn(2000))
			}
			in := strings.Repeat(strings.Join(s.Alphabet, ""), 100000/len(s.Alphabet)) + s.text(r)
			f(fmt.Sprintf("saturate-neg/%d", i), newConf("synthetic-negative", s.D, s, nil), in, r)
		})
	}
}

func sameTokens(a, b []tokenizer.Token) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d tokens against %d: %v / %v", len(a), len(b), clip(fmt.Sprint(a), 600), clip(fmt.Sprint(b), 600))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Index != y.Index || x.ID != y.ID || x.Class != y.Class || x.Position != y.Position || x.Start != y.Start || x.End != y.End || x.Surface != y.Surface {
			return fmt.Sprintf("token %d: %v against %v", i, x, y)
		}
	}
	return ""
}

// expand is the definition of extended mode on a search-mode result.
func expand(toks []tokenizer.Token) []tokenizer.Token {
	var out []tokenizer.Token
	for _, t := range toks {
		if t.Class != tokenizer.UNKNOWN {
			t.Index = len(out)
			out = append(out, t)
			continue
		}
		p, s := t.Position, t.Start
		for k := 0; k < len(t.Surface); {
			_, w := utf8.DecodeRuneInString(t.Surface[k:])
			out = append(out, tokenizer.Token{Index: len(out), ID: t.ID, Class: tokenizer.DUMMY, Position: p + k, Start: s, End: s + 1, Surface: t.Surface[k : k+w]})
			s++
			k += w
		}
	}
	return out
}

func runC03(c *Ctx) {
	c.Rule("a case is (dictionary, text, mode): search mode against the model with the stated penalties, extended mode against the expansion of the search result, out-of-range modes against normal mode; non-trivial: search and normal mode differ, or an unknown word of more than one character was unigrammed")
	diff := c.Counter("texts_where_search_differs_from_normal")
	uni := c.Counter("unknown_words_unigrammed")
	pen := c.Counter("penalised_candidates_on_path")
	ncand := c.Counter("candidates_evaluated")
	f := func(where string, cf *conf, in string, r *rand.Rand) {
		c.Guard(where, in, func() {
			sea := cf.t.Analyze(in, tokenizer.Search)
			_, n, msg := cf.m.judge(in, sea, true)
			ncand.Add(int64(n))
			if msg == "" {
				msg = checkTiling(in, sea, false)
			}
			if msg != "" {
				c.Fail(where+" search", "not a least-cost path of candidates with penalties", in, "%s; tokens %v", msg, clip(fmt.Sprint(sea), 1500))
			}
			ext := cf.t.Analyze(in, tokenizer.Extended)
			if msg := sameTokens(ext, expand(sea)); msg != "" {
				c.Fail(where+" extended", "extended mode is not the search result with unigrammed unknown words", in, "%s", msg)
			}
			for _, t := range ext {
				if t.Class == tokenizer.DUMMY && (len(t.Features()) != 0 || len(t.POS()) != 0) {
					c.Fail(where+" extended", "unigram has features", in, "%v %v", t, t.Features())
				}
			}
			nor := cf.t.Analyze(in, tokenizer.Normal)
			k := 1
			if r.Intn(4) == 0 {
				om := oddModes[r.Intn(len(oddModes))]
				if msg := sameTokens(cf.t.Analyze(in, om), nor); msg != "" {
					c.Fail(where+fmt.Sprintf(" mode=%d", om), "unknown mode is not normal mode", in, "%s", msg)
				}
				k++
			}
			d := sameTokens(nor, sea) != ""
			if d {
				diff.Add(1)
				c.Sample(map[string]any{"conf": cf.name, "input": clip(fmt.Sprintf("%q", in), 120), "normal": clip(fmt.Sprint(nor), 300), "search": clip(fmt.Sprint(sea), 300)})
			}
			multi := false
			for _, t := range sea {
				if t.Class == tokenizer.UNKNOWN && t.End-t.Start > 1 {
					multi = true
					uni.Add(1)
				}
				if t.ID != tokenizer.BosEosID && penalty(t.Surface) > 0 {
					pen.Add(1)
				}
			}
			c.Eval(hashStr(confKey(cf), in), d || multi)
		})
	}
	confs := stdConfs(c, true)
	ws := words(ipaDict())
	var long []string
	for _, w := range ws {
		if penalty(w) > 0 {
			long = append(long, w)
		}
	}
	// dictionary words that carry a penalty, alone and in context
	c.Run("longwords", c.N(3000, len(long)), func(i int, r *rand.Rand) {
		in := long[r.Intn(len(long))]
		if c.Thorough {
			in = long[i]
		}
		if r.Intn(2) == 0 {
			in = corpusSlice(r, 8) + in + corpusSlice(r, 8)
		}
		for _, cf := range confs {
			f(fmt.Sprintf("longwords/%d %s", i, cf.name), cf, in, r)
		}
		if i%4 == 0 { // words of a user dictionary carry penalties like any other
			cf := confs[r.Intn(len(confs))]
			f(fmt.Sprintf("longwords/%d %s+user", i, cf.name), newConf(cf.name+"+user", cf.m.d, cf.m.s, genUserDict(r, []string{in})), in, r)
		}
	})
	workload{short: c.N(6000, 200000), runs: c.N(200, 3000), frag3: 2, synths: c.N(8000, 300000), perSynth: 12, docs: c.N(4, 40), docSize: 200000, user: true}.run(c, confs, f)
	c.RunP("saturate", c.N(2, 8), 2, func(i int, r *rand.Rand) {
		in := strings.Repeat(pick(r, []string{"a!", "漢!", "あ＠"}), 160000+r.Intn(100000)) + corpusSlice(r, 3000)
		f(fmt.Sprintf("saturate/%d", i), confs[i%len(confs)], in, r)
	})
}

func runC04(c *Ctx) {
	c.Rule("a case is (dictionary, random user dictionary cut out of the text, text, mode) against the model with user precedence, plus the comparison with no user dictionary where no entry occurs; non-trivial: at least one user token on the path")
	utok := c.Counter("user_tokens_checked")
	free := c.Counter("texts_without_any_entry")
	ncand := c.Counter("candidates_evaluated")
	supp := c.Counter("user_candidates_not_on_path")
	f := func(where string, cf *conf, in string, r *rand.Rand) {
		if cf.m.u == nil {
			cf = newConf(cf.name+"+user", cf.m.d, cf.m.s, genUserDict(r, []string{in, corpusSlice(r, 40)}))
		}
		ud := cf.m.u
		for _, mode := range modes {
			w := fmt.Sprintf("%s mode=%d", where, mode)
			c.Guard(w, in, func() {
				toks := cf.t.Analyze(in, mode)
				msg := ""
				n := 0
				if mode != tokenizer.Extended {
					_, n, msg = cf.m.judge(in, toks, mode == tokenizer.Search)
				} else {
					msg = sameTokens(toks, expand(cf.t.Analyze(in, tokenizer.Search)))
				}
				if msg == "" {
					msg = checkTiling(in, toks, false)
				}
				if msg != "" {
					c.Fail(w, "not a least-cost path with user words first", in, "%s; user entries %v; tokens %v", msg, clip(fmt.Sprint(ud.Recs), 1000), clip(fmt.Sprint(toks), 1500))
				}
				ncand.Add(int64(n))
				nu := 0
				for _, t := range toks {
					if t.Class != tokenizer.USER {
						continue
					}
					nu++
					if t.ID < 0 || t.ID >= len(ud.Recs) {
						c.Fail(w, "user token without entry", in, "%v", t)
						continue
					}
					rec := ud.Recs[t.ID]
					x := t.UserExtra()
					want := []string{rec.Pos, strings.Join(rec.Tokens, "/"), strings.Join(rec.Yomi, "/")}
					switch {
					case t.Surface != rec.Text:
						msg = "surface is not the entry's"
					case x == nil || !tokenizer.EqualFeatures(x.Tokens, rec.Tokens) || !tokenizer.EqualFeatures(x.Readings, rec.Yomi):
						msg = fmt.Sprintf("extras %+v", x)
					case !tokenizer.EqualFeatures(t.POS(), want[:1]):
						msg = fmt.Sprintf("part of speech %v", t.POS())
					case !tokenizer.EqualFeatures(t.Features(), want):
						msg = fmt.Sprintf("features %v", t.Features())
					}
					for i := -1; i < 5; i++ {
						s, ok := t.FeatureAt(i)
						if i >= 0 && i < 3 && (!ok || s != want[i]) || (i < 0 || i >= 3) && (ok || s != "") {
							msg = fmt.Sprintf("feature %d is %q, %v", i, s, ok)
						}
					}
					if msg != "" {
						c.Fail(w, "user token does not report its entry", in, "%v, entry %+v: %s", t, rec, msg)
					}
				}
				utok.Add(int64(nu))
				if n > 0 {
					bs, _ := cf.m.cands(in)
					k := 0
					for _, l := range bs {
						for _, x := range l {
							if x.Class == tokenizer.USER {
								k++
							}
						}
					}
					supp.Add(int64(k - nu))
					if k == 0 {
						free.Add(1)
						plain := newConf("plain", cf.m.d, cf.m.s, nil)
						if msg := sameTokens(toks, plain.t.Analyze(in, mode)); msg != "" {
							c.Fail(w, "user dictionary without match changes the result", in, "%s; user entries %v", msg, clip(fmt.Sprint(ud.Recs), 1000))
						}
					}
				}
				c.Eval(hashStr(confKey(cf), in, fmt.Sprint(mode)), nu > 0)
				if nu > 0 && len(in) < 100 {
					s := sampleTokens(cf, in, mode, toks)
					s["user"] = clip(fmt.Sprint(ud.Recs), 300)
					c.Sample(s)
				}
			})
		}
	}
	workload{short: c.N(10000, 300000), runs: c.N(100, 2000), frag3: 2, synths: c.N(9000, 300000), perSynth: 12, docs: c.N(6, 40), docSize: 200000, user: true}.run(c, stdConfs(c, c.Thorough), f)
	// user words against an int32-sized cost of the rest
	ud := newUserDict([]dict.UserDicRecord{
		{Text: "AB", Tokens: []string{"AB"}, Yomi: []string{"x"}, Pos: "p"},
		{Text: "BC", Tokens: []string{"BC"}, Yomi: []string{"x"}, Pos: "p"},
		{Text: "C", Tokens: []string{"C"}, Yomi: []string{"x"}, Pos: "p"},
	})
	c.RunP("saturate", c.N(2, 6), 2, func(i int, r *rand.Rand) {
		in := strings.Repeat(pick(r, []string{"a!", "漢!"}), 150000+r.Intn(100000)) + "ABCABC" + corpusSlice(r, 30)
		f(fmt.Sprintf("saturate/%d", i), newConf("ipa+user", ipaDict(), nil, ud), in, r)
	})
}

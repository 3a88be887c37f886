package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// What the same cases show on different platforms. This file is part of the observer for other
// platforms (plat_main.go), so it must not depend on the operating system.

// seen is one observed result of a case.
type seen struct{ what, text string }

var platConfs = sync.OnceValue(func() []*conf {
	return []*conf{newConf("ipa", ipaDict(), nil, nil), newConf("ipa-shrunk", shrunkIPA(), nil, nil)}
})

// platObserve runs a case. The input identifies it: it must be the same on all platforms.
func platObserve(c *Ctx, stream string, i int) (input string, res []seen) {
	r := c.Rand("plat "+stream, i)
	add := func(what string, f func() string) {
		defer func() {
			if p := recover(); p != nil {
				res = append(res, seen{what, fmt.Sprint("panic: ", p)})
			}
		}()
		res = append(res, seen{what, f()})
	}
	cf := platConfs()[0]
	switch stream {
	case "short":
		cf = platConfs()[r.Intn(2)]
		in := genText(r, nil, []int{6, 20, 60, 200}[r.Intn(4)])
		platTokens(cf, in, add, true)
		return in, res
	case "words":
		ws := words(ipaDict())
		in := ws[r.Intn(len(ws))] + pick(r, []string{"", ws[r.Intn(len(ws))]})
		platTokens(cf, in, add, true)
		return in, res
	case "runs":
		in := genRun(r)
		platTokens(cf, in, add, false)
		return in, res
	case "user":
		in := genText(r, nil, 60)
		u := genUserDict(r, []string{in, in, corpusSlice(r, 50)})
		platTokens(newConf("ipa+user", ipaDict(), nil, u), in, add, true)
		return in + fmt.Sprint(u.Recs), res
	case "synthetic":
		s := genSynth(r)
		in := s.text(r)
		var u *userDict
		if r.Intn(2) == 0 {
			u = genUserDict(r, []string{in, strings.Join(s.Alphabet, "")})
		}
		platTokens(newConf("synthetic", s.D, s, u), in, add, true)
		return in + fmt.Sprint(s.Keys), res
	case "docs":
		in := genDoc(r, 20000+r.Intn(100000))
		platTokens(cf, in, add, false)
		return in, res
	case "saturate": // the total cost passes the range of 32 bits
		in := strings.Repeat([]string{"a!", "漢!", "あ＠"}[i%3], 160000+r.Intn(20000)) + corpusSlice(r, 3000)
		add("tokens", func() string {
			var b strings.Builder
			for _, t := range cf.t.Analyze(in, modes[i%2]) {
				fmt.Fprintln(&b, t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface)
			}
			return b.String()
		})
		return in, res
	case "split":
		s, in := genRules(r), genSplitText(r, 80)
		if r.Intn(8) == 0 {
			s, in = genLong(r)
		}
		p := plan{eofWith: r.Intn(2) == 0}
		for k := 0; k < len(in); k += 1 + r.Intn(20) {
			p.cuts = append(p.cuts, k)
		}
		for _, p := range []plan{{}, p} {
			p := p
			add("sentences", func() string {
				sc := bufio.NewScanner(&planReader{text: in, p: p, ends: map[int]bool{}})
				sc.Split(s.fn())
				var b strings.Builder
				for sc.Scan() {
					fmt.Fprintf(&b, "%q\n", sc.Text())
				}
				fmt.Fprintln(&b, sc.Err())
				return b.String()
			})
		}
		return in + s.String(), res
	case "filter":
		in := corpusSlice(r, 300)
		if r.Intn(2) == 0 { // long words, up to several hundred bytes
			in += strings.Repeat(pick(r, []string{"a", "ア", "1", "猫"}), r.Intn(100)) + corpusSlice(r, 30) + genRun(r)
		}
		toks := cf.t.Analyze(in, modes[r.Intn(3)])
		var ps []filter.Features
		for k := r.Intn(6); k > 0; k-- {
			p := filter.Features(append([]string{}, toks[r.Intn(len(toks))].Features()...))
			p = p[:min(len(p), r.Intn(6))]
			for x := range p {
				if r.Intn(3) == 0 {
					p[x] = filter.Any
				}
			}
			ps = append(ps, p)
		}
		words := []string{"の", "、", toks[r.Intn(len(toks))].Surface, strings.Repeat("ア", r.Intn(40))}
		for _, t := range toks {
			if len(t.Surface) > 20 && r.Intn(2) == 0 {
				words = append(words, t.Surface)
			}
		}
		show := func(ts []tokenizer.Token) string {
			var b strings.Builder
			for _, t := range ts {
				fmt.Fprintln(&b, t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface)
			}
			return b.String()
		}
		both := func(name string, keep, drop func(*[]tokenizer.Token)) {
			add(name, func() string {
				a, b := append([]tokenizer.Token{}, toks...), append([]tokenizer.Token{}, toks...)
				keep(&a)
				drop(&b)
				return show(a) + "---\n" + show(b)
			})
		}
		pf := filter.NewPOSFilter(ps...)
		both("part-of-speech filter", pf.Keep, pf.Drop)
		wf := filter.NewWordFilter(words)
		both("word filter", wf.Keep, wf.Drop)
		add("feature filter", func() string {
			ff := filter.NewFeaturesFilter(ps...)
			var b strings.Builder
			for _, t := range toks {
				fmt.Fprint(&b, ff.Match(t.Features()))
			}
			return b.String()
		})
		add("search filter", func() string {
			f, err := ja.NewFilter()
			if err != nil {
				return err.Error()
			}
			a := append([]tokenizer.Token{}, toks...)
			y := f.Yield(toks)
			f.Drop(&a)
			return fmt.Sprintf("%q\n%s", y, show(a))
		})
		return in + fmt.Sprint(ps, words), res
	}
	return "", nil
}

// platTokens observes all that there is to see about an input.
func platTokens(cf *conf, in string, add func(string, func() string), graph bool) {
	show := func(ts []tokenizer.Token) string {
		var b strings.Builder
		for _, t := range ts {
			fmt.Fprintf(&b, "%d %d %v %d %d %d %q ", t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface)
			fmt.Fprintf(&b, "%q %q ", t.Features(), t.POS())
			for _, f := range []func() (string, bool){t.BaseForm, t.Reading, t.Pronunciation, t.InflectionalType, t.InflectionalForm} {
				s, ok := f()
				fmt.Fprintf(&b, "%q %v ", s, ok)
			}
			for _, k := range []int{-1, 0, 3, 6, 8, 9, 40} {
				s, ok := t.FeatureAt(k)
				fmt.Fprintf(&b, "%q %v ", s, ok)
			}
			if x := t.UserExtra(); x != nil {
				fmt.Fprintf(&b, "%q %q ", x.Tokens, x.Readings)
			}
			j, err := json.Marshal(tokenizer.NewTokenData(t))
			fmt.Fprintf(&b, "%s %v\n", j, err)
		}
		return b.String()
	}
	for _, m := range append(append([]tokenizer.TokenizeMode{}, modes...), 7) {
		m := m
		add(fmt.Sprintf("tokens in mode %d", m), func() string { return show(cf.t.Analyze(in, m)) })
	}
	add("tokens without markers", func() string { return show(cf.o.Tokenize(in)) })
	add("words", func() string { return fmt.Sprintf("%q", cf.t.Wakati(in)) })
	if !graph {
		return
	}
	for _, m := range modes[:2] {
		m := m
		add(fmt.Sprintf("graph in mode %d", m), func() string {
			var b strings.Builder
			ts := cf.t.AnalyzeGraph(&b, in, m)
			g, err := canonDot(b.String())
			if err != nil {
				return err.Error()
			}
			return show(ts) + g
		})
	}
}

// canonDot is a graph without the names of the nodes.
func canonDot(s string) (string, error) {
	g, err := parseDot(s)
	if err != nil {
		return "", err
	}
	attrs := func(m map[string]string) string {
		var ks []string
		for k, v := range m {
			ks = append(ks, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	names := map[string]int{}
	var b strings.Builder
	for i, n := range g.Nodes {
		names[n.ID] = i
		fmt.Fprintf(&b, "node %d %s\n", i, attrs(n.Attrs))
	}
	for _, e := range g.Edges {
		fmt.Fprintf(&b, "edge %d %d %s\n", names[e.From], names[e.To], attrs(e.Attrs))
	}
	return b.String(), nil
}

// platLine is a case as one line.
func platLine(c *Ctx, stream string, i int) string {
	in, res := platObserve(c, stream, i)
	var b strings.Builder
	fmt.Fprintf(&b, "%s %d %x", stream, i, hashStr(in))
	for _, s := range res {
		fmt.Fprintf(&b, " %s %x", strings.ReplaceAll(s.what, " ", "_"), hashStr(s.text))
	}
	return b.String()
}

package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	checks["C10"] = check{run: runC10}
	checks["C11"] = check{run: runC11}
	checks["C14"] = check{run: runC14}
}

// matches is the meaning of a pattern set.
func matches(patterns [][]string, v []string) bool {
next:
	for _, p := range patterns {
		if len(p) == 0 || len(p) > len(v) {
			continue
		}
		for i, x := range p {
			if x != filter.Any && x != v[i] {
				continue next
			}
		}
		return true
	}
	return false
}

func clonePatterns(ps [][]string) [][]string {
	out := make([][]string, len(ps))
	for i := range ps {
		out[i] = append([]string{}, ps[i]...)
	}
	return out
}

func runC10(c *Ctx) {
	c.Rule("a case is a pattern list (exhaustive: all ordered lists of <=3 patterns of length <=2 over {a,b,*}; random: larger lists, deeper patterns, real parts of speech; permuted, repeated) matched against all or many vectors, for the feature filter and the part-of-speech filter, twice; non-trivial: some vector matches and some does not")
	evals := c.Counter("matches_compared")
	hit := c.Counter("matches_positive")
	overlap := c.Counter("pattern_lists_with_wildcard_and_exact_overlap")
	one := func(where string, ps [][]string, vs [][]string) {
		c.Guard(where, fmt.Sprintf("%q", ps), func() {
			given := clonePatterns(ps)
			f := filter.NewFeaturesFilter(given...)
			p := filter.NewPOSFilter(given...)
			for i := range given { // the filter must not depend on the caller's slices afterwards
				for j := range given[i] {
					given[i][j] = "zzz"
				}
			}
			pos, neg := false, false
			for round := 0; round < 2; round++ {
				for _, v := range vs {
					want := matches(ps, v)
					vv := append([]string{}, v...)
					if got := f.Match(vv); got != want {
						c.Fail(where, "feature filter", fmt.Sprintf("%q", ps), "round %d: Match(%q) = %v, want %v", round, v, got, want)
						return
					}
					if got := p.Match(vv); got != want {
						c.Fail(where, "part-of-speech filter", fmt.Sprintf("%q", ps), "round %d: Match(%q) = %v, want %v", round, v, got, want)
						return
					}
					if !sameList(vv, v) {
						c.Fail(where, "Match changed its argument", fmt.Sprintf("%q", ps), "%q -> %q", v, vv)
						return
					}
					evals.Add(2)
					if want {
						pos = true
						hit.Add(1)
					} else {
						neg = true
					}
				}
			}
			hasAny, hasExact := false, false
			for _, x := range ps {
				if len(x) > 0 && x[0] == filter.Any {
					hasAny = true
				} else if len(x) > 0 {
					hasExact = true
				}
			}
			if hasAny && hasExact {
				overlap.Add(1)
			}
			c.Eval(hashStr(fmt.Sprintf("%q", ps)), pos && neg)
			if pos && neg {
				c.Sample(map[string]any{"patterns": fmt.Sprintf("%q", ps), "vectors": len(vs)})
			}
		})
	}
	al := []string{"a", "b", filter.Any}
	var pats [][]string
	pats = append(pats, nil)
	for _, x := range al {
		pats = append(pats, []string{x})
		for _, y := range al {
			pats = append(pats, []string{x, y})
		}
	}
	var vecs [][]string
	vecs = append(vecs, nil, []string{})
	va := []string{"a", "b", "c", filter.Any, ""}
	for _, x := range va {
		vecs = append(vecs, []string{x})
		for _, y := range va {
			vecs = append(vecs, []string{x, y})
			for _, z := range va[:3] {
				vecs = append(vecs, []string{x, y, z})
			}
		}
	}
	n := len(pats)
	c.Run("exhaustive", n*n*n+n*n+n+1, func(i int, r *rand.Rand) {
		var ps [][]string
		switch {
		case i < n*n*n:
			ps = [][]string{pats[i%n], pats[i/n%n], pats[i/n/n]}
		case i < n*n*n+n*n:
			i -= n * n * n
			ps = [][]string{pats[i%n], pats[i/n]}
		case i < n*n*n+n*n+n:
			ps = [][]string{pats[i-n*n*n-n*n]}
		}
		one(fmt.Sprintf("exhaustive %q", ps), ps, vecs)
	})
	c.Run("random", c.N(60000, 2000000), func(i int, r *rand.Rand) {
		al := []string{"a", "b", "c", "", "*", "ab", filter.Any, filter.Any}[:2+r.Intn(7)]
		if r.Intn(2) == 0 {
			al = append([]string{filter.Any}, al[:2]...)
		}
		depth := 1 + r.Intn(5)
		mk := func(min int) []string {
			var v []string
			for k := min + r.Intn(depth+1); k > 0; k-- {
				v = append(v, pick(r, al))
			}
			return v
		}
		var ps [][]string
		for k := r.Intn(9); k > 0; k-- {
			p := mk(0)
			ps = append(ps, p)
			switch r.Intn(6) {
			case 0: // a prefix of an earlier pattern
				if len(p) > 0 {
					ps = append(ps, p[:r.Intn(len(p))])
				}
			case 1: // an extension
				ps = append(ps, append(append([]string{}, p...), mk(1)...))
			case 2:
				ps = append(ps, p)
			}
		}
		var vs [][]string
		for k := 0; k < 14; k++ {
			v := mk(0)
			if len(ps) > 0 && r.Intn(2) == 0 { // near a pattern
				v = append([]string{}, ps[r.Intn(len(ps))]...)
				for j := range v {
					if v[j] == filter.Any && r.Intn(4) > 0 || r.Intn(10) == 0 {
						v[j] = pick(r, al)
					}
				}
				switch r.Intn(3) {
				case 0:
					v = append(v, mk(0)...)
				case 1:
					if len(v) > 0 {
						v = v[:len(v)-1]
					}
				}
			}
			vs = append(vs, v)
		}
		one(fmt.Sprintf("random/%d", i), ps, vs)
		for k := 0; k < 2; k++ { // other orders and repetitions
			q := append([][]string{}, ps...)
			r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
			if len(q) > 0 && r.Intn(2) == 0 {
				q = append(q, q[r.Intn(len(q))])
			}
			one(fmt.Sprintf("random/%d/%d", i, k), q, vs)
		}
	})
	// many patterns: wide fan-outs at every depth, long patterns
	c.Run("large", c.N(900, 30000), func(i int, r *rand.Rand) {
		na := []int{3, 10, 30, 100, 400}[r.Intn(5)]
		np := []int{8, 16, 17, 33, 65, 130, 260}[r.Intn(7)] + r.Intn(5)
		depth := []int{1, 2, 3, 4, 8, 20, 40}[r.Intn(7)]
		anyRate := []int{0, 3, 20, 200}[r.Intn(4)]
		val := func() string {
			if anyRate > 0 && r.Intn(anyRate) == 0 {
				return filter.Any
			}
			k := r.Intn(na)
			if r.Intn(3) == 0 {
				k = r.Intn(1 + na/10)
			}
			return []string{"名詞", "動詞", "x", ""}[k%4] + fmt.Sprint(k/4)
		}
		var ps [][]string
		for len(ps) < np {
			var p []string
			if len(ps) > 0 && r.Intn(2) == 0 { // shares a beginning
				q := ps[r.Intn(len(ps))]
				p = append(p, q[:r.Intn(len(q)+1)]...)
			}
			for n := r.Intn(depth + 1); n > 0; n-- {
				p = append(p, val())
			}
			ps = append(ps, p)
		}
		var vs [][]string
		for k := 0; k < 60; k++ {
			v := append([]string{}, ps[r.Intn(len(ps))]...)
			for j := range v {
				if v[j] == filter.Any && r.Intn(6) > 0 || r.Intn(4+len(v)) == 0 {
					for v[j] = val(); v[j] == filter.Any; v[j] = val() {
						if r.Intn(4) == 0 {
							break
						}
					}
				}
			}
			switch r.Intn(4) {
			case 0:
				for n := r.Intn(3); n > 0; n-- {
					v = append(v, val())
				}
			case 1:
				if len(v) > 0 {
					v = v[:r.Intn(len(v))]
				}
			}
			vs = append(vs, v)
		}
		one(fmt.Sprintf("large/%d", i), ps, vs)
	})
	// real parts of speech
	d := ipaDict()
	seen := map[string]bool{}
	var reals [][]string
	for _, p := range d.POSTable.POSs {
		var v []string
		for _, id := range p {
			v = append(v, d.POSTable.NameList[id])
		}
		if k := strings.Join(v, "\x01"); !seen[k] {
			seen[k] = true
			reals = append(reals, v)
		}
	}
	c.Run("pos", c.N(2000, 40000), func(i int, r *rand.Rand) {
		var ps [][]string
		np := 1 + r.Intn(12)
		if i%10 == 0 {
			np = 10 + r.Intn(120)
		}
		for k := np; k > 0; k-- {
			p := append([]string{}, reals[r.Intn(len(reals))]...)
			p = p[:1+r.Intn(len(p))]
			for j := range p {
				if r.Intn(6) == 0 {
					p[j] = filter.Any
				}
			}
			ps = append(ps, p)
		}
		one(fmt.Sprintf("pos/%d", i), ps, reals)
	})
}

func tokKey(t tokenizer.Token) string {
	return fmt.Sprint(t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface)
}

// tokEq says whether two tokens are the same to a user.
func tokEq(a, b tokenizer.Token) bool {
	return a.Index == b.Index && a.ID == b.ID && a.Class == b.Class && a.Position == b.Position && a.Start == b.Start && a.End == b.End && a.Surface == b.Surface &&
		(a.Surface == "guard" || a.Surface == "a" || a.Surface == "b" || a.Class == tokenizer.DUMMY || sameList(a.Features(), b.Features()))
}

// tokenPool is a supply of real tokens of all classes.
func tokenPool(r *rand.Rand, n int) (toks []tokenizer.Token, poss [][]string) {
	texts := []string{}
	for i := 0; i < n; i++ {
		texts = append(texts, genText(r, words(ipaDict()), 60))
	}
	u := genUserDict(r, texts)
	s := genSynth(r)
	for _, cf := range []*conf{newConf("ipa+user", ipaDict(), nil, u), newConf("ipa", ipaDict(), nil, nil), newConf("shrunk", shrunkIPA(), nil, nil), newConf("synthetic", s.D, s, nil)} {
		for _, in := range texts {
			if cf.m.s != nil {
				in = s.text(r)
			}
			for _, t := range cf.t.Analyze(in, modes[r.Intn(3)]) {
				e, err := cf.m.entry(t)
				if err != nil {
					continue
				}
				toks = append(toks, t)
				poss = append(poss, e.pos)
			}
		}
	}
	return
}

func runC11(c *Ctx) {
	c.Rule("a case is (token slice, filter): Keep and Drop of the general, word and part-of-speech filter on copies of the slice, compared with a naive partition; slices are nil, empty, real analyses of all classes and modes, shuffled, repeated, with spare capacity whose contents are watched; non-trivial: both parts non-empty")
	calls := c.Counter("filter_calls")
	ntok := c.Counter("tokens_partitioned")
	same := tokEq
	type app struct {
		name string
		keep func(*[]tokenizer.Token)
		drop func(*[]tokenizer.Token)
		want func(i int) bool // does token i match?
	}
	one := func(where string, src []tokenizer.Token, isNil bool, spare int, a app) {
		c.Guard(where+" "+a.name, "", func() {
			var yes, no []tokenizer.Token
			for i, t := range src {
				if a.want(i) {
					yes = append(yes, t)
				} else {
					no = append(no, t)
				}
			}
			for k, f := range []func(*[]tokenizer.Token){a.keep, a.drop} {
				want := yes
				if k == 1 {
					want = no
				}
				back := make([]tokenizer.Token, len(src)+spare)
				copy(back, src)
				for i := len(src); i < len(back); i++ {
					back[i] = tokenizer.Token{ID: 777000 + i, Surface: "guard"}
				}
				work := back[:len(src)]
				if isNil {
					work = nil
				}
				f(&work)
				calls.Add(1)
				if len(work) != len(want) {
					c.Fail(where, a.name, "", "%s: %d tokens left of %d, want %d: %v / want %v", []string{"Keep", "Drop"}[k], len(work), len(src), len(want), clip(fmt.Sprint(work), 500), clip(fmt.Sprint(want), 500))
					return
				}
				for i := range want {
					if !same(work[i], want[i]) {
						c.Fail(where, a.name, "", "%s: token %d is %v, want %v", []string{"Keep", "Drop"}[k], i, work[i], want[i])
						return
					}
				}
				for i := len(src); i < len(back); i++ {
					if back[i].ID != 777000+i || back[i].Surface != "guard" {
						c.Fail(where, a.name, "", "element %d behind the slice was overwritten: %v", i, back[i])
						return
					}
				}
			}
			ntok.Add(int64(len(src)))
			var sb strings.Builder
			for _, t := range src {
				sb.WriteString(t.Surface + "|")
			}
			c.Eval(hashStr(where, a.name, sb.String()), len(yes) > 0 && len(no) > 0)
			if len(yes) > 0 && len(no) > 0 && len(src) < 12 {
				c.Sample(map[string]any{"filter": a.name, "tokens": fmt.Sprint(src), "matching": fmt.Sprint(yes)})
			}
		})
	}
	general := func(name string, src []tokenizer.Token, pred func(tokenizer.Token) bool) app {
		return app{name: name,
			keep: func(p *[]tokenizer.Token) { filter.Keep(p, pred) },
			drop: func(p *[]tokenizer.Token) { filter.Drop(p, pred) },
			want: func(i int) bool { return pred(src[i]) }}
	}
	c.Guard("nil pointer", "", func() {
		filter.Drop(nil, func(tokenizer.Token) bool { return true })
		filter.Keep(nil, func(tokenizer.Token) bool { return true })
		filter.NewPOSFilter().Drop(nil)
		filter.NewPOSFilter().Keep(nil)
		filter.NewWordFilter(nil).Drop(nil)
		filter.NewWordFilter(nil).Keep(nil)
	})
	// every match pattern of short sequences
	c.Run("masks", 9*512, func(i int, r *rand.Rand) {
		n, mask := i/512, i%512
		src := make([]tokenizer.Token, n)
		for k := range src {
			src[k] = tokenizer.Token{Index: k, ID: k % 3, Surface: string(rune('a' + k%2))}
		}
		one(fmt.Sprintf("masks/%d/%09b", n, mask), src, n == 0 && mask%2 == 0, i%4, general("predicate on index", src, func(t tokenizer.Token) bool { return mask>>t.Index&1 == 1 }))
	})
	c.Run("long", c.N(16, 200), func(i int, r *rand.Rand) {
		n := []int{1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 100000}[r.Intn(9)]
		src := make([]tokenizer.Token, n)
		for k := range src {
			src[k] = tokenizer.Token{Index: k, ID: k, Surface: string(rune('a' + r.Intn(2)))}
		}
		q := 1 + r.Intn(5)
		one(fmt.Sprintf("long/%d", i), src, false, i%3, general("predicate on index", src, func(t tokenizer.Token) bool { return t.Index%q == 0 }))
		wf := filter.NewWordFilter([]string{"a"})
		one(fmt.Sprintf("long/%d", i), src, false, i%3, app{"word a", wf.Keep, wf.Drop, func(i int) bool { return src[i].Surface == "a" }})
	})
	longPool, longPos := tokenPool(c.Rand("long pos", 0), 200)
	c.Run("long pos", c.N(6, 100), func(i int, r *rand.Rand) {
		n := []int{1000, 1024, 4097, 10000, 65537, 100000}[i%6]
		src := make([]tokenizer.Token, n)
		sp := make([][]string, n)
		for k := range src {
			j := r.Intn(len(longPool))
			src[k], sp[k] = longPool[j], longPos[j]
		}
		for k := 0; k < 3; k++ {
			p := longPos[r.Intn(len(longPos))]
			ps := [][]string{p[:min(1, len(p))], longPos[r.Intn(len(longPos))]}
			pf := filter.NewPOSFilter(clonePatterns(ps)...)
			one(fmt.Sprintf("long pos/%d", i), src, false, i%3, app{fmt.Sprintf("pos %q", ps), pf.Keep, pf.Drop, func(i int) bool { return matches(ps, sp[i]) }})
			w := src[r.Intn(n)].Surface
			wf := filter.NewWordFilter([]string{w})
			one(fmt.Sprintf("long pos/%d", i), src, false, i%3, app{"word " + w, wf.Keep, wf.Drop, func(i int) bool { return src[i].Surface == w }})
		}
	})
	c.Run("real", c.N(3000, 30000), func(i int, r *rand.Rand) {
		pool, pos := tokenPool(r, 3)
		for k := 0; k < 12; k++ {
			var src []tokenizer.Token
			var sp [][]string
			switch r.Intn(6) {
			case 0: // contiguous
				s := r.Intn(len(pool))
				e := s + r.Intn(len(pool)-s+1)
				src, sp = append(src, pool[s:e]...), append(sp, pos[s:e]...)
			case 1: // one token many times
				j := r.Intn(len(pool))
				for n := r.Intn(30); n > 0; n-- {
					src, sp = append(src, pool[j]), append(sp, pos[j])
				}
			case 2:
				src = []tokenizer.Token{}
			case 3:
				src = nil
			default: // drawn
				for n := r.Intn(40); n > 0; n-- {
					j := r.Intn(len(pool))
					src, sp = append(src, pool[j]), append(sp, pos[j])
				}
			}
			spare := r.Intn(4)
			where := fmt.Sprintf("real/%d/%d", i, k)
			// words
			var ws []string
			nw := r.Intn(6)
			if r.Intn(8) == 0 {
				nw = r.Intn(300)
			}
			for n := nw; n > 0; n-- {
				w := pool[r.Intn(len(pool))].Surface
				switch r.Intn(8) {
				case 0:
					w += "x"
				case 1:
					w = ""
				case 2:
					w = strings.ToUpper(w)
				case 3:
					w = " " + w
				}
				ws = append(ws, w)
			}
			if len(src) > 0 && r.Intn(2) == 0 {
				ws = append(ws, src[r.Intn(len(src))].Surface)
			}
			if r.Intn(8) == 0 {
				for _, t := range src {
					ws = append(ws, t.Surface)
				}
			}
			set := map[string]bool{}
			for _, w := range ws {
				set[w] = true
			}
			given := append([]string{}, ws...)
			wf := filter.NewWordFilter(given)
			for j := range given {
				given[j] = "changed"
			}
			one(where, src, src == nil, spare, app{"words " + clip(fmt.Sprintf("%q", ws), 300), wf.Keep, wf.Drop, func(i int) bool { return set[src[i].Surface] }})
			for _, w := range append(append([]string{}, ws...), "x", "", "changed") {
				if wf.Match(w) != set[w] {
					c.Fail(where, "word filter Match", w, "%v, words %q", wf.Match(w), ws)
				}
			}
			// parts of speech
			var ps [][]string
			np := r.Intn(5)
			if r.Intn(8) == 0 {
				np = r.Intn(80)
			}
			for n := np; n > 0; n-- {
				p := append([]string{}, pos[r.Intn(len(pos))]...)
				if len(p) > 0 && r.Intn(2) == 0 {
					p = p[:1+r.Intn(len(p))]
				}
				for j := range p {
					if r.Intn(8) == 0 {
						p[j] = filter.Any
					}
				}
				if r.Intn(6) == 0 {
					p = append(p, "*")
				}
				ps = append(ps, p)
			}
			pf := filter.NewPOSFilter(clonePatterns(ps)...)
			one(where, src, src == nil, spare, app{"pos " + clip(fmt.Sprintf("%q", ps), 300), pf.Keep, pf.Drop, func(i int) bool { return matches(ps, sp[i]) }})
			// predicates
			cl := tokenizer.TokenClass(r.Intn(4))
			one(where, src, src == nil, spare, general("class", src, func(t tokenizer.Token) bool { return t.Class == cl }))
			h := r.Uint64()
			one(where, src, src == nil, spare, general("hash", src, func(t tokenizer.Token) bool { return hashStr(t.Surface, fmt.Sprint(t.Position, t.ID, h))&1 == 0 }))
			all := r.Intn(2) == 0
			one(where, src, src == nil, spare, general(fmt.Sprintf("all %v", all), src, func(t tokenizer.Token) bool { return all }))
			// each token is shown to the predicate as it is
			seen := map[string]int{}
			for _, t := range src {
				seen[tokKey(t)]++
			}
			one(where, src, src == nil, spare, general("recording", src, func(t tokenizer.Token) bool {
				if seen[tokKey(t)] == 0 {
					c.Fail(where, "predicate was shown a token that is not in the sequence", "", "%v", t)
				}
				return t.Index%3 == 0
			}))
		}
	})
}

func loadList(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		setupError("%v", err)
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "#"); k >= 0 {
			l = l[:k]
		}
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

func runC14(c *Ctx) {
	c.Rule("a case is (filter options, token sequence): the words of Yield and the tokens of Drop against a per-token oracle over independently parsed stop lists; sequences are analyses of all kinds of text in all modes with and without user dictionary (verbs and adjectives as user entries, with odd parts of speech), shrunk and UniDic dictionaries, synthetic dictionaries, shuffled; non-trivial: at least one stopped, one base-form and one surface word")
	tags := loadList("/repo/filter/ja/asset/stop_tags.txt")
	stop := loadList("/repo/filter/ja/asset/stop_words.txt")
	if len(tags) < 10 || len(stop) < 10 {
		setupError("shipped lists look empty: %d tags, %d words", len(tags), len(stop))
	}
	var tagPats [][]string
	for _, t := range tags {
		p := strings.Split(t, "-")
		for len(p) < 4 {
			p = append(p, "*")
		}
		tagPats = append(tagPats, p)
	}
	basePats := [][]string{{"動詞"}, {"形容詞"}, {"形容動詞"}}
	nstop, nbase, nsurf, nfall := c.Counter("stopped_by_tag_or_word"), c.Counter("base_forms"), c.Counter("surfaces"), c.Counter("no_base_form_fallbacks")
	nsw := c.Counter("stopped_by_word_only")
	type opt struct {
		name       string
		base, tags [][]string
		words      []string
		f          *ja.Filter
	}
	mkOpt := func(r *rand.Rand, def bool, poss [][]string, surf []string) opt {
		o := opt{name: "default", base: basePats, tags: tagPats, words: stop}
		var opts []ja.FilterOption
		pats := func() [][]string {
			var ps [][]string
			n := r.Intn(6)
			if r.Intn(6) == 0 {
				n = r.Intn(60)
			}
			for ; n > 0; n-- {
				p := append([]string{}, poss[r.Intn(len(poss))]...)
				if len(p) > 0 {
					p = p[:1+r.Intn(len(p))]
				}
				ps = append(ps, p)
			}
			return ps
		}
		if !def {
			o.name = "options"
			k := r.Intn(8)
			if k&1 != 0 {
				o.base = pats()
				opts = append(opts, ja.BaseFormFilterOption(clonePatterns(o.base)))
			}
			if k&2 != 0 {
				o.tags = pats()
				opts = append(opts, ja.StopTagsFilterOption(clonePatterns(o.tags)))
			}
			if k&4 != 0 {
				o.words = nil
				n := r.Intn(6)
				if r.Intn(6) == 0 {
					n = r.Intn(300)
				}
				for ; n > 0; n-- {
					o.words = append(o.words, pick(r, surf))
				}
				opts = append(opts, ja.StopWordsFilterOption(append([]string{}, o.words...)))
			}
			r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
			o.name = fmt.Sprintf("options %03b", k)
		}
		f, err := ja.NewFilter(opts...)
		if err != nil {
			c.Fail("NewFilter", "error", "", "%v", err)
		}
		o.f = f
		return o
	}
	one := func(where string, o opt, src []tokenizer.Token, ents []entry) {
		c.Guard(where, "", func() {
			sw := map[string]bool{}
			for _, w := range o.words {
				sw[w] = true
			}
			var words []string
			var alt []string // also acceptable (base form "*")
			var left []tokenizer.Token
			st, ba, su := 0, 0, 0
			for i, t := range src {
				e := ents[i]
				byTag := matches(o.tags, e.pos)
				if byTag || sw[t.Surface] {
					st++
					if !byTag {
						nsw.Add(1)
					}
					continue
				}
				left = append(left, t)
				w := t.Surface
				if matches(o.base, e.pos) {
					if b, ok := e.attr(dict.BaseFormIndex); ok {
						w = b
						ba++
					} else {
						nfall.Add(1)
					}
				} else {
					su++
				}
				words = append(words, w)
				if w == "*" || w == "" {
					w = t.Surface
				}
				alt = append(alt, w)
			}
			before := append([]tokenizer.Token{}, src...)
			got := o.f.Yield(src)
			bad := len(got) != len(words)
			for i := 0; !bad && i < len(words); i++ {
				bad = got[i] != words[i] && got[i] != alt[i]
			}
			if bad {
				c.Fail(where, "Yield "+o.name, "", "words %q, want %q; tokens %v", got, words, clip(fmt.Sprint(src), 3000))
			}
			for i := range src {
				if !tokEq(src[i], before[i]) {
					c.Fail(where, "Yield changed its input", "", "token %d: %v -> %v", i, before[i], src[i])
				}
			}
			work := append(make([]tokenizer.Token, 0, len(src)+2), src...)
			if src == nil {
				work = nil
			}
			o.f.Drop(&work)
			if msg := sameTokens(work, left); msg != "" {
				c.Fail(where, "Drop "+o.name, "", "%s", msg)
			}
			nstop.Add(int64(st))
			nbase.Add(int64(ba))
			nsurf.Add(int64(su))
			c.Eval(hashStr(o.name, fmt.Sprintf("%q", words), fmt.Sprint(len(src))), st > 0 && ba > 0 && su > 0)
			if ba > 0 && st > 0 && len(src) < 16 {
				c.Sample(map[string]any{"filter": o.name, "tokens": fmt.Sprint(src), "words": got})
			}
		})
	}
	// every shipped stop word and tag, as far as a token with it exists
	def, err := ja.NewFilter()
	if err != nil {
		c.Fail("NewFilter", "error", "", "%v", err)
		return
	}
	base := opt{name: "default", base: basePats, tags: tagPats, words: stop, f: def}
	poss4 := map[string]bool{}
	udw := make([]dict.UserDicRecord, 0, len(stop))
	for _, w := range stop { // as user words with a part of speech that is not stopped
		udw = append(udw, dict.UserDicRecord{Text: w, Tokens: []string{w}, Yomi: []string{w}, Pos: "名詞"})
	}
	cu := newConf("ipa+stop words", ipaDict(), nil, newUserDict(udw))
	for i, w := range stop {
		toks := cu.t.Analyze(w, tokenizer.Normal)
		var es []entry
		for _, t := range toks {
			e, err := cu.m.entry(t)
			if err != nil {
				c.Fail("stop word", err.Error(), w, "")
				return
			}
			es = append(es, e)
		}
		one(fmt.Sprintf("stop words/%d %s", i, w), base, toks, es)
		c.Count("shipped_stop_words_seen_as_tokens", 1)
	}
	confs := stdConfs(c, true)
	confs = append(confs, newConf("ipa-shrunk", shrunkIPA(), nil, nil))
	ws := words(ipaDict())
	verbs := []string{"動詞", "形容詞", "形容動詞", "助詞", "記号", "動詞-自立", "名詞", "フィラー", "", "助動詞"}
	var mu = make(chan struct{}, 1)
	c.Run("texts", c.N(9000, 300000), func(i int, r *rand.Rand) {
		var in string
		if r.Intn(4) > 0 {
			in = corpusSlice(r, 80)
		} else {
			in = genText(r, ws, 80)
		}
		cf := confs[r.Intn(len(confs))]
		if r.Intn(6) == 0 {
			s := genSynth(r)
			cf = newConf("synthetic", s.D, s, nil)
			in = s.text(r)
		}
		if r.Intn(3) == 0 {
			u := genUserDict(r, []string{in + "猫", corpusSlice(r, 30)})
			recs := u.Recs
			for k := range recs {
				recs[k].Pos = pick(r, verbs)
			}
			cf = newConf(cf.name+"+user", cf.m.d, cf.m.s, newUserDict(recs))
		}
		mode := modes[r.Intn(3)]
		where := fmt.Sprintf("texts/%d %s", i, cf.name)
		c.Guard(where, in, func() {
			toks := cf.t.Analyze(in, mode)
			var es []entry
			var poss [][]string
			var surf []string
			for _, t := range toks {
				e, err := cf.m.entry(t)
				if err != nil {
					c.Fail(where, err.Error(), in, "")
					return
				}
				es = append(es, e)
				poss = append(poss, e.pos)
				surf = append(surf, t.Surface)
				if len(e.pos) == 4 && cf.m.d == ipaDict() {
					mu <- struct{}{}
					poss4[strings.Join(e.pos, "-")] = true
					<-mu
				}
			}
			one(where, base, toks, es)
			for k := 0; k < 3; k++ {
				src, e2 := append([]tokenizer.Token{}, toks...), append([]entry{}, es...)
				if r.Intn(2) == 0 {
					r.Shuffle(len(src), func(i, j int) { src[i], src[j] = src[j], src[i]; e2[i], e2[j] = e2[j], e2[i] })
					n := r.Intn(len(src) + 1)
					src, e2 = src[:n], e2[:n]
				}
				one(where, mkOpt(r, r.Intn(4) == 0, poss, surf), src, e2)
			}
		})
	})
	one("nil", base, nil, nil)
	one("empty", base, []tokenizer.Token{}, nil)
	c.Count("distinct_parts_of_speech_seen", len(poss4))
	// every part of speech of the dictionary
	d := ipaDict()
	byPOS := map[string]int{}
	for id := range d.POSTable.POSs {
		k := fmt.Sprint(d.POSTable.POSs[id])
		if _, ok := byPOS[k]; !ok {
			byPOS[k] = id
		}
	}
	c.Count("dictionary_parts_of_speech", len(byPOS))
}

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/filter"
)

func init() {
	checks["C12"] = check{run: runC12}
	checks["C13"] = check{run: runC13}
}

// splitRules are the settings of a splitter; def means the package-level function.
type splitRules struct {
	delim, follower string
	skip, dlf       bool
	max             int
	def             bool
}

var defaultRules = splitRules{delim: "。．！!？?", follower: ".｣」』)）｝}〉》", skip: true, dlf: true, max: 128, def: true}

func (s splitRules) fn() bufio.SplitFunc {
	if s.def {
		return filter.ScanSentences
	}
	return filter.SentenceSplitter{Delim: []rune(s.delim), Follower: []rune(s.follower), SkipWhiteSpace: s.skip, DoubleLineFeedSplit: s.dlf, MaxRuneLen: s.max}.ScanSentences
}

func (s splitRules) String() string {
	return fmt.Sprintf("delim %q follower %q skip=%v dlf=%v max=%d default=%v", s.delim, s.follower, s.skip, s.dlf, s.max, s.def)
}

func hasRune(set string, r rune) bool {
	for _, x := range set {
		if x == r {
			return true
		}
	}
	return false
}

// ending is one way in which a sentence may end.
type ending struct {
	text string
	next int
}

// sentence reads one sentence of text from pos. Besides the end according to the rules it returns the
// ends that are also allowed because a read ended there (ends[off] is set).
func (s splitRules) sentence(text string, pos int, ends map[int]bool) (out []ending) {
	var kept []byte
	count := 0
	lastLF := false // the previous character was a line feed that counts for a double line feed
	head := true
	const (
		inside = iota
		after
	)
	state := inside
	lf := false
	p := pos
	for p < len(text) {
		r, w := utf8.DecodeRuneInString(text[p:])
		if state == after && (lf || len(kept) >= 32*1024) {
			for k := p; k < p+w; k++ { // or inside the next character
				if ends[k] {
					out = append(out, ending{string(kept), p})
					break
				}
			}
		}
		space := s.skip && unicode.IsSpace(r)
		d := hasRune(s.delim, r)
		switch state {
		case inside:
			if space {
				p += w
				if head {
					continue
				}
				if d || s.dlf && r == '\n' && lastLF {
					return append(out, ending{string(kept), p})
				}
				lastLF = s.dlf && r == '\n'
				continue
			}
			head = false
			kept = append(kept, text[p:p+w]...)
			p += w
			count++
			if s.dlf && r == '\n' && lastLF {
				return append(out, ending{string(kept), p})
			}
			lastLF = s.dlf && r == '\n'
			if d || count >= s.max {
				state = after
				lastLF = false
			}
		case after:
			switch {
			case space:
				p += w
				if r == '\n' {
					lf = true
				}
				if s.dlf && r == '\n' && lastLF {
					return append(out, ending{string(kept), p})
				}
				lastLF = s.dlf && r == '\n'
			case d || hasRune(s.follower, r):
				kept = append(kept, text[p:p+w]...)
				p += w
				lastLF, lf = false, false
			default:
				return append(out, ending{string(kept), p})
			}
		}
	}
	return append(out, ending{string(kept), len(text)})
}

// split is the sentence list according to the rules.
func (s splitRules) split(text string) []string {
	var out []string
	for p := 0; p < len(text); {
		es := s.sentence(text, p, nil)
		e := es[len(es)-1]
		if e.text != "" {
			out = append(out, e.text)
		}
		p = e.next
	}
	return out
}

// accepts says whether got is an allowed result for a delivery whose reads ended at ends.
func (s splitRules) accepts(text string, got []string, ends map[int]bool) bool {
	return s.acceptsFn(text, len(got), func(k int, t string) bool { return got[k] == t }, ends)
}

// acceptsFn is accepts for n results of which eq says whether result k is that of sentence t.
func (s splitRules) acceptsFn(text string, n int, eq func(k int, t string) bool, ends map[int]bool) bool {
	type st struct{ k, p int }
	seen := map[st]bool{}
	var rec func(k, p int) bool
	rec = func(k, p int) bool {
		if seen[st{k, p}] {
			return false
		}
		seen[st{k, p}] = true
		for {
			if p >= len(text) {
				return k == n
			}
			es := s.sentence(text, p, ends)
			if len(es) == 1 {
				e := es[0]
				if e.text != "" {
					if k >= n || !eq(k, e.text) {
						return false
					}
					k++
				}
				p = e.next
				continue
			}
			for _, e := range es {
				kk := k
				if e.text != "" {
					if k >= n || !eq(k, e.text) {
						continue
					}
					kk++
				}
				if rec(kk, e.next) {
					return true
				}
			}
			return false
		}
	}
	return rec(0, 0)
}

// direct drives the split function on the whole text.
func direct(f bufio.SplitFunc, text string) (out []string, msg string) {
	data := []byte(text)
	total := 0
	for steps := 0; ; steps++ {
		rest := string(data)
		adv, tok, err := f(data, true)
		if err != nil {
			return out, fmt.Sprintf("error %v", err)
		}
		if adv < 0 || adv > len(data) {
			return out, fmt.Sprintf("advance %d of %d", adv, len(data))
		}
		if string(data[adv:]) != rest[adv:] {
			return out, fmt.Sprintf("text behind the sentence was changed: %q -> %q", clip(rest[adv:], 200), clip(string(data[adv:]), 200))
		}
		if tok != nil {
			out = append(out, string(tok))
		} else if adv == 0 {
			if len(data) > 0 {
				return out, fmt.Sprintf("no progress at the end of the text, %q left", clip(rest, 200))
			}
			return out, ""
		}
		if len(data) == 0 {
			return out, ""
		}
		if adv == 0 {
			return out, fmt.Sprintf("token without progress: %q", tok)
		}
		total += adv
		data = data[adv:]
		if steps > 10*len(text)+10 {
			return out, "does not end"
		}
	}
}

func showStrs(ss []string) string {
	if len(ss) > 20 {
		return fmt.Sprintf("%d sentences: %q...", len(ss), ss[:20])
	}
	return fmt.Sprintf("%d sentences: %q", len(ss), ss)
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			x, y := "(none)", "(none)"
			if i < len(a) {
				x = fmt.Sprintf("%q", clip(a[i], 400))
			}
			if i < len(b) {
				y = fmt.Sprintf("%q", clip(b[i], 400))
			}
			return fmt.Sprintf("sentence %d: %s, want %s", i, x, y)
		}
	}
	return ""
}

func noSpace(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if !unicode.IsSpace(r) {
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

// joins says whether broken bytes of the text make up characters when white space is removed.
func joins(s string) bool {
	if utf8.ValidString(s) {
		return false
	}
	n := 0
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if !unicode.IsSpace(r) {
			n++
		}
		i += w
	}
	return utf8.RuneCountInString(noSpace(s)) != n
}

var splitFragments = []string{"あ", "。", "」", " ", "\n", "!", "\r\n", "　", "\xff", "\xe3\x81", "\n\n", "a", ".", "\u00a0", "\u2028", "？", "\x85", "\u0085", "；", "☆", "𠮷"}

// lookAlikes share bits, case or form with characters that have a meaning.
var lookAlikes = []string{"\U00013002", "\U00023002", "\U0001300D", "\U00010020", "\U0001000A", "\U0002000A", "\U00013000", "\u0102", "\u3102", "\u010a", "\u0120", "\u0121", "\u0301", "｡", "︒", "A", "ａ", "\u200b", "\ufeff", "\u180e", "\x1f", "\x00", "\u2000", "\v", "\f", "\u1680", "⏎", "‼", "︕"}

func genRules(r *rand.Rand) splitRules {
	if r.Intn(4) == 0 {
		return defaultRules
	}
	s := splitRules{skip: r.Intn(2) == 0, dlf: r.Intn(2) == 0}
	s.max = []int{0, -1, 1, 2, 3, 4, 5, 8, 20, 128, 200}[r.Intn(11)]
	s.delim = []string{"。", "。!", "", ".", "。\n", "\n", " 。", "。」", "\uFFFD。", "あ", "\u0085", "　"}[r.Intn(12)]
	s.follower = []string{"」", "", "」.", "。」", " ", "\n", "あ", "\uFFFD", ")"}[r.Intn(9)]
	if r.Intn(4) == 0 { // large sets in no particular order
		s.delim = bigSet(r)
	}
	if r.Intn(4) == 0 {
		s.follower = bigSet(r)
	}
	return s
}

// bigSet is a set of 3 to 60 characters, most of which occur in the texts, in any order, some of them twice.
func bigSet(r *rand.Rand) string {
	all := []rune("。．！!？?｡;；.｣」』)）｝}〉》、,・…―a\u00a0\u2028bxyzΩ☆★①𠮷\U0001f600\u0085　\t\"'“”’]】〕＞>〟゛々ー\x00")
	var b strings.Builder
	for n := 3 + r.Intn(58); n > 0; n-- {
		b.WriteRune(all[r.Intn(len(all))])
	}
	return b.String()
}

func genSplitText(r *rand.Rand, max int) string {
	var b strings.Builder
	switch r.Intn(4) {
	case 0:
		return corpusSlice(r, max)
	case 1:
		return genText(r, nil, max)
	default:
		few := splitFragments
		if r.Intn(2) == 0 {
			few = nil
			for k := 2 + r.Intn(4); k > 0; k-- {
				few = append(few, pick(r, splitFragments))
			}
		}
		if r.Intn(4) == 0 {
			few = append([]string{}, few...)
			for k := 1 + r.Intn(4); k > 0; k-- {
				few = append(few, pick(r, lookAlikes))
			}
		}
		for n := r.Intn(max); n > 0; n-- {
			b.WriteString(pick(r, few))
		}
	}
	return b.String()
}

// genLong is a text with sentences of up to 30 KB, and settings that allow them.
func genLong(r *rand.Rand) (splitRules, string) {
	s := genRules(r)
	s.def = false
	s.max = []int{2000, 4096, 5000, 9999, 1 << 20}[r.Intn(5)]
	if s.delim == "あ" || s.delim == "" {
		s.delim = "。"
	}
	units := []string{"い", "a", "𠮷", "漢", "\xff"}[:1+r.Intn(5)]
	gaps := []string{" ", "\n", "　", "\t", "\r\n", "\n x"}
	every := []int{0, 10, 300, 5000}[r.Intn(4)]
	var b strings.Builder
	for k := 1 + r.Intn(3); k > 0; k-- {
		size := []int{4090 + r.Intn(20), 8180 + r.Intn(30), 12000 + r.Intn(600), 16380 + r.Intn(20), 1000 + r.Intn(28000), 28000}[r.Intn(6)]
		n := b.Len()
		for b.Len()-n < size {
			b.WriteString(pick(r, units))
			if every > 0 && r.Intn(every) == 0 {
				b.WriteString(pick(r, gaps))
			}
		}
		b.WriteString(string([]rune(s.delim)[0]))
		b.WriteString(pick(r, []string{"", "」", "\n", " 」", "\n\n"}))
	}
	return s, b.String()
}

func runC12(c *Ctx) {
	c.Rule("a case is (splitter settings, text): the sentences of the split function driven on the whole text, and of a scanner with a buffer for the whole text, against an independent state machine of the rules, plus losslessness and no change of the remaining text; exhaustive over short strings of the interesting fragments for 13 settings; non-trivial: at least two sentences")
	sents := c.Counter("sentences_checked")
	one := func(where string, s splitRules, in string) {
		if s.skip && joins(in) {
			return
		}
		c.Guard(where, in, func() {
			want := s.split(in)
			got, msg := direct(s.fn(), in)
			if msg != "" {
				c.Fail(where, "split function misbehaves", in, "%s; %s", msg, s)
				return
			}
			if d := firstDiff(got, want); d != "" {
				c.Fail(where, "sentences do not follow the rules", in, "%s; %s; got %s; want %s", d, s, clip(showStrs(got), 2000), clip(showStrs(want), 2000))
				return
			}
			all := strings.Join(got, "")
			if s.skip && all != noSpace(in) || !s.skip && all != in {
				c.Fail(where, "text lost, added or changed", in, "%s; joined %q", s, clip(all, 1000))
			}
			for _, g := range got {
				if g == "" {
					c.Fail(where, "empty sentence", in, "%s", s)
				}
			}
			if len(in) < 20000 {
				sc := bufio.NewScanner(strings.NewReader(in))
				sc.Buffer(make([]byte, len(in)+64), len(in)+1<<16)
				sc.Split(s.fn())
				var got2 []string
				for sc.Scan() {
					got2 = append(got2, sc.Text())
				}
				if sc.Err() != nil {
					c.Fail(where, "scanner fails", in, "%v; %s", sc.Err(), s)
				} else if d := firstDiff(got2, want); d != "" {
					c.Fail(where, "sentences of a scanner do not follow the rules", in, "%s; %s", d, s)
				}
			}
			sents.Add(int64(len(got)))
			c.Eval(hashStr(s.String(), in), len(got) >= 2)
			if len(got) >= 3 && len(in) < 120 {
				c.Sample(map[string]any{"rules": s.String(), "text": fmt.Sprintf("%q", in), "sentences": fmt.Sprintf("%q", got)})
			}
		})
	}
	sets := []splitRules{defaultRules,
		{delim: "。", follower: "」", skip: true, dlf: false, max: 128},
		{delim: "。", follower: "」", skip: false, dlf: true, max: 128},
		{delim: "。", follower: "」", skip: false, dlf: false, max: 128},
		{delim: "。", follower: "」", skip: true, dlf: true, max: 2},
		{delim: "。", follower: "」", skip: false, dlf: true, max: 2},
		{delim: "。", follower: "」", skip: true, dlf: true, max: 0},
		{delim: "。\n", follower: "」", skip: true, dlf: true, max: 128},
		{delim: "。\n", follower: "」", skip: false, dlf: true, max: 3},
		{delim: "。 ", follower: "」", skip: true, dlf: false, max: 128},
		{delim: "", follower: "", skip: true, dlf: true, max: 128},
		{delim: "。", follower: "\n", skip: true, dlf: true, max: 128},
		{delim: "。", follower: " 。」", skip: false, dlf: true, max: 3},
	}
	al := []string{"あ", "。", "」", " ", "\n", "\xff"}
	if c.Thorough {
		al = append(al, "　", "!")
	}
	n := 1
	total := 0
	var sizes []int
	for l := 0; l <= c.N(6, 7); l++ {
		sizes = append(sizes, n)
		total += n
		n *= len(al)
	}
	const block = 2000
	c.Run("exhaustive", (total+block-1)/block, func(b int, r *rand.Rand) {
		for i := b * block; i < (b+1)*block && i < total; i++ {
			k, l := i, 0
			for k >= sizes[l] {
				k -= sizes[l]
				l++
			}
			var sb strings.Builder
			for j := 0; j < l; j++ {
				sb.WriteString(al[k%len(al)])
				k /= len(al)
			}
			for _, s := range sets {
				if l == len(sizes)-1 && !c.Thorough && (i+len(s.delim)+len(s.follower)+s.max)%3 != 0 {
					continue
				}
				one(fmt.Sprintf("exhaustive/%d", i), s, sb.String())
			}
		}
	})
	c.Run("random", c.N(120000, 4000000), func(i int, r *rand.Rand) {
		one(fmt.Sprintf("random/%d", i), genRules(r), genSplitText(r, []int{5, 15, 60, 300}[r.Intn(4)]))
	})
	// around the maximum length
	c.Run("maxlen", c.N(20000, 400000), func(i int, r *rand.Rand) {
		s := defaultRules
		if r.Intn(2) == 0 {
			s = genRules(r)
			s.max = []int{1, 2, 5, 127, 128, 129, 200}[r.Intn(7)]
			s.def = false
		}
		var b strings.Builder
		for k := 1 + r.Intn(4); k > 0; k-- {
			for n := s.max + r.Intn(5) - 2; n > 0; n-- {
				b.WriteString(pick(r, []string{"あ", "a", "𠮷", "漢", "あ", "\xff"}))
				if r.Intn(40) == 0 {
					b.WriteString(pick(r, []string{" ", "\n", "　", "\n\n", "\n \n"}))
				}
			}
			for n := r.Intn(5); n > 0; n-- {
				b.WriteString(pick(r, []string{"。", "」", " ", "\n", "\n\n", "!", ")"}))
			}
		}
		one(fmt.Sprintf("maxlen/%d", i), s, b.String())
	})
	c.Run("long", c.N(300, 20000), func(i int, r *rand.Rand) {
		s, in := genLong(r)
		c.Max("longest_text_of_long_sentences", len(in))
		one(fmt.Sprintf("long/%d", i), s, in)
	})
	c.Run("docs", c.N(60, 600), func(i int, r *rand.Rand) {
		s := defaultRules
		if i%2 == 1 {
			s = genRules(r)
		}
		in := corpus
		if i%3 == 1 {
			in = genSplitText(r, 20000)
		}
		one(fmt.Sprintf("docs/%d", i), s, in)
	})
	// every code point in every role
	c.Run("codepoints", 0x3100, func(i int, r *rand.Rand) {
		p := rune(i)
		if i >= 0x3080 {
			p = []rune{0xfeff, 0xfffd, 0x10ffff, 0xff0e, 0xff1f, 0xff61, 0xff63, 0x1680, 0x180e, 0x200b, 0x2060, 0xd7ff, 0xe000, 0x1f600}[i%14]
		}
		in := "あ" + string(p) + "い。" + string(p) + "う" + string(p) + string(p) + "」"
		one(fmt.Sprintf("codepoints/U+%04X", p), defaultRules, in)
		one(fmt.Sprintf("codepoints/U+%04X delimiter", p), splitRules{delim: string(p), follower: "」", skip: i%2 == 0, dlf: true, max: 128}, in)
		one(fmt.Sprintf("codepoints/U+%04X follower", p), splitRules{delim: "。", follower: string(p), skip: i%2 == 0, dlf: true, max: 128}, in)
	})
}

// plan is a way of delivering a text: cut offsets, with empty reads and the kind of end.
type plan struct {
	cuts    []int // strictly increasing, within (0,len)
	empties map[int]bool
	eofWith bool // EOF together with the last data
	buf     int  // initial buffer size of the scanner, 0: default
}

func (p plan) String() string {
	return fmt.Sprintf("cuts %v empty reads before %v eof-with-data=%v buffer=%d", clip(fmt.Sprint(p.cuts), 500), len(p.empties), p.eofWith, p.buf)
}

// planReader delivers a text by a plan and records where reads ended.
type planReader struct {
	text   string
	p      plan
	pos, k int
	ends   map[int]bool
	reads  int
	did    bool
	max    int
}

func (r *planReader) Read(b []byte) (int, error) {
	r.reads++
	if len(b) == 0 {
		return 0, nil
	}
	for r.k < len(r.p.cuts) && r.p.cuts[r.k] <= r.pos {
		r.k++
	}
	if !r.did && r.p.empties[r.pos] {
		r.did = true
		return 0, nil
	}
	r.did = false
	if r.pos >= len(r.text) {
		return 0, io.EOF
	}
	end := len(r.text)
	if r.k < len(r.p.cuts) && r.p.cuts[r.k] < end {
		end = r.p.cuts[r.k]
	}
	n := copy(b, r.text[r.pos:end])
	r.pos += n
	r.ends[r.pos] = true
	if r.pos == len(r.text) && r.p.eofWith {
		return n, io.EOF
	}
	return n, nil
}

func runC13(c *Ctx) {
	c.Rule("a case is (settings, text, delivery): a scanner over a controlled reader (all single and double cuts of short texts, one byte at a time, random cuts, empty reads, EOF with data, texts aligned around multiples of 4096, small scanner buffers, white-space runs up to megabytes) against the delivery in one piece, with the two exceptions of the statement computed from the recorded read ends; promptness is observed by counting the sentences delivered before the reader is asked again; non-trivial: more than one read and at least two sentences")
	deliveries := c.Counter("deliveries")
	reads := c.Counter("reads")
	sents := c.Counter("sentences_compared")
	exc := c.Counter("deliveries_using_the_line_feed_exception")
	one := func(where string, s splitRules, in string, want []string, p plan) {
		c.Guard(where, in, func() {
			rd := &planReader{text: in, p: p, ends: map[int]bool{}}
			sc := bufio.NewScanner(rd)
			if p.buf > 0 {
				sc.Buffer(make([]byte, p.buf), bufio.MaxScanTokenSize)
			}
			sc.Split(s.fn())
			var got []string
			for sc.Scan() {
				got = append(got, sc.Text())
			}
			if err := sc.Err(); err != nil {
				c.Fail(where, "scanner fails", in, "%v after %d sentences; %s; %s", err, len(got), s, p)
				return
			}
			if d := firstDiff(got, want); d != "" {
				if !s.accepts(in, got, rd.ends) {
					c.Fail(where, "sentences depend on the delivery", in, "%s; %s; %s; got %s; in one piece %s", d, s, p, clip(showStrs(got), 2000), clip(showStrs(want), 2000))
					return
				}
				exc.Add(1)
			}
			deliveries.Add(1)
			reads.Add(int64(rd.reads))
			sents.Add(int64(len(got)))
			c.Eval(hashStr(s.String(), in, p.String()), rd.reads > 2 && len(got) >= 2)
			if len(got) >= 2 && len(in) < 100 && len(p.cuts) > 0 {
				c.Sample(map[string]any{"rules": s.String(), "text": fmt.Sprintf("%q", in), "delivery": p.String(), "reads": rd.reads, "sentences": fmt.Sprintf("%q", got)})
			}
		})
	}
	whole := func(where string, s splitRules, in string) ([]string, bool) {
		if s.skip && joins(in) {
			return nil, false
		}
		var want []string
		var msg string
		ok := c.Guard(where, in, func() { want, msg = direct(s.fn(), in) })
		if msg != "" {
			c.Fail(where, "split function misbehaves", in, "%s; %s", msg, s)
			return nil, false
		}
		if ok {
			if d := firstDiff(want, s.split(in)); d != "" {
				c.Fail(where, "sentences of the whole text do not follow the rules", in, "%s; %s", d, s)
				return nil, false
			}
		}
		return want, ok
	}
	byteCuts := func(n int) []int {
		v := make([]int, n)
		for i := range v {
			v[i] = i
		}
		return v
	}
	// short texts, all cuts
	c.Run("cuts", c.N(9000, 300000), func(i int, r *rand.Rand) {
		s := genRules(r)
		if r.Intn(2) == 0 {
			s = defaultRules
		}
		in := genSplitText(r, 12)
		if len(in) > 60 {
			in = in[:60]
		}
		where := fmt.Sprintf("cuts/%d", i)
		want, ok := whole(where, s, in)
		if !ok {
			return
		}
		n := len(in)
		one(where, s, in, want, plan{cuts: byteCuts(n)})
		one(where, s, in, want, plan{cuts: byteCuts(n), eofWith: true, buf: 1 + r.Intn(4)})
		one(where, s, in, want, plan{eofWith: true})
		for a := 1; a < n; a++ {
			one(where, s, in, want, plan{cuts: []int{a}, eofWith: a%2 == 0})
			if n <= 24 {
				for b := a + 1; b < n; b++ {
					one(where, s, in, want, plan{cuts: []int{a, b}, empties: map[int]bool{a: (a+b)%5 == 0}})
				}
			}
		}
		for k := 0; k < 4; k++ {
			p := plan{eofWith: r.Intn(2) == 0, empties: map[int]bool{}}
			if r.Intn(3) == 0 {
				p.buf = 1 + r.Intn(30)
			}
			for a := 1; a < n; a++ {
				if r.Intn(3) == 0 {
					p.cuts = append(p.cuts, a)
				}
				if r.Intn(6) == 0 {
					p.empties[a] = true
				}
			}
			one(where, s, in, want, p)
		}
	})
	// texts around the buffer boundaries
	c.Run("boundary", c.N(4000, 100000), func(i int, r *rand.Rand) {
		s := genRules(r)
		if r.Intn(2) == 0 {
			s = defaultRules
		}
		target := []int{4096, 8192, 4096 * 3, 16384}[r.Intn(4)] - r.Intn(24)
		var b strings.Builder
		for b.Len() < target-400 {
			b.WriteString(genSplitText(r, 60))
		}
		for b.Len() < target {
			b.WriteString(pick(r, []string{"a", "。", "あ", " ", "\n", "a"}))
		}
		for n := r.Intn(40); n > 0; n-- {
			b.WriteString(pick(r, splitFragments))
		}
		b.WriteString(genSplitText(r, 100))
		in := b.String()
		where := fmt.Sprintf("boundary/%d", i)
		want, ok := whole(where, s, in)
		if !ok {
			return
		}
		one(where, s, in, want, plan{})
		one(where, s, in, want, plan{buf: []int{1, 16, 100, 4095, 4097, 5000, 65536}[r.Intn(7)], eofWith: true})
		p := plan{empties: map[int]bool{}}
		for k := r.Intn(200); k > 0; k-- {
			p.cuts = append(p.cuts, r.Intn(len(in)))
		}
		sort.Ints(p.cuts)
		for k := range p.cuts {
			if r.Intn(8) == 0 {
				p.empties[p.cuts[k]] = true
			}
		}
		one(where, s, in, want, p)
		if r.Intn(4) == 0 {
			one(where, s, in, want, plan{cuts: byteCuts(len(in))})
		}
	})
	// long runs of white space: before, inside and after sentences
	c.RunP("whitespace", c.N(220, 3000), 8, func(i int, r *rand.Rand) {
		s := defaultRules
		if r.Intn(2) == 0 {
			s = splitRules{delim: "。", follower: "」", skip: true, dlf: r.Intn(2) == 0, max: []int{3, 128, 1 << 30}[r.Intn(3)]}
		}
		run := func() string {
			n := []int{10, 4000, 4096, 4100, 65530, 65535, 65536, 65537, 70000, 140000, 1 << 20}[r.Intn(11)]
			u := pick(r, []string{" ", "　", "\t", "\n \n ", "\r", " \n", "\u2028", "\n"})
			return strings.Repeat(u, n/len(u)+1)
		}
		var b strings.Builder
		for k := 1 + r.Intn(4); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				b.WriteString(run())
			case 1:
				b.WriteString("あ" + run() + "い。")
			case 2:
				b.WriteString("あ。" + run() + "」い")
			case 3:
				b.WriteString("あ。" + run() + "い。")
			case 4:
				b.WriteString(corpusSlice(r, 50))
			}
		}
		in := b.String()
		where := fmt.Sprintf("whitespace/%d", i)
		want, ok := whole(where, s, in)
		if !ok {
			return
		}
		one(where, s, in, want, plan{})
		p := plan{eofWith: true, empties: map[int]bool{}}
		for k := r.Intn(30); k > 0; k-- {
			p.cuts = append(p.cuts, r.Intn(len(in)))
		}
		sort.Ints(p.cuts)
		one(where, s, in, want, p)
		c.Max("longest_whitespace_text", len(in))
	})
	// long sentences
	c.Run("long", c.N(300, 10000), func(i int, r *rand.Rand) {
		s, in := genLong(r)
		where := fmt.Sprintf("long/%d", i)
		want, ok := whole(where, s, in)
		if !ok {
			return
		}
		one(where, s, in, want, plan{})
		one(where, s, in, want, plan{buf: []int{1, 16, 100, 4095, 4097, 5000, 65536}[r.Intn(7)], eofWith: true})
		p := plan{}
		for k := r.Intn(60); k > 0; k-- {
			p.cuts = append(p.cuts, r.Intn(len(in)))
		}
		sort.Ints(p.cuts)
		one(where, s, in, want, p)
	})
	// long runs of delimiters
	c.RunP("delimiters", c.N(60, 800), 8, func(i int, r *rand.Rand) {
		n := []int{1000, 5000, 10000, 10922, 10923, 21845, 21846, 40000, 200000}[r.Intn(9)]
		in := "あ" + strings.Repeat(pick(r, []string{"。", "!", "」", "。」"}), n) + pick(r, []string{"い。", "", "\nい", "。」 」x"})
		if r.Intn(2) == 0 {
			in = corpusSlice(r, 3000) + in
		}
		where := fmt.Sprintf("delimiters/%d", i)
		want, ok := whole(where, defaultRules, in)
		if !ok {
			return
		}
		p := plan{}
		if r.Intn(2) == 0 {
			for k := r.Intn(10); k > 0; k-- {
				p.cuts = append(p.cuts, r.Intn(len(in)))
			}
			sort.Ints(p.cuts)
		}
		one(where, defaultRules, in, want, p)
	})
	c.RunP("corpus", c.N(12, 200), 8, func(i int, r *rand.Rand) {
		in := corpus
		want, ok := whole("corpus", defaultRules, in)
		if !ok {
			return
		}
		p := plan{empties: map[int]bool{}}
		step := 1 + r.Intn(3000)
		for k := step; k < len(in); k += 1 + r.Intn(step) {
			p.cuts = append(p.cuts, k)
		}
		one(fmt.Sprintf("corpus/%d", i), defaultRules, in, want, p)
	})
	// promptness
	prompt := c.Counter("sentences_seen_before_the_next_read")
	c.Run("prompt", c.N(20000, 400000), func(i int, r *rand.Rand) {
		s := genRules(r)
		if r.Intn(2) == 0 {
			s = defaultRules
		}
		if strings.ContainsAny(s.delim+s.follower, "\n \u0085　\uFFFD") || s.delim == "" {
			s = defaultRules
		}
		var b strings.Builder
		for n := r.Intn(6); n > 0; n-- {
			b.WriteString(genSplitText(r, 20))
		}
		b.WriteString("あ" + string([]rune(s.delim)[0]))
		b.WriteString(pick(r, []string{"\n", "\r\n", " \n", "\n ", "\n　", string([]rune(s.delim)[0]) + "\n"}))
		in := b.String()
		if len(in) > 3500 || !utf8.ValidString(in) {
			return
		}
		if !s.skip { // the line feed must come right after the sentence
			in = strings.TrimRight(in, " \r\n　") + "\n"
		}
		where := fmt.Sprintf("prompt/%d", i)
		want, ok := whole(where, s, in)
		if !ok {
			return
		}
		if !s.skip { // the line feed starts the next, unfinished sentence
			want = want[:len(want)-1]
		}
		c.Guard(where, in, func() {
			rd := &askedReader{data: []byte(in)}
			sc := bufio.NewScanner(rd)
			sc.Split(s.fn())
			var got []string
			for len(got) < len(want) && sc.Scan() {
				if rd.asked {
					c.Fail(where, "waits for more input though the sentence is followed by a line feed", in, "sentence %d %q; %s", len(got), sc.Text(), s)
					return
				}
				got = append(got, sc.Text())
			}
			if rd.asked || len(got) < len(want) {
				c.Fail(where, "waits for more input though the sentence is followed by a line feed", in, "%d of %d sentences; %s", len(got), len(want), s)
				return
			}
			prompt.Add(int64(len(got)))
			c.Eval(hashStr("prompt", s.String(), in), len(got) >= 2)
		})
	})
}

// askedReader gives its data in one read and notes when it is asked for more.
type askedReader struct {
	data  []byte
	given bool
	asked bool
}

func (r *askedReader) Read(p []byte) (int, error) {
	if !r.given {
		r.given = true
		return copy(p, r.data), nil
	}
	r.asked = true
	return 0, io.EOF
}

var _ = bytes.NewReader

package main

import (
	_ "embed"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
)

//go:embed data/bocchan.txt
var corpus string

var corpusRunes = []rune(corpus)

var specials = []string{
	"\uFFFD", "\x00", "\ufeff", "\r\n", "\n", "\n\n", "\t", " ", "　", "\"", "\\", "<", ">", "&", "'", "\\n", "\\N", "`",
	"\x80", "\xff", "\xe3\x81", "\xe3", "\xf0\x9f", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\xbf",
	"𠮷", "👨‍👩‍👧", "🇯🇵", "が", "か\u3099", "゛", "ー", "々", "〆", "ゝ", "〇", "ヶ", "・", "･", "ｱ", "ﾞ", "～", "−",
	"\u200b", "\u202e", "\u2028", "\u00a0", "\u0085", "\U0010FFFF", "\uFFFF", "\uE000", "١", "Ⅷ", "①", "㍻", "ﷺ", "é", "ß", "я", "λ", "한", "国",
	"EOS", "BOS", "*", ",", ".", "。", "、", "！", "？", "」", "「", "-1", "0", "９", "Ａ", "ａ",
}

type runeRange struct{ lo, hi rune }

var ranges = []runeRange{
	{0x3041, 0x3096}, {0x3041, 0x3096}, {0x30A1, 0x30FA}, {0x30A1, 0x30FA}, {0x4E00, 0x9FA5}, {0x4E00, 0x9FA5}, {0x4E00, 0x5000},
	{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {0x21, 0x7e}, {0xFF10, 0xFF19}, {0xFF21, 0xFF5A}, {0xFF61, 0xFF9F},
	{0x3000, 0x303F}, {0x2000, 0x206F}, {0x2190, 0x25FF}, {0x0391, 0x03C9}, {0x0410, 0x044F}, {0xAC00, 0xD7A3},
	{0x1F300, 0x1F64F}, {0x20000, 0x2A6DF}, {0x3400, 0x4DBF}, {0x0300, 0x036F}, {0, 0x20}, {0x80, 0xFF}, {0xFE00, 0xFE0F}, {0xF900, 0xFAFF}, {0x2E80, 0x2FDF}, {0x3220, 0x33FF},
}

func randRune(r *rand.Rand) rune {
	if r.Intn(30) == 0 {
		for {
			c := rune(r.Intn(0x110000))
			if utf8.ValidRune(c) {
				return c
			}
		}
	}
	q := ranges[r.Intn(len(ranges))]
	return q.lo + rune(r.Intn(int(q.hi-q.lo)+1))
}

func runeFrom(r *rand.Rand, q runeRange) rune { return q.lo + rune(r.Intn(int(q.hi-q.lo)+1)) }

func corpusSlice(r *rand.Rand, max int) string {
	n := 1 + r.Intn(max)
	s := r.Intn(len(corpusRunes) - n)
	return string(corpusRunes[s : s+n])
}

// wordList gives surfaces of dictionary words.
type wordList struct {
	once  sync.Once
	words []string
}

var wl wordList

func words(d *dict.Dict) []string {
	wl.once.Do(func() {
		seen := map[string]bool{}
		base := int(d.ContentsMeta[dict.BaseFormIndex])
		for id := 0; id < len(d.Morphs); id += 7 {
			k := base - len(d.POSTable.POSs[id])
			if id < len(d.Contents) && k >= 0 && k < len(d.Contents[id]) {
				w := d.Contents[id][k]
				if w != "*" && w != "" && !seen[w] {
					seen[w] = true
					wl.words = append(wl.words, w)
				}
			}
		}
		sort.Strings(wl.words)
	})
	return wl.words
}

// mutate damages a text at the byte level.
func mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			x := specials[r.Intn(len(specials))]
			b = append(b[:i], append([]byte(x), b[i:]...)...)
		}
	}
	return string(b)
}

// runLengths are lengths around internal or natural limits.
var runLengths = []int{126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 2046, 2047, 2048, 2049, 2050, 3072, 3073, 4095, 4096, 4097}

// genRun returns long runs of one character category.
func genRun(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString(genText(r, nil, 10))
	}
	q := ranges[r.Intn(len(ranges))]
	n := runLengths[r.Intn(len(runLengths))]
	same := r.Intn(2) == 0
	c := runeFrom(r, q)
	for i := 0; i < n; i++ {
		if !same {
			c = runeFrom(r, q)
		}
		b.WriteRune(c)
	}
	switch r.Intn(4) {
	case 0:
		b.WriteString("\xff")
	case 1:
		b.WriteString(genText(r, nil, 10))
	case 2:
		b.WriteString("\uFFFD")
	}
	return b.String()
}

// genText returns one short or medium text. ws may be nil.
func genText(r *rand.Rand, ws []string, max int) string {
	switch k := r.Intn(12); {
	case k <= 2:
		return corpusSlice(r, max)
	case k == 3: // random characters
		var b strings.Builder
		for n := r.Intn(max) + 1; n > 0; n-- {
			b.WriteRune(randRune(r))
		}
		return b.String()
	case k == 4: // characters of few categories
		var b strings.Builder
		q := []runeRange{ranges[r.Intn(len(ranges))], ranges[r.Intn(len(ranges))]}
		for n := r.Intn(max) + 1; n > 0; n-- {
			b.WriteRune(runeFrom(r, q[r.Intn(2)]))
		}
		return b.String()
	case k == 5 && len(ws) > 0: // dictionary words
		var b strings.Builder
		for n := r.Intn(max/4+1) + 1; n > 0; n-- {
			b.WriteString(ws[r.Intn(len(ws))])
			if r.Intn(8) == 0 {
				b.WriteString(specials[r.Intn(len(specials))])
			}
		}
		return b.String()
	case k == 6: // specials
		var b strings.Builder
		for n := r.Intn(max/4+1) + 1; n > 0; n-- {
			b.WriteString(specials[r.Intn(len(specials))])
			if r.Intn(3) == 0 {
				b.WriteRune(randRune(r))
			}
		}
		return b.String()
	case k == 7 || k == 8: // damaged text
		return mutate(r, corpusSlice(r, max))
	case k == 9: // raw bytes
		b := make([]byte, r.Intn(max)+1)
		r.Read(b)
		return string(b)
	case k == 10: // compounds around the search-mode limits
		var b strings.Builder
		for n := r.Intn(4) + 1; n > 0; n-- {
			q := []runeRange{{0x4E00, 0x9FA5}, {0x30A1, 0x30FA}, {0x3041, 0x3096}, {'a', 'z'}, {0x20000, 0x2A6DF}}[r.Intn(5)]
			for m := r.Intn(12) + 1; m > 0; m-- {
				if q.lo == 0x4E00 { // characters of real text are more likely to make words
					c := corpusRunes[r.Intn(len(corpusRunes))]
					if c >= 0x4E00 && c <= 0x9FA5 {
						b.WriteRune(c)
						continue
					}
				}
				b.WriteRune(runeFrom(r, q))
			}
		}
		return b.String()
	default: // mixture
		return corpusSlice(r, max/2+1) + specials[r.Intn(len(specials))] + genText(r, ws, max/2+1)
	}
}

// genDoc returns long documents.
func genDoc(r *rand.Rand, size int) string {
	var b strings.Builder
	switch r.Intn(4) {
	case 0:
		unit := genText(r, nil, 8)
		if unit == "" {
			unit = "!a"
		}
		for b.Len() < size {
			b.WriteString(unit)
		}
	case 1:
		s := r.Intn(len(corpusRunes))
		b.WriteString(string(corpusRunes[s:]))
		for b.Len() < size {
			b.WriteString(corpus)
		}
		return b.String()[:size]
	case 2:
		for b.Len() < size {
			b.WriteString(genText(r, nil, 60))
		}
	default:
		for b.Len() < size {
			b.WriteString("a!")
		}
		b.WriteString(corpusSlice(r, 100))
	}
	return b.String()
}

// User dictionaries.

type userDict struct {
	Recs []dict.UserDicRecord // sorted by text
	U    *dict.UserDict
	keys map[string]int
	lens []int // distinct key lengths, ascending
}

func newUserDict(recs []dict.UserDicRecord) *userDict {
	m := map[string]dict.UserDicRecord{}
	for _, v := range recs {
		m[v.Text] = v
	}
	ud := &userDict{keys: map[string]int{}}
	for _, v := range m {
		ud.Recs = append(ud.Recs, v)
	}
	sort.Slice(ud.Recs, func(i, j int) bool { return ud.Recs[i].Text < ud.Recs[j].Text })
	cp := make(dict.UserDictRecords, len(ud.Recs))
	for i, v := range ud.Recs {
		v.Tokens = append([]string{}, v.Tokens...)
		v.Yomi = append([]string{}, v.Yomi...)
		cp[i] = v
		ud.keys[v.Text] = i
		if !slices.Contains(ud.lens, len(v.Text)) {
			ud.lens = append(ud.lens, len(v.Text))
		}
	}
	u, err := cp.NewUserDict()
	if err != nil {
		setupError("user dictionary: %v", err)
	}
	ud.U = u
	return ud
}

var userPOS = []string{"カスタム名詞", "名詞", "動詞", "形容詞", "記号", "助詞", "x", "カスタム \"q\"\\", ""}

// genUserDict makes a user dictionary out of pieces of the texts it will be used on.
func genUserDict(r *rand.Rand, texts []string) *userDict {
	var recs []dict.UserDicRecord
	add := func(t string) {
		t = strings.TrimSpace(strings.ToValidUTF8(strings.ReplaceAll(t, "\x00", ""), ""))
		if t == "" || strings.ContainsAny(t, ",\r\n") {
			return
		}
		rs := []rune(t)
		k := 1 + r.Intn(len(rs))
		if k > 3 {
			k = 3
		}
		var toks, yomi []string
		for i := 0; i < k; i++ {
			lo, hi := i*len(rs)/k, (i+1)*len(rs)/k
			toks = append(toks, string(rs[lo:hi]))
			yomi = append(yomi, "ヨミ"+string(rune('ア'+r.Intn(60))))
		}
		recs = append(recs, dict.UserDicRecord{Text: t, Tokens: toks, Yomi: yomi, Pos: userPOS[r.Intn(len(userPOS))]})
	}
	for n := 1 + r.Intn(12); n > 0; n-- {
		t := texts[r.Intn(len(texts))]
		rs := []rune(t)
		if len(rs) == 0 {
			continue
		}
		s := r.Intn(len(rs))
		l := 1 + r.Intn(6)
		if r.Intn(12) == 0 {
			l = 1 + r.Intn(300)
		}
		if s+l > len(rs) {
			l = len(rs) - s
		}
		add(string(rs[s : s+l]))
		switch r.Intn(5) {
		case 0: // nested
			add(string(rs[s : s+1]))
		case 1: // longer than any text
			add(string(rs[s:min(len(rs), s+3000)]) + "終端")
		case 2: // overlapping
			if l > 1 {
				add(string(rs[s+1 : min(len(rs), s+l+2)]))
			}
		}
	}
	if len(recs) == 0 {
		add("猫")
	}
	return newUserDict(recs)
}

// Dictionaries.

var (
	ipaOnce, shrinkOnce sync.Once
	ipaD, shrinkD       *dict.Dict
)

func ipaDict() *dict.Dict { ipaOnce.Do(func() { ipaD = ipa.Dict() }); return ipaD }

// shrunkIPA is the IPA dictionary without contents. (ipa.DictShrink returns the full one once
// that has been loaded, so take a copy without the contents.)
func shrunkIPA() *dict.Dict {
	shrinkOnce.Do(func() {
		d := *ipaDict()
		d.Contents = nil
		shrinkD = &d
	})
	return shrinkD
}

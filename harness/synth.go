package main

import (
	"math/rand"
	"sort"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
)

// synth is a random tiny dictionary together with what it was made from.
type synth struct {
	D        *dict.Dict
	Keys     []string // by id
	keys     map[string][]int
	max      int
	Alphabet []string
}

var alphabets = [][]string{
	{"a", "b"}, {"a", "b", "c", "d"}, {"あ", "い", "漢"}, {"漢", "字", "語"}, {"a", "漢", "ア"}, {"😀", "a", "é"},
	{"\uFFFD", "a", "漢"}, {"ア", "イ", "ウ", "ー"}, {"\uFFFD"}, {"a"}, {"一", "二", "a", " ", "\""}, {"𠮷", "田", "x"},
}

func pick(r *rand.Rand, ss []string) string { return ss[r.Intn(len(ss))] }

func randWord(r *rand.Rand, al []string, max int) string {
	var b strings.Builder
	for n := 1 + r.Intn(max); n > 0; n-- {
		b.WriteString(pick(r, al))
	}
	return b.String()
}

func genSynth(r *rand.Rand) *synth {
	al := alphabets[r.Intn(len(alphabets))]
	s := &synth{Alphabet: al, keys: map[string][]int{}}
	nw := 1 + r.Intn(24)
	maxLen := []int{2, 3, 5, 9}[r.Intn(4)]
	for i := 0; i < nw; i++ {
		w := randWord(r, al, maxLen)
		for k := r.Intn(3); k >= 0; k-- { // duplicates
			s.Keys = append(s.Keys, w)
			if r.Intn(2) == 0 {
				break
			}
		}
	}
	sort.Strings(s.Keys)
	for i, k := range s.Keys {
		s.keys[k] = append(s.keys[k], i)
		if len(k) > s.max {
			s.max = len(k)
		}
	}
	idx, err := dict.BuildIndexTable(s.Keys)
	if err != nil {
		setupError("synthetic index: %v", err)
	}
	nid := 1 + r.Intn(5)
	cost := func() int16 { return 0 }
	switch r.Intn(5) {
	case 0: // ties
		cost = func() int16 { return int16(r.Intn(3)) }
	case 1:
		cost = func() int16 { return int16(r.Intn(2001) - 1000) }
	case 2:
		cost = func() int16 { return int16(r.Intn(65536) - 32768) }
	case 3: // extremes
		cost = func() int16 { return []int16{32767, -32768, 0, 1, 3000, 1700, -1}[r.Intn(7)] }
	case 4:
		cost = func() int16 { return int16(r.Intn(12000)) }
	}
	d := &dict.Dict{Index: idx}
	morphs := func(n int) dict.Morphs {
		ms := make(dict.Morphs, n)
		for i := range ms {
			ms[i] = dict.Morph{LeftID: int16(r.Intn(nid)), RightID: int16(r.Intn(nid)), Weight: cost()}
		}
		return ms
	}
	d.Morphs = morphs(len(s.Keys))
	d.Connection = dict.ConnectionTable{Row: int64(nid), Col: int64(nid), Vec: make([]int16, nid*nid)}
	for i := range d.Connection.Vec {
		d.Connection.Vec[i] = cost()
	}
	// features
	d.POSTable.NameList = []string{"", "*", "名詞", "動詞", "q\"uo\\te", "形容詞", "記号"}
	row := func(n int) []string {
		v := make([]string, n)
		for i := range v {
			v[i] = pick(r, []string{"*", "読み", "よみ", "base", "名詞", "動詞", "", "a,b"})
		}
		return v
	}
	npos := r.Intn(5)
	for i := range s.Keys {
		n := npos
		if r.Intn(10) == 0 {
			n = r.Intn(5)
		}
		p := make(dict.POS, n)
		for j := range p {
			p[j] = dict.POSID(r.Intn(len(d.POSTable.NameList)))
		}
		d.POSTable.POSs = append(d.POSTable.POSs, p)
		d.Contents = append(d.Contents, row(r.Intn(6)))
		_ = i
	}
	if r.Intn(5) == 0 {
		d.Contents = nil
	}
	meta := func(unk bool) dict.ContentsMeta {
		m := dict.ContentsMeta{}
		for _, k := range []string{dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex} {
			switch r.Intn(5) {
			case 0:
			case 1:
				m[k] = int8(r.Intn(12))
			default:
				m[k] = int8(r.Intn(6))
			}
		}
		if r.Intn(2) == 0 {
			m[dict.POSStartIndex] = int8(r.Intn(3))
		}
		if r.Intn(3) > 0 {
			m[dict.POSHierarchy] = int8(r.Intn(5))
		}
		return m
	}
	d.ContentsMeta = meta(false)
	// characters
	ncat := 1 + r.Intn(4)
	for i := 0; i < ncat; i++ {
		d.CharClass = append(d.CharClass, string(rune('A'+i)))
		d.InvokeList = append(d.InvokeList, r.Intn(2) == 0)
		d.GroupList = append(d.GroupList, r.Intn(2) == 0)
	}
	size := []int{1, 128, 0x3100, 0x10000, 0x10000, 0x20000}[r.Intn(6)]
	d.CharCategory = make(dict.CharCategory, size)
	if ncat > 1 {
		block := []int{1, 16, 256}[r.Intn(3)]
		off := r.Intn(100)
		for i := range d.CharCategory {
			d.CharCategory[i] = byte((i/block*7 + off) % ncat)
		}
		for _, a := range al {
			if c := int([]rune(a)[0]); c < size {
				d.CharCategory[c] = byte(r.Intn(ncat))
			}
		}
	}
	// unknown words
	d.UnkDict.Index = map[int32]int32{}
	d.UnkDict.IndexDup = map[int32]int32{}
	n := 0
	for i := 0; i < ncat; i++ {
		d.UnkDict.Index[int32(i)] = int32(n)
		k := 1 + r.Intn(3)
		if k > 1 {
			d.UnkDict.IndexDup[int32(i)] = int32(k - 1)
		}
		n += k
	}
	d.UnkDict.Morphs = morphs(n)
	for i := 0; i < n; i++ {
		d.UnkDict.Contents = append(d.UnkDict.Contents, row(r.Intn(8)))
	}
	d.UnkDict.ContentsMeta = meta(true)
	s.D = d
	return s
}

// text draws an input that has much to do with the dictionary.
func (s *synth) text(r *rand.Rand) string {
	var b strings.Builder
	n := r.Intn(14)
	if r.Intn(20) == 0 {
		n = 100 + r.Intn(300)
	}
	for ; n > 0; n-- {
		switch k := r.Intn(10); {
		case k < 4 && len(s.Keys) > 0:
			b.WriteString(s.Keys[r.Intn(len(s.Keys))])
		case k < 8:
			b.WriteString(pick(r, s.Alphabet))
		case k == 8:
			b.WriteString(specials[r.Intn(len(specials))])
		default:
			b.WriteRune(randRune(r))
		}
	}
	t := b.String()
	if r.Intn(6) == 0 {
		t = mutate(r, t)
	}
	return t
}

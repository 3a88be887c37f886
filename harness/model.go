package main

import (
	"fmt"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// cand is a word that may stand at a place of the text.
type cand struct {
	Class       tokenizer.TokenClass
	ID          int
	B, E        int // bytes
	S, F        int // characters
	Left, Right int16
	Weight      int64
	Optional    bool // shortened group ending before an undecodable character
}

// model is the reference: dictionary data only, no code of the repository.
type model struct {
	d *dict.Dict
	s *synth    // if not nil, known words come from its key list
	u *userDict // may be nil
}

const maxUnknown = 1024

func (m *model) known(in string, pos int, f func(id, l int)) {
	if m.s != nil {
		for l := 1; l <= m.s.max && pos+l <= len(in); l++ {
			for _, id := range m.s.keys[in[pos:pos+l]] {
				f(id, l)
			}
		}
		return
	}
	lens, ids := m.d.Index.CommonPrefixSearch(in[pos:])
	for i, l := range lens {
		for _, id := range ids[i] {
			f(id, l)
		}
	}
}

func (m *model) category(c rune) byte {
	if c >= 0 && int(c) < len(m.d.CharCategory) {
		return m.d.CharCategory[c]
	}
	return m.d.CharCategory[0]
}

// cands returns the candidates by start character. offs[i] is the byte offset of character i.
func (m *model) cands(in string) (byStart [][]cand, offs []int) {
	var chars []rune
	for p := 0; p < len(in); {
		c, w := utf8.DecodeRuneInString(in[p:])
		chars = append(chars, c)
		offs = append(offs, p)
		p += w
	}
	offs = append(offs, len(in))
	n := len(chars)
	byStart = make([][]cand, n+1)
	idx := func(from, b int) int { // character index of byte offset b
		for offs[from] < b {
			from++
		}
		return from
	}
	for i := 0; i < n; i++ {
		pos := offs[i]
		var list []cand
		if m.u != nil {
			for _, l := range m.u.lens {
				if pos+l > len(in) {
					continue
				}
				if id, ok := m.u.keys[in[pos:pos+l]]; ok {
					list = append(list, cand{Class: tokenizer.USER, ID: id, B: pos, E: pos + l, S: i, F: idx(i, pos+l)})
				}
			}
		}
		if len(list) > 0 {
			byStart[i] = list
			continue
		}
		m.known(in, pos, func(id, l int) {
			mo := m.d.Morphs[id]
			list = append(list, cand{Class: tokenizer.KNOWN, ID: id, B: pos, E: pos + l, S: i, F: idx(i, pos+l),
				Left: mo.LeftID, Right: mo.RightID, Weight: int64(mo.Weight)})
		})
		cat := m.category(chars[i])
		if len(list) == 0 || m.d.InvokeList[cat] {
			end := i + 1
			if m.d.GroupList[cat] {
				for end < n && end-i < maxUnknown && m.category(chars[end]) == cat {
					end++
				}
			}
			first := int(m.d.UnkDict.Index[int32(cat)])
			for k := 0; k <= int(m.d.UnkDict.IndexDup[int32(cat)]); k++ {
				mo := m.d.UnkDict.Morphs[first+k]
				c := cand{Class: tokenizer.UNKNOWN, ID: first + k, B: pos, S: i, Left: mo.LeftID, Right: mo.RightID, Weight: int64(mo.Weight)}
				c.E, c.F = offs[end], end
				list = append(list, c)
				if end-1 > i {
					c.E, c.F = offs[end-1], end-1
					c.Optional = chars[end-1] == utf8.RuneError
					list = append(list, c)
				}
			}
		}
		byStart[i] = list
	}
	return byStart, offs
}

func penalty(w string) int64 {
	n := utf8.RuneCountInString(w)
	kanji := n > 0
	for _, c := range w {
		if !unicode.Is(unicode.Ideographic, c) {
			kanji = false
			break
		}
	}
	if kanji && n > 2 {
		return int64(n-2) * 3000
	}
	if n > 7 {
		return int64(n-7) * 1700
	}
	return 0
}

// conn is the connection cost of two neighbours; user words connect at no cost.
func (m *model) conn(lUser, rUser bool, right, left int16) int64 {
	if lUser || rUser {
		return 0
	}
	return int64(m.d.Connection.Vec[m.d.Connection.Row*int64(left)+int64(right)])
}

type group struct {
	right int16
	user  bool
	cost  int64
}

func addGroup(gs []group, g group) []group {
	for i := range gs {
		if gs[i].right == g.right && gs[i].user == g.user {
			if g.cost < gs[i].cost {
				gs[i].cost = g.cost
			}
			return gs
		}
	}
	return append(gs, g)
}

// optimum is the least total cost. search adds the penalties of search mode.
func (m *model) optimum(in string, byStart [][]cand, search, optional bool) int64 {
	n := len(byStart) - 1
	at := make([][]group, n+1)
	at[0] = []group{{}}
	best := func(gs []group, user bool, left int16) int64 {
		var b int64
		for i, g := range gs {
			c := g.cost + m.conn(g.user, user, g.right, left)
			if i == 0 || c < b {
				b = c
			}
		}
		return b
	}
	for i := 0; i < n; i++ {
		if at[i] == nil {
			continue
		}
		for _, c := range byStart[i] {
			if c.Optional && !optional {
				continue
			}
			t := best(at[i], c.Class == tokenizer.USER, c.Left) + c.Weight
			if search {
				t += penalty(in[c.B:c.E])
			}
			at[c.F] = addGroup(at[c.F], group{c.Right, c.Class == tokenizer.USER, t})
		}
		at[i] = nil
	}
	return best(at[n], false, 0)
}

// pathCost is the cost of a returned path; it fails if a token is no candidate.
func (m *model) pathCost(in string, byStart [][]cand, toks []tokenizer.Token, search bool) (int64, error) {
	var total int64
	var prev cand
	for _, t := range toks {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		if t.Start < 0 || t.Start >= len(byStart) {
			return 0, fmt.Errorf("token %v outside of the text", t)
		}
		found := false
		for _, c := range byStart[t.Start] {
			if c.Class == t.Class && c.ID == t.ID && in[c.B:c.E] == t.Surface {
				total += m.conn(prev.Class == tokenizer.USER, c.Class == tokenizer.USER, prev.Right, c.Left) + c.Weight
				if search {
					total += penalty(t.Surface)
				}
				prev = c
				found = true
				break
			}
		}
		if !found {
			return 0, fmt.Errorf("token %v is no candidate at its place", t)
		}
	}
	total += m.conn(prev.Class == tokenizer.USER, false, prev.Right, 0)
	return total, nil
}

// judge compares a result with the model. It returns the optimum and "" if all is well.
func (m *model) judge(in string, toks []tokenizer.Token, search bool) (opt int64, ncand int, msg string) {
	byStart, _ := m.cands(in)
	hasOpt := false
	for _, l := range byStart {
		ncand += len(l)
		for _, c := range l {
			hasOpt = hasOpt || c.Optional
		}
	}
	got, err := m.pathCost(in, byStart, toks, search)
	if err != nil {
		return 0, ncand, err.Error()
	}
	opt = m.optimum(in, byStart, search, false)
	lo := opt
	if hasOpt {
		lo = m.optimum(in, byStart, search, true)
	}
	if got > opt || got < lo {
		return opt, ncand, fmt.Sprintf("cost of the returned path is %d, the least cost is %d", got, opt)
	}
	return opt, ncand, ""
}

// checkTiling verifies C01 on one result.
func checkTiling(in string, toks []tokenizer.Token, omit bool) string {
	body := toks
	if !omit {
		if len(toks) < 2 {
			return fmt.Sprintf("markers missing: %v", toks)
		}
		b, e := toks[0], toks[len(toks)-1]
		nr := utf8.RuneCountInString(in)
		if b.ID != tokenizer.BosEosID || b.Class != tokenizer.DUMMY || b.Surface != "BOS" || b.Position != 0 || b.Start != 0 || b.End != 0 {
			return fmt.Sprintf("bad begin marker %v", b)
		}
		if e.ID != tokenizer.BosEosID || e.Class != tokenizer.DUMMY || e.Surface != "EOS" || e.Position != len(in) || e.Start != nr || e.End != nr {
			return fmt.Sprintf("bad end marker %v", e)
		}
		body = toks[1 : len(toks)-1]
	}
	for i, t := range toks {
		if t.Index != i {
			return fmt.Sprintf("token %d has index %d", i, t.Index)
		}
	}
	pos, char := 0, 0
	for _, t := range body {
		if t.ID == tokenizer.BosEosID {
			return fmt.Sprintf("marker %v inside of the text", t)
		}
		if t.Surface == "" {
			return fmt.Sprintf("empty token %v", t)
		}
		if t.Position != pos || t.Start != char {
			return fmt.Sprintf("token %v should be at byte %d, character %d", t, pos, char)
		}
		if len(in)-pos < len(t.Surface) || in[pos:pos+len(t.Surface)] != t.Surface {
			return fmt.Sprintf("surface of %v is not the text at byte %d", t, pos)
		}
		end := pos + len(t.Surface)
		for pos < end {
			_, w := utf8.DecodeRuneInString(in[pos:])
			pos += w
			char++
		}
		if pos != end {
			return fmt.Sprintf("token %v cuts a character", t)
		}
		if t.End != char {
			return fmt.Sprintf("token %v should end at character %d", t, char)
		}
	}
	if pos != len(in) {
		return fmt.Sprintf("text from byte %d on is missing", pos)
	}
	return ""
}

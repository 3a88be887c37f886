package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { checks["C09"] = check{run: runC09} }

// posLabel is the part of speech as shown in the graph.
func (m *model) posLabel(c cand) string {
	var names []string
	switch c.Class {
	case tokenizer.KNOWN:
		for _, id := range m.d.POSTable.POSs[c.ID] {
			names = append(names, m.d.POSTable.NameList[id])
		}
	case tokenizer.UNKNOWN:
		names = unkPOS(m.d, c.ID)
	case tokenizer.USER:
		return m.u.Recs[c.ID].Pos
	}
	var out []string
	for _, n := range names {
		if n != "*" {
			out = append(out, n)
		}
	}
	if len(out) == 0 {
		return "---"
	}
	return strings.Join(out, "/")
}

// unkPOS is the part of speech of an unknown word, nil if the entry has none.
func unkPOS(d *dict.Dict, id int) []string {
	start, n := 0, 1
	if v, ok := d.UnkDict.ContentsMeta[dict.POSStartIndex]; ok {
		start = int(v)
	}
	if v, ok := d.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
		n = int(v)
	} else {
		n = 1 - start
	}
	row := d.UnkDict.Contents[id]
	if n <= 0 || start+n > len(row) {
		return nil
	}
	return row[start : start+n]
}

func nul(s string) string { return strings.ReplaceAll(s, "\x00", "\uFFFD") }

// graphMismatch compares an exported graph with the model; strict is false for extended mode.
func (m *model) graphMismatch(in, out string, toks []tokenizer.Token, strict bool) (nodes, edges int, msg string) {
	g, err := parseDot(out)
	if err != nil {
		return 0, 0, "the graph is not well-formed: " + err.Error()
	}
	nodes, edges = len(g.Nodes), len(g.Edges)
	byID := map[string]dotNode{}
	label, surface := map[string]string{}, map[string]string{}
	mkLabel := func(s, pos, w string) string { return fmt.Sprintf("%q %q %q", s, pos, w) }
	for _, n := range g.Nodes {
		if _, dup := byID[n.ID]; dup {
			return nodes, edges, fmt.Sprintf("node %q twice", n.ID)
		}
		byID[n.ID] = n
		for k := range n.Attrs {
			if k != "label" && k != "shape" && k != "peripheries" {
				return nodes, edges, fmt.Sprintf("node attribute %q=%q", k, n.Attrs[k])
			}
		}
		l := labelLines(n.Attrs["label"])
		if len(l) != 3 {
			return nodes, edges, fmt.Sprintf("label %q has %d lines", n.Attrs["label"], len(l))
		}
		label[n.ID] = mkLabel(l[0], l[1], l[2])
		surface[n.ID] = l[0]
	}
	for _, e := range g.Edges {
		for k := range e.Attrs {
			if k != "label" && k != "style" && k != "color" && k != "fontcolor" {
				return nodes, edges, fmt.Sprintf("edge attribute %q=%q", k, e.Attrs[k])
			}
		}
		if _, err := strconv.Atoi(e.Attrs["label"]); err != nil {
			return nodes, edges, fmt.Sprintf("edge label %q", e.Attrs["label"])
		}
	}
	if !strict {
		return nodes, edges, ""
	}
	// expected nodes
	byStart, _ := m.cands(in)
	n := len(byStart) - 1
	type node struct {
		cand
		best  bool
		label string
	}
	var shown []node
	mk := func(c cand, best bool) {
		s := nul(in[c.B:c.E])
		pos := nul(m.posLabel(c))
		if c.ID == tokenizer.BosEosID {
			s = "BOS"
			if c.S != -1 {
				s = "EOS"
			}
		}
		shown = append(shown, node{c, best, mkLabel(s, pos, fmt.Sprint(c.Weight))})
	}
	bos := cand{Class: tokenizer.DUMMY, ID: tokenizer.BosEosID, S: -1, F: 0}
	eos := cand{Class: tokenizer.DUMMY, ID: tokenizer.BosEosID, B: len(in), E: len(in), S: n, F: n + 1}
	path := map[[4]int]bool{}
	for _, t := range toks {
		path[[4]int{int(t.Class), t.ID, t.Start, t.End}] = true
	}
	mk(bos, true)
	for _, l := range byStart {
		for _, c := range l {
			best := path[[4]int{int(c.Class), c.ID, c.S, c.F}]
			if c.Class == tokenizer.UNKNOWN && !best {
				continue
			}
			mk(c, best)
		}
	}
	mk(eos, true)
	var want, got []string
	for _, x := range shown {
		want = append(want, fmt.Sprintf("%s best=%v", x.label, x.best))
	}
	for _, x := range g.Nodes {
		best := x.Attrs["peripheries"] == "2"
		if best != (x.Attrs["shape"] == "ellipse") {
			return nodes, edges, fmt.Sprintf("half-highlighted node %v", x)
		}
		got = append(got, fmt.Sprintf("%s best=%v", label[x.ID], best))
	}
	if d := diffMultiset(want, got); d != "" {
		return nodes, edges, "nodes: " + d
	}
	want, got = nil, nil
	ends := map[int][]node{}
	for _, x := range shown {
		ends[x.F] = append(ends[x.F], x)
	}
	for _, to := range shown {
		if to.S < 0 {
			continue
		}
		for _, from := range ends[to.S] {
			cost := m.conn(from.Class == tokenizer.USER, to.Class == tokenizer.USER, from.Right, to.Left)
			want = append(want, fmt.Sprintf("%s -- %s cost %d best=%v", from.label, to.label, cost, from.best && to.best))
		}
	}
	next := map[string][]string{}
	nbest := 0
	for _, e := range g.Edges {
		best := e.Attrs["style"] == "bold"
		if best != (e.Attrs["color"] == "blue") {
			return nodes, edges, fmt.Sprintf("half-highlighted edge %v", e)
		}
		if best {
			next[e.From] = append(next[e.From], e.To)
			nbest++
		}
		got = append(got, fmt.Sprintf("%s -- %s cost %s best=%v", label[e.From], label[e.To], e.Attrs["label"], best))
	}
	if d := diffMultiset(want, got); d != "" {
		return nodes, edges, "edges: " + d
	}
	// the highlighted edges form one path from BOS to EOS which spells the tokens
	var start string
	for _, x := range g.Nodes {
		if label[x.ID] == mkLabel("BOS", "---", "0") && x.Attrs["peripheries"] == "2" {
			isTarget := false
			for _, ts := range next {
				for _, t := range ts {
					isTarget = isTarget || t == x.ID
				}
			}
			if !isTarget {
				start = x.ID
			}
		}
	}
	var spelled []string
	for cur, k := start, 0; k <= nbest; k++ {
		spelled = append(spelled, surface[cur])
		ns := next[cur]
		if len(ns) == 0 {
			break
		}
		if len(ns) > 1 {
			return nodes, edges, "highlighted path forks"
		}
		cur = ns[0]
	}
	var surf []string
	for _, t := range toks {
		surf = append(surf, nul(t.Surface))
	}
	if !tokenizer.EqualFeatures(spelled, surf) || nbest != len(toks)-1 {
		return nodes, edges, fmt.Sprintf("highlighted path %q is not the returned path %q", spelled, surf)
	}
	return nodes, edges, ""
}

func diffMultiset(want, got []string) string {
	m := map[string]int{}
	for _, w := range want {
		m[w]++
	}
	for _, g := range got {
		m[g]--
	}
	var ks []string
	for k, v := range m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	s := fmt.Sprintf("%d differences", len(ks))
	for i, k := range ks {
		if i == 6 {
			break
		}
		if m[k] > 0 {
			s += fmt.Sprintf("; missing %d of %q", m[k], k)
		} else {
			s += fmt.Sprintf("; %d too many of %q", -m[k], k)
		}
	}
	return s
}

func runC09(c *Ctx) {
	c.Rule("a case is (configuration, text, mode): the written bytes are parsed by a strict reader and compared with the model's candidates and the returned path; non-trivial: the graph has a node off the returned path")
	nn := c.Counter("nodes_compared")
	ne := c.Counter("edges_compared")
	rendered := c.Counter("graphs_accepted_by_dot")
	haveDot := false
	if _, err := exec.LookPath("dot"); err == nil {
		haveDot = true
	}
	f := func(where string, cf *conf, in string, r *rand.Rand) {
		if len(in) > 3000 {
			in = strings.ToValidUTF8(in[:3000], "")
		}
		for _, mode := range modes {
			w := fmt.Sprintf("%s mode=%d", where, mode)
			c.Guard(w, in, func() {
				var buf bytes.Buffer
				var toks []tokenizer.Token
				if mode == tokenizer.Normal && r.Intn(4) == 0 {
					toks = cf.t.Dot(&buf, in)
				} else {
					toks = cf.t.AnalyzeGraph(&buf, in, mode)
				}
				n, e, msg := cf.m.graphMismatch(in, buf.String(), toks, mode != tokenizer.Extended)
				if msg != "" {
					c.Fail(w, "graph is wrong", in, "%s\n%s", msg, clip(buf.String(), 4000))
				}
				nn.Add(int64(n))
				ne.Add(int64(e))
				c.Eval(hashStr(confKey(cf), in, fmt.Sprint(mode)), n > len(toks))
				if len(in) < 40 && n > len(toks) {
					c.Sample(map[string]any{"conf": cf.name, "mode": mode.String(), "input": fmt.Sprintf("%q", in), "nodes": n, "edges": e, "graph": clip(buf.String(), 1200)})
				}
				if haveDot && len(in) < 400 && strings.Contains(where, "short/") && r.Intn(60) == 0 {
					cmd := exec.Command("dot", "-Tcanon")
					cmd.Stdin = bytes.NewReader(buf.Bytes())
					out, err := cmd.CombinedOutput()
					if err != nil || bytes.Contains(out, []byte("syntax error")) {
						c.Fail(w, "dot rejects the graph", in, "%v %s\n%s", err, clip(string(out), 1000), clip(buf.String(), 4000))
					}
					rendered.Add(1)
				}
			})
		}
	}
	w := workload{short: c.N(4500, 200000), runs: c.N(40, 1000), frag3: 3, synths: c.N(2500, 150000), perSynth: 10, user: true}
	w.run(c, stdConfs(c, c.Thorough), f)
}

package main

import (
	"fmt"
	"strings"
)

// A strict reader of the graph description language (no subgraphs, no HTML labels).

type dotNode struct {
	ID    string
	Attrs map[string]string // values decoded to the lexical level (\" only)
}

type dotEdge struct {
	From, To string
	Attrs    map[string]string
}

type dotGraph struct {
	Kind, Name string
	Nodes      []dotNode
	Edges      []dotEdge
	Defaults   int
	Assigns    int
}

type dotLex struct {
	s string
	p int
}

type dotTok struct {
	kind string // "id", "punct", "eof"
	text string
	quot bool
}

func (l *dotLex) next() (dotTok, error) {
	for l.p < len(l.s) {
		c := l.s[l.p]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			l.p++
			continue
		}
		if strings.HasPrefix(l.s[l.p:], "//") || c == '#' || strings.HasPrefix(l.s[l.p:], "/*") {
			return dotTok{}, fmt.Errorf("comment at byte %d", l.p)
		}
		break
	}
	if l.p >= len(l.s) {
		return dotTok{kind: "eof"}, nil
	}
	c := l.s[l.p]
	if c == '"' {
		var b strings.Builder
		l.p++
		for {
			if l.p >= len(l.s) {
				return dotTok{}, fmt.Errorf("unterminated quoted string")
			}
			c := l.s[l.p]
			if c == 0 {
				return dotTok{}, fmt.Errorf("NUL in a quoted string")
			}
			if c == '"' {
				l.p++
				return dotTok{kind: "id", text: b.String(), quot: true}, nil
			}
			if c == '\\' && l.p+1 < len(l.s) {
				n := l.s[l.p+1]
				switch n {
				case '"':
					b.WriteByte('"')
				case '\n':
				default: // kept for the escape level of labels
					b.WriteByte('\\')
					b.WriteByte(n)
				}
				l.p += 2
				continue
			}
			b.WriteByte(c)
			l.p++
		}
	}
	if strings.HasPrefix(l.s[l.p:], "--") || strings.HasPrefix(l.s[l.p:], "->") {
		t := l.s[l.p : l.p+2]
		l.p += 2
		return dotTok{kind: "punct", text: t}, nil
	}
	if strings.IndexByte("{}[]=;,:", c) >= 0 {
		l.p++
		return dotTok{kind: "punct", text: string(c)}, nil
	}
	isID := func(c byte) bool {
		return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	st := l.p
	if c == '-' {
		l.p++
	}
	for l.p < len(l.s) && isID(l.s[l.p]) {
		l.p++
	}
	if l.p == st {
		return dotTok{}, fmt.Errorf("unexpected %q at byte %d", c, l.p)
	}
	return dotTok{kind: "id", text: l.s[st:l.p]}, nil
}

func parseDot(s string) (*dotGraph, error) {
	l := &dotLex{s: s}
	var toks []dotTok
	for {
		t, err := l.next()
		if err != nil {
			return nil, err
		}
		toks = append(toks, t)
		if t.kind == "eof" {
			break
		}
	}
	i := 0
	is := func(k, t string) bool { return toks[i].kind == k && !toks[i].quot && toks[i].text == t }
	g := &dotGraph{}
	if is("id", "graph") || is("id", "digraph") {
		g.Kind = toks[i].text
		i++
	} else {
		return nil, fmt.Errorf("no graph: %v", toks[i])
	}
	if toks[i].kind == "id" {
		g.Name = toks[i].text
		i++
	}
	if !is("punct", "{") {
		return nil, fmt.Errorf("no {")
	}
	i++
	attrs := func() (map[string]string, error) {
		m := map[string]string{}
		for is("punct", "[") {
			i++
			for !is("punct", "]") {
				if toks[i].kind != "id" {
					return nil, fmt.Errorf("attribute name expected, got %v", toks[i])
				}
				k := toks[i].text
				i++
				if !is("punct", "=") {
					return nil, fmt.Errorf("= expected after %q, got %v", k, toks[i])
				}
				i++
				if toks[i].kind != "id" {
					return nil, fmt.Errorf("value expected for %q", k)
				}
				if _, dup := m[k]; dup {
					return nil, fmt.Errorf("attribute %q twice", k)
				}
				m[k] = toks[i].text
				i++
				if is("punct", ",") || is("punct", ";") {
					i++
				}
			}
			i++
		}
		return m, nil
	}
	for !is("punct", "}") {
		if is("punct", ";") {
			i++
			continue
		}
		if toks[i].kind != "id" {
			return nil, fmt.Errorf("statement expected, got %v", toks[i])
		}
		t := toks[i]
		if !t.quot && (t.text == "graph" || t.text == "node" || t.text == "edge") {
			i++
			if _, err := attrs(); err != nil {
				return nil, err
			}
			g.Defaults++
			continue
		}
		if !t.quot && (t.text == "subgraph" || t.text == "strict") {
			return nil, fmt.Errorf("unexpected %q", t.text)
		}
		i++
		switch {
		case is("punct", "="):
			i++
			if toks[i].kind != "id" {
				return nil, fmt.Errorf("value expected")
			}
			i++
			g.Assigns++
		case is("punct", "--") || is("punct", "->"):
			if (toks[i].text == "--") != (g.Kind == "graph") {
				return nil, fmt.Errorf("wrong edge operator")
			}
			i++
			if toks[i].kind != "id" {
				return nil, fmt.Errorf("edge target expected")
			}
			to := toks[i].text
			i++
			a, err := attrs()
			if err != nil {
				return nil, err
			}
			g.Edges = append(g.Edges, dotEdge{t.text, to, a})
		default:
			a, err := attrs()
			if err != nil {
				return nil, err
			}
			g.Nodes = append(g.Nodes, dotNode{t.text, a})
		}
	}
	i++
	if toks[i].kind != "eof" {
		return nil, fmt.Errorf("text after the graph: %v", toks[i])
	}
	return g, nil
}

// labelLines splits a label at its \n escapes and resolves \\.
func labelLines(s string) []string {
	var out []string
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n', 'l', 'r':
				out = append(out, b.String())
				b.Reset()
			case '\\':
				b.WriteByte('\\')
			default:
				b.WriteByte('\\') // an escape like \N or \G: substituted by graphviz, not the text
				b.WriteString("<escape>")
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return append(out, b.String())
}

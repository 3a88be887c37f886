package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	checks["C15"] = check{run: runC15}
	checks["C21"] = check{run: runC21}
}

type cmdResult struct {
	out, err string
	code     int
	timeout  bool
}

// cmdDir is the working directory of the programs that are run.
var cmdDir string

// runCmd runs a program to its end.
func runCmd(bin string, args []string, stdin io.Reader, env ...string) (cmdResult, error) {
	return runCmdT(120*time.Second, bin, args, stdin, env...)
}

func runCmdT(limit time.Duration, bin string, args []string, stdin io.Reader, env ...string) (cmdResult, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = cmdDir
	if len(env) > 0 {
		cmd.Env = append(os.Environ(), env...)
	}
	var out, errb bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = stdin, &out, &errb
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	res := cmdResult{out: out.String(), err: errb.String()}
	if ctx.Err() != nil {
		res.timeout = true
		res.code = -1
		return res, nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		res.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.code = 128 + int(ws.Signal())
		}
		return res, nil
	}
	if err != nil && !errors.Is(err, syscall.EPIPE) && !errors.Is(err, exec.ErrWaitDelay) {
		return res, err
	}
	return res, nil
}

func (c *Ctx) kagome() string { return filepath.Join(c.Bin, "kagome") }

// saveDict writes a dictionary file and reads it back.
func saveDict(path string, d *dict.Dict) (*dict.Dict, *dict.Dict, error) {
	cp := *d
	cp.SetInfo(&dict.Info{Name: "synthetic", Src: "none"})
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	if err := cp.Save(zw); err != nil {
		return nil, nil, err
	}
	if err := zw.Close(); err != nil {
		return nil, nil, err
	}
	if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
		return nil, nil, err
	}
	full, err := dict.LoadDictFile(path)
	if err != nil {
		return nil, nil, err
	}
	short, err := dict.LoadShrink(path)
	return full, short, err
}

// fileUserDict makes a user dictionary that can be written as a file.
func fileUserDict(r *rand.Rand, texts []string, path string) *userDict {
	u := genUserDict(r, texts)
	var recs []dict.UserDicRecord
	for _, v := range u.Recs {
		if strings.IndexFunc(v.Text+strings.Join(v.Tokens, "")+v.Pos, func(c rune) bool {
			return unicode.IsSpace(c) || unicode.IsControl(c) || c == ',' || c == utf8.RuneError
		}) >= 0 || strings.HasPrefix(v.Text, "#") {
			continue
		}
		recs = append(recs, v)
	}
	if len(recs) == 0 {
		recs = append(recs, dict.UserDicRecord{Text: "猫", Tokens: []string{"猫"}, Yomi: []string{"ネコ"}, Pos: "カスタム"})
	}
	var b strings.Builder
	b.WriteString("# comment\n\n")
	for _, k := range r.Perm(len(recs)) {
		v := recs[k]
		fmt.Fprintf(&b, "%s,%s,%s,%s\n", v.Text, strings.Join(v.Tokens, " "), strings.Join(v.Yomi, " "), v.Pos)
	}
	if err := os.WriteFile(path, []byte(b.String()), 0o644); err != nil {
		setupError("%v", err)
	}
	return newUserDict(recs)
}

// lines is how a text falls into lines.
func lines(text string) []string {
	if text == "" {
		return nil
	}
	v := strings.Split(text, "\n")
	if v[len(v)-1] == "" {
		v = v[:len(v)-1]
	}
	for i := range v {
		v[i] = strings.TrimSuffix(v[i], "\r")
	}
	return v
}

// renderText is the text output for a piece of input.
func renderText(b *strings.Builder, toks []tokenizer.Token, m *model) error {
	for _, t := range toks {
		if t.ID == tokenizer.BosEosID && t.Class == tokenizer.DUMMY {
			continue
		}
		e, err := m.entry(t)
		if err != nil {
			return err
		}
		b.WriteString(t.Surface)
		if t.Class != tokenizer.DUMMY {
			b.WriteString("\t" + strings.Join(e.features, ","))
		}
		b.WriteString("\n")
	}
	b.WriteString("EOS\n")
	return nil
}

func textMismatch(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		if i >= len(g) || i >= len(w) || g[i] != w[i] {
			x, y := "(none)", "(none)"
			if i < len(g) {
				x = fmt.Sprintf("%q", clip(g[i], 500))
			}
			if i < len(w) {
				y = fmt.Sprintf("%q", clip(w[i], 500))
			}
			return fmt.Sprintf("output line %d: %s, want %s (%d and %d lines)", i+1, x, y, len(g), len(w))
		}
	}
	return "differs"
}

// textEqual compares text output; a token without features may have a tab or not.
func textEqual(got, want string) bool {
	return got == want || strings.ReplaceAll(got, "\t\n", "\n") == strings.ReplaceAll(want, "\t\n", "\n")
}

// jsonMismatch compares JSON output with the expected arrays of records.
func jsonMismatch(got string, want [][]map[string]any) string {
	dec := json.NewDecoder(strings.NewReader(got))
	for i := 0; ; i++ {
		var arr []map[string]any
		err := dec.Decode(&arr)
		if err == io.EOF {
			if i != len(want) {
				return fmt.Sprintf("%d arrays, want %d", i, len(want))
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("array %d is not valid JSON: %v", i, err)
		}
		if arr == nil {
			return fmt.Sprintf("array %d is null", i)
		}
		if i >= len(want) {
			return fmt.Sprintf("more than %d arrays", len(want))
		}
		if len(arr) != len(want[i]) {
			return fmt.Sprintf("array %d has %d records, want %d: %v", i, len(arr), len(want[i]), clip(fmt.Sprint(arr), 1000))
		}
		for k := range arr {
			if !reflect.DeepEqual(arr[k], want[i][k]) {
				return fmt.Sprintf("array %d record %d: %v, want %v", i, k, arr[k], want[i][k])
			}
		}
	}
}

// slowReader gives its text in small pieces with pauses.
type slowReader struct {
	s string
	r *rand.Rand
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.s == "" {
		return 0, io.EOF
	}
	n := 1 + s.r.Intn(min(len(s.s), len(p), 700))
	if s.r.Intn(3) == 0 {
		n = 1
	}
	copy(p, s.s[:n])
	s.s = s.s[n:]
	if s.r.Intn(3) == 0 {
		time.Sleep(time.Duration(s.r.Intn(3)) * time.Millisecond)
	}
	return n, nil
}

func genCliText(r *rand.Rand, s *synth) string {
	var b strings.Builder
	n := r.Intn(20)
	if r.Intn(6) == 0 {
		n = r.Intn(150)
	}
	for ; n > 0; n-- {
		switch {
		case s != nil && r.Intn(4) > 0:
			b.WriteString(s.text(r))
		case r.Intn(3) == 0:
			b.WriteString(corpusSlice(r, 60))
		default:
			b.WriteString(genText(r, nil, 40))
		}
		b.WriteString(pick(r, []string{"\n", "\n", "\n", "\r\n", "\n\n", "。", "。\n", "", "\r", "\n \n"}))
	}
	return b.String()
}

// maxLine is the length of the longest line including its end.
func maxLine(text string) int {
	n := 0
	for _, l := range strings.SplitAfter(text, "\n") {
		n = max(n, len(l))
	}
	return n
}

func runC15(c *Ctx) {
	c.Rule("a case is one run of the real tokenize command (binary built from /repo; default or explicit command; file, standard input or slow standard input; options mode, split, json, simple, dict, udict, sysdict) whose output is compared with the library's analysis of each line or sentence rendered from the dictionary tables; non-trivial: at least two non-empty pieces of input")
	c.Assume("the in-process library results stand for the library (they are judged by the other properties)")
	pieces := c.Counter("lines_or_sentences_compared")
	ntok := c.Counter("tokens_compared")
	bin := c.kagome()
	one := func(where string, r *rand.Rand, cf *conf, base []string, in string) {
		mode := r.Intn(4)
		args := append([]string{}, base...)
		m := tokenizer.Normal
		add := func(name, val string) {
			if r.Intn(2) == 0 {
				args = append(args, "-"+name+"="+val)
			} else {
				args = append(args, "-"+name, val)
			}
		}
		if mode < 3 {
			m = modes[mode]
			add("mode", []string{"normal", "search", "extended"}[mode])
		}
		js, split := r.Intn(2) == 0, r.Intn(3) == 0
		if js {
			args = append(args, pick(r, []string{"-json", "--json", "-json=true"}))
		}
		if split {
			args = append(args, pick(r, []string{"-split", "--split", "-split=1"}))
		}
		var stdin io.Reader = strings.NewReader(in)
		how := "stdin"
		switch r.Intn(3) {
		case 0:
			p := filepath.Join(c.Scratch, strings.ReplaceAll(where, "/", "_")+".txt")
			if err := os.WriteFile(p, []byte(in), 0o644); err != nil {
				setupError("%v", err)
			}
			defer os.Remove(p)
			add("file", p)
			stdin = strings.NewReader("これは読まれない。\n")
			how = "file"
		case 1:
			if len(in) < 20000 {
				stdin = &slowReader{in, rand.New(rand.NewSource(r.Int63()))}
				how = "slow stdin"
			}
		}
		if r.Intn(2) == 0 {
			args = append([]string{"tokenize"}, args...)
		}
		res, err := runCmd(bin, args, stdin)
		if err != nil {
			setupError("%v", err)
		}
		desc := fmt.Sprintf("%s kagome %q (%s)", where, args, how)
		if res.timeout {
			c.Fail(desc, "the command does not end", in, "")
			return
		}
		c.Guard(desc, in, func() {
			var ps []string
			if split {
				if joins(in) {
					return // excluded by the property of the splitter
				}
				ps = defaultRules.split(in)
			} else {
				ps = lines(in)
			}
			tooLong := !split && maxLine(in) > 64*1024-8
			if tooLong && maxLine(in) < 64*1024+8 {
				return // at the limit
			}
			if tooLong {
				if res.code == 0 || strings.TrimSpace(res.err) == "" {
					c.Fail(desc, "a line that is too long is no error", in, "exit %d stderr %q", res.code, res.err)
				}
				k := 0
				for k < len(ps) && len(ps[k]) < 60*1024 {
					k++
				}
				ps = ps[:k]
			} else if res.code != 0 {
				c.Fail(desc, "the command fails", in, "exit %d stderr %q", res.code, clip(res.err, 2000))
				return
			}
			if !tooLong && strings.TrimSpace(res.err) != "" {
				c.Fail(desc, "unexpected output on standard error", in, "%q", clip(res.err, 1000))
			}
			nt := 0
			// mismatch compares output for one or more pieces
			mismatch := func(out string, ps []string) string {
				var want [][]map[string]any
				var b strings.Builder
				for _, p := range ps {
					ts := cf.t.Analyze(p, m)
					nt += max(0, len(ts)-2)
					if !js {
						if err := renderText(&b, ts, &cf.m); err != nil {
							return err.Error()
						}
						continue
					}
					row := []map[string]any{}
					for _, t := range ts {
						if t.ID == tokenizer.BosEosID && t.Class == tokenizer.DUMMY {
							continue
						}
						e, err := cf.m.entry(t)
						if err != nil {
							return err.Error()
						}
						row = append(row, e.dataRecord(t))
					}
					want = append(want, row)
				}
				if js {
					return jsonMismatch(out, want)
				}
				if textEqual(out, b.String()) {
					return ""
				}
				return textMismatch(out, b.String())
			}
			msg := mismatch(res.out, ps)
			if msg != "" && split && strings.Contains(in, "\n") {
				// where reads end may matter after a line feed
				parts := outBlocks(res.out)
				if js {
					parts = outArrays(res.out)
				}
				if defaultRules.acceptsFn(in, len(parts), func(k int, t string) bool { return mismatch(parts[k], []string{t}) == "" }, everywhere(in)) {
					c.Count("split_runs_using_the_line_feed_exception", 1)
					msg = ""
				}
			}
			if msg != "" {
				c.Fail(desc, "output is not the library's analysis", in, "%s; conf %s", msg, cf.name)
				return
			}
			if in == "" && res.out != "" {
				c.Fail(desc, "output without input", in, "%q", res.out)
			}
			pieces.Add(int64(len(ps)))
			ntok.Add(int64(nt))
			c.Count("runs "+how, 1)
			if js {
				c.Count("runs json", 1)
			}
			if split {
				c.Count("runs split", 1)
			}
			c.Eval(hashStr(fmt.Sprint(cf.name, how, js, split, m), in), len(ps) >= 2)
			if len(in) < 200 && len(ps) > 1 {
				c.Sample(map[string]any{"command": args, "how": how, "input": fmt.Sprintf("%q", in), "output": clip(res.out, 500)})
			}
		})
	}
	// synthetic dictionaries from files: fast
	c.RunP("synthetic", c.N(350, 8000), 8, func(i int, r *rand.Rand) {
		s := genSynth(r)
		if s.D.Contents == nil {
			s.D.Contents = make(dict.Contents, len(s.Keys))
			for k := range s.D.Contents {
				s.D.Contents[k] = []string{"x"}
			}
		}
		dp := c.path(fmt.Sprintf("dict%d.zip", i))
		full, short, err := saveDict(dp, s.D)
		if err != nil {
			c.Count("dictionaries_not_writable", 1)
			return
		}
		defer os.Remove(dp)
		base := []string{"-dict", dp}
		d := full
		if r.Intn(3) == 0 {
			d = short
			base = append(base, "-simple")
		}
		var u *userDict
		if r.Intn(2) == 0 {
			up := c.path(fmt.Sprintf("user%d.txt", i))
			u = fileUserDict(r, []string{s.text(r) + "猫", strings.Join(s.Alphabet, "")}, up)
			defer os.Remove(up)
			base = append(base, "-udict", up)
		}
		cf := newConf("synthetic", d, s, u)
		for k := 0; k < 3; k++ {
			one(fmt.Sprintf("synthetic/%d/%d", i, k), r, cf, base, genCliText(r, s))
		}
	})
	ipaC := newConf("ipa", ipaDict(), nil, nil)
	shC := newConf("ipa-shrunk", shrunkIPA(), nil, nil)
	c.RunP("ipa", c.N(110, 2000), 8, func(i int, r *rand.Rand) {
		cf := ipaC
		var base []string
		if r.Intn(2) == 0 {
			base = append(base, "-sysdict", "ipa")
		}
		if r.Intn(4) == 0 {
			cf = shC
			base = append(base, "-simple")
		}
		in := genCliText(r, nil)
		if r.Intn(5) == 0 {
			in += corpusSlice(r, 9000)
		}
		if r.Intn(12) == 0 {
			in = ""
		}
		if r.Intn(12) == 0 {
			in += strings.Repeat("あ", 30000) + "\n次\n"
		}
		if r.Intn(12) == 0 { // long, but not too long
			in += "\n" + strings.Repeat("いろは", 5000) + "\n次\n"
		}
		if i%8 == 3 { // a line of nearly any size that still fits
			sizes := []int{4093, 4094, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535 - 9, 4000 + r.Intn(61000), 48000 + r.Intn(17000)}
			n := sizes[r.Intn(len(sizes))]
			l := strings.Repeat(pick(r, []string{"あ", "いろは", "東京都", "a ", "猫である。", "12"}), n/2+1)
			k := n
			for k > 0 && !utf8.RuneStart(l[k]) {
				k--
			}
			l = l[:k] + strings.Repeat("x", n-k)
			in = pick(r, []string{"", "前\n"}) + l + pick(r, []string{"", "\n", "\n次\n"}) // the end must not go beyond the limit
		}
		if r.Intn(3) == 0 {
			up := c.path(fmt.Sprintf("userI%d.txt", i))
			u := fileUserDict(r, []string{in + "猫", corpusSlice(r, 100)}, up)
			defer os.Remove(up)
			base = append(base, "-udict", up)
			cf = newConf(cf.name+"+user", cf.m.d, nil, u)
		}
		one(fmt.Sprintf("ipa/%d", i), r, cf, base, in)
	})
	uniC := newConf("uni", uniDict(), nil, nil)
	c.RunP("uni", c.N(8, 100), 3, func(i int, r *rand.Rand) {
		one(fmt.Sprintf("uni/%d", i), r, uniC, []string{"-sysdict", "uni"}, genCliText(r, nil)+corpusSlice(r, 3000))
	})
}

// everywhere is the set of all positions in a text: a read may have ended anywhere.
func everywhere(in string) map[int]bool {
	ends := map[int]bool{}
	for i := 1; i < len(in); i++ {
		ends[i] = true
	}
	return ends
}

// outLines are the lines of an output; an incomplete last line is marked.
func outLines(out string) []string {
	v := strings.Split(out, "\n")
	if n := len(v) - 1; v[n] == "" {
		return v[:n]
	}
	v[len(v)-1] += "(no line feed)"
	return v
}

// outBlocks are the blocks of text output, each up to its EOS line.
func outBlocks(out string) []string {
	var v []string
	b := ""
	for _, l := range strings.SplitAfter(out, "\n") {
		b += l
		if l == "EOS\n" {
			v = append(v, b)
			b = ""
		}
	}
	if b != "" {
		v = append(v, b)
	}
	return v
}

// outArrays are the JSON values of an output.
func outArrays(out string) []string {
	var v []string
	dec := json.NewDecoder(strings.NewReader(out))
	for {
		var x json.RawMessage
		err := dec.Decode(&x)
		if err == io.EOF {
			return v
		}
		if err != nil {
			return append(v, "(not JSON)")
		}
		v = append(v, string(x))
	}
}

func runC21(c *Ctx) {
	c.Rule("a case is one run of the real sentence or lattice command (binary built from /repo): sentences against the independent splitter rules for file and standard input (also slow); the graph against the library's graph (parsed, compared by content) for joined arguments in all modes, with user dictionary, both system dictionaries, to standard output or replacing a file, tokens on standard error with -v; non-trivial: at least two sentences or two tokens")
	bin := c.kagome()
	sents := c.Counter("sentences_compared")
	graphs := c.Counter("graphs_compared")
	vlines := c.Counter("verbose_lines_compared")
	c.RunP("sentence", c.N(700, 15000), 8, func(i int, r *rand.Rand) {
		in := genSplitText(r, []int{10, 60, 400}[r.Intn(3)])
		if r.Intn(4) == 0 {
			in = corpusSlice(r, 6000)
		}
		if r.Intn(15) == 0 {
			in = "あ。" + strings.Repeat(pick(r, []string{" ", "\n ", "　"}), 70000) + "い"
		}
		if joins(in) {
			return
		}
		args := []string{"sentence"}
		var stdin io.Reader = strings.NewReader(in)
		how := "stdin"
		switch r.Intn(3) {
		case 0:
			p := c.path(fmt.Sprintf("s%d.txt", i))
			if err := os.WriteFile(p, []byte(in), 0o644); err != nil {
				setupError("%v", err)
			}
			defer os.Remove(p)
			args = append(args, "-file", p)
			stdin = strings.NewReader("読まれない。")
			how = "file"
		case 1:
			if len(in) < 20000 {
				stdin = &slowReader{in, rand.New(rand.NewSource(r.Int63()))}
				how = "slow stdin"
			}
		}
		res, err := runCmd(bin, args, stdin)
		if err != nil {
			setupError("%v", err)
		}
		desc := fmt.Sprintf("sentence/%d %q (%s)", i, args, how)
		if res.timeout || res.code != 0 || res.err != "" {
			c.Fail(desc, "the command fails", in, "exit %d timeout %v stderr %q", res.code, res.timeout, res.err)
			return
		}
		render := func(ss []string) string {
			var b strings.Builder
			for _, s := range ss {
				b.WriteString(s + "\n")
			}
			return b.String()
		}
		want := defaultRules.split(in)
		if res.out != render(want) && !defaultRules.accepts(in, outLines(res.out), everywhere(in)) {
			c.Fail(desc, "output is not the sentences", in, "%s", textMismatch(res.out, render(want)))
			return
		}
		sents.Add(int64(len(want)))
		c.Count("sentence_runs "+how, 1)
		c.Eval(hashStr("sentence", how, in), len(want) >= 2)
	})
	ipaC := newConf("ipa", ipaDict(), nil, nil)
	latticeOne := func(name string, i int, r *rand.Rand, cf *conf, base []string) {
		var words []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			w := strings.ReplaceAll(genText(r, nil, 20), "\x00", "")
			if r.Intn(5) == 0 {
				w = corpusSlice(r, 30)
			}
			if r.Intn(20) == 0 {
				w = ""
			}
			words = append(words, w)
		}
		if strings.HasPrefix(words[0], "-") {
			words[0] = "x" + words[0]
		}
		in := strings.Join(words, " ")
		args := append([]string{"lattice"}, base...)
		m := tokenizer.Normal
		if k := r.Intn(4); k < 3 {
			m = modes[k]
			args = append(args, "-mode", []string{"normal", "search", "extended"}[k])
		}
		verbose := r.Intn(2) == 0
		if verbose {
			args = append(args, "-v")
		}
		outFile := ""
		if r.Intn(2) == 0 {
			outFile = c.path(fmt.Sprintf("%s%d.dot", name, i))
			if r.Intn(3) > 0 { // longer and shorter previous contents
				os.WriteFile(outFile, []byte(strings.Repeat("old contents }\n", []int{1, 100000}[r.Intn(2)])), 0o644)
			}
			defer os.Remove(outFile)
			args = append(args, "-output", outFile)
		}
		args = append(args, words...)
		res, err := runCmd(bin, args, nil)
		if err != nil {
			setupError("%v", err)
		}
		desc := fmt.Sprintf("%s/%d kagome %q", name, i, args)
		if res.timeout || res.code != 0 {
			c.Fail(desc, "the command fails", in, "exit %d timeout %v stderr %q", res.code, res.timeout, clip(res.err, 1000))
			return
		}
		c.Guard(desc, in, func() {
			var b bytes.Buffer
			toks := cf.t.AnalyzeGraph(&b, in, m)
			got := res.out
			if outFile != "" {
				if res.out != "" {
					c.Fail(desc, "graph on standard output in spite of -output", in, "%q", clip(res.out, 300))
				}
				x, err := os.ReadFile(outFile)
				if err != nil {
					c.Fail(desc, "output file missing", in, "%v", err)
					return
				}
				got = string(x)
			}
			if g, w := graphDigest(got), graphDigest(b.String()); g != w {
				c.Fail(desc, "not the library's graph", in, "%s", textMismatch(g, w))
				return
			}
			want := ""
			if verbose {
				var v strings.Builder
				for _, t := range toks[1:] {
					e, err := cf.m.entry(t)
					if err != nil {
						c.Fail(desc, err.Error(), in, "")
						return
					}
					v.WriteString(t.Surface)
					if t.Class != tokenizer.DUMMY {
						v.WriteString("\t" + strings.Join(e.features, ","))
					}
					v.WriteString("\n")
				}
				want = v.String()
				vlines.Add(int64(len(toks) - 1))
			}
			if !textEqual(res.err, want) {
				c.Fail(desc, "standard error", in, "%s", textMismatch(res.err, want))
			}
			graphs.Add(1)
			c.Eval(hashStr("lattice", fmt.Sprint(args)), len(toks) >= 4)
			if len(in) < 60 {
				c.Sample(map[string]any{"command": args, "graph_bytes": len(got), "stderr": clip(res.err, 200)})
			}
		})
	}
	c.RunP("lattice", c.N(150, 2500), 8, func(i int, r *rand.Rand) {
		cf := ipaC
		var base []string
		if r.Intn(2) == 0 {
			base = append(base, "-dict", "ipa")
		}
		if r.Intn(3) == 0 {
			up := c.path(fmt.Sprintf("userL%d.txt", i))
			u := fileUserDict(r, []string{corpusSlice(r, 20) + "猫", corpusSlice(r, 100), "abcあいう"}, up)
			defer os.Remove(up)
			base = append(base, "-udict", up)
			cf = newConf("ipa+user", cf.m.d, nil, u)
		}
		latticeOne("lattice", i, r, cf, base)
	})
	uniC := newConf("uni", uniDict(), nil, nil)
	c.RunP("latticeuni", c.N(6, 60), 3, func(i int, r *rand.Rand) {
		latticeOne("latticeuni", i, r, uniC, []string{"-dict=uni"})
	})
}

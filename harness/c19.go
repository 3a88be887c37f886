package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
)

func init() {
	checks["C19"] = check{run: runC19}
}

// optSpec is what a command documents.
type optSpec struct {
	name   string
	strs   map[string]string // option and default
	bools  map[string]bool
	values map[string][]string // options with a closed set of values
	words  bool                // needs words
	check  func([]string) error
}

var modeNames = []string{"normal", "search", "extended"}
var dictNames = []string{"ipa", "uni"}

var specs = []*optSpec{
	{name: "tokenize", strs: map[string]string{"file": "", "dict": "", "udict": "", "sysdict": "ipa", "mode": "normal"}, bools: map[string]bool{"simple": false, "split": false, "json": false},
		values: map[string][]string{"mode": modeNames, "sysdict": dictNames}, check: tokenize.OptionCheck},
	{name: "sentence", strs: map[string]string{"file": ""}, check: sentence.OptionCheck},
	{name: "lattice", strs: map[string]string{"udict": "", "dict": "ipa", "mode": "normal", "output": ""}, bools: map[string]bool{"v": false},
		values: map[string][]string{"mode": modeNames, "dict": dictNames}, words: true, check: lattice.OptionCheck},
	{name: "server", strs: map[string]string{"http": ":6060", "userdict": "", "dict": "ipa"}, values: map[string][]string{"dict": dictNames}, check: server.OptionCheck},
}

var boolWords = map[string]bool{"1": true, "t": true, "T": true, "true": true, "TRUE": true, "True": true, "0": false, "f": false, "F": false, "false": false, "FALSE": false, "False": false}

// parsed is the outcome of reading arguments according to the documentation.
type parsed struct {
	ok    bool
	why   string
	empty bool // an option with a closed set of values is set to nothing: not specified
	strs  map[string]string
	bools map[string]bool
	words []string
}

func (o *optSpec) parse(args []string) parsed {
	p := parsed{strs: map[string]string{}, bools: map[string]bool{}}
	for k, v := range o.strs {
		p.strs[k] = v
	}
	for k, v := range o.bools {
		p.bools[k] = v
	}
	bad := func(format string, a ...any) parsed {
		p.why = fmt.Sprintf(format, a...)
		return p
	}
	i := 0
	for i < len(args) {
		a := args[i]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		i++
		name := a[1:]
		if a == "--" {
			break
		}
		name = strings.TrimPrefix(name, "-")
		if name == "" || name[0] == '-' || name[0] == '=' {
			return bad("bad option %q", a)
		}
		val, has := "", false
		if k := strings.IndexByte(name, '='); k > 0 {
			name, val, has = name[:k], name[k+1:], true
		}
		if _, ok := o.bools[name]; ok {
			b := true
			if has {
				if b, ok = boolWords[val]; !ok {
					return bad("bad value %q of %s", val, name)
				}
			}
			p.bools[name] = b
			continue
		}
		if _, ok := o.strs[name]; !ok {
			return bad("unknown option %q", a)
		}
		if !has {
			if i >= len(args) {
				return bad("no value of %s", name)
			}
			val = args[i]
			i++
		}
		p.strs[name] = val
	}
	p.words = args[i:]
	if o.words && len(p.words) == 0 {
		return bad("no words")
	}
	if !o.words && len(p.words) > 0 {
		return bad("stray arguments %q", p.words)
	}
	for k, vs := range o.values {
		v := p.strs[k]
		if v == "" {
			p.empty = true
			continue
		}
		found := false
		for _, x := range vs {
			found = found || v == x
		}
		if !found {
			return bad("bad value %q of %s", v, k)
		}
	}
	p.ok = true
	return p
}

// files that options may name, with the property that using them works.
type optFiles struct {
	good, bad map[string][]string // by kind: file, dict, udict, output
}

func (o *optSpec) genArgs(r *rand.Rand, fs *optFiles, wild bool) []string {
	var args []string
	names := []string{}
	for k := range o.strs {
		names = append(names, k)
	}
	for k := range o.bools {
		names = append(names, k)
	}
	sort.Strings(names)
	dash := func() string { return pick(r, []string{"-", "-", "--"}) }
	value := func(n string) string {
		if vs := o.values[n]; vs != nil {
			if wild && r.Intn(5) == 0 {
				return pick(r, []string{"", "IPA", "Normal", " normal", "ipa ", "unidic", "search,extended", "0", "normal\n", "検索", "ipa|uni", "extende", "-json", "neologd", "SEARCH"})
			}
			return pick(r, vs)
		}
		kind := n
		if n == "userdict" {
			kind = "udict"
		}
		if n == "http" {
			return "127.0.0.1:0"
		}
		if wild && r.Intn(6) == 0 {
			return pick(r, append([]string{""}, fs.bad[kind]...))
		}
		return pick(r, fs.good[kind])
	}
	for n := r.Intn(5); n > 0; n-- {
		if wild && r.Intn(6) == 0 {
			args = append(args, pick(r, []string{"-x", "--unknown", "-Mode", "-modes=normal", "-mod", "---json", "-=", "--=", "-=x", "-", "--", "stray", "猫", "-json=maybe", "-split=yes", "-v=", "-v=2", "-simple=", "-http2", "-j", "-file=", "-mode", "-dict", "-9", "tokenize", "-json,split", "-json =true", "", " ", "-ｊｓｏｎ"}))
			continue
		}
		if wild && r.Intn(8) == 0 { // an option of some command
			args = append(args, pick(r, []string{"-file", "-json", "-split", "-simple", "-sysdict=ipa", "-output=/dev/null", "-v", "-mode=normal", "-mode=search", "-dict=ipa"}))
			continue
		}
		k := pick(r, names)
		if _, ok := o.bools[k]; ok {
			a := dash() + k
			if r.Intn(3) == 0 {
				a += "=" + pick(r, []string{"1", "t", "T", "true", "TRUE", "True", "0", "f", "F", "false", "FALSE", "False"})
			}
			args = append(args, a)
			continue
		}
		v := value(k)
		if r.Intn(2) == 0 {
			args = append(args, dash()+k+"="+v)
		} else {
			args = append(args, dash()+k, v)
		}
	}
	if o.words && r.Intn(10) > 0 {
		if r.Intn(4) == 0 {
			args = append(args, "--")
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			args = append(args, pick(r, []string{"猫である", "すもも", "-v", "a b", "関西国際空港", "-x", "-"}))
		}
	}
	return args
}

// excluded says that the documentation leaves open what happens.
func excluded(args []string) bool {
	for _, a := range args {
		n := strings.TrimLeft(a, "-")
		if k := strings.IndexByte(n, '='); k >= 0 {
			n = n[:k]
		}
		if strings.HasPrefix(a, "-") && (n == "h" || n == "help" || n == "userdict") {
			return true
		}
	}
	return false
}

func runC19(c *Ctx) {
	c.Rule("a case is one argument list for one command, generated valid and invalid: the option check of the command against an independent reading of the documented options; the binary built from /repo must succeed exactly if options and files are good and otherwise print nothing on standard output, something on standard error and end with a non-zero status; default command against tokenize; the server's Run with a cancelled context; non-trivial: at least one argument")
	c.Assume("-h, -help and tokenize's -userdict (documented, but spelled -udict) are left out, and so are empty values of options with a closed set of values")
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	bin := c.kagome()
	// files
	r0 := c.Rand("files", 0)
	fs := &optFiles{good: map[string][]string{}, bad: map[string][]string{}}
	write := func(name, s string) string {
		p := c.path(name)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			setupError("%v", err)
		}
		return p
	}
	missing, dir := c.path("missing", "x"), c.path("dir")
	os.Mkdir(dir, 0o755)
	fs.good["file"] = []string{write("in1.txt", "猫である。名前はまだ無い。\nすもも\n"), write("in2.txt", "a\n\nb"), write("empty.txt", "")}
	fs.bad["file"] = []string{missing, dir, c.path("in1.txt", "x"), "no such file"}
	s := genSynth(r0)
	for s.D.Contents == nil {
		s = genSynth(r0)
	}
	dp := c.path("good.dict")
	if _, _, err := saveDict(dp, s.D); err != nil {
		setupError("%v", err)
	}
	zb, _ := os.ReadFile(dp)
	fs.good["dict"] = []string{dp}
	fs.bad["dict"] = []string{missing, dir, write("text.dict", "これは辞書ではない\n"), write("empty.dict", ""), write("cut1.dict", string(zb[:len(zb)/2])), write("cut2.dict", string(zb[:len(zb)-30])), write("cut3.dict", string(zb[len(zb)/3:len(zb)-5]))}
	fs.good["udict"] = []string{write("u1.txt", "# x\n猫である,猫 である,ネコ デアル,カスタム\n\n"), write("u2.txt", "日本経済新聞,日本 経済 新聞,ニホン ケイザイ シンブン,カスタム名詞\n")}
	fs.bad["udict"] = []string{missing, dir, write("ub1.txt", "猫である,猫 である,ネコ デアル\n"), write("ub2.txt", "猫である,猫 である,ネコデアル,カスタム\n"), write("ub3.txt", "猫\n"), write("ub4.txt", "猫,猫,ネコ,名詞,余分\n"), write("ub5.txt", "良い,良い,ヨイ,形容詞\n壊れた行\n")}
	fs.good["output"] = []string{c.path("out.dot")}
	fs.bad["output"] = []string{filepath.Join(missing, "y.dot"), dir}
	// unusable says that the value of an option names a file that cannot be used
	unusable := func(kind, v string) bool {
		if v == "" {
			return false
		}
		if kind == "output" { // anything can be created in the working directory
			for _, x := range fs.bad[kind] {
				if x == v {
					return true
				}
			}
			return false
		}
		for _, x := range fs.good[kind] {
			if x == v {
				return false
			}
		}
		return true
	}
	cmdDir = c.path("cwd")
	os.Mkdir(cmdDir, 0o755)

	// option checks
	for _, o := range specs {
		o := o
		c.Run("check "+o.name, c.N(30000, 1000000), func(i int, r *rand.Rand) {
			args := o.genArgs(r, fs, true)
			if o.name != "server" && excluded(args) {
				return
			}
			p := o.parse(args)
			if p.ok && p.empty {
				return
			}
			err := o.check(append([]string{}, args...))
			if (err == nil) != p.ok {
				c.Fail(fmt.Sprintf("check %s/%d", o.name, i), "the option check is wrong", fmt.Sprintf("%q", args), "accepted %v, want %v (%s): %v", err == nil, p.ok, p.why, err)
			}
			if p.ok {
				c.Count("lists accepted by "+o.name, 1)
			} else {
				c.Count("lists refused by "+o.name, 1)
			}
			c.Eval(hashStr(append([]string{o.name}, args...)...), len(args) > 0)
		})
	}
	// the server gets past its options exactly then
	c.RunP("server run", c.N(300, 4000), 8, func(i int, r *rand.Rand) {
		o := specs[3]
		args := append([]string{"-http", "127.0.0.1:0"}, o.genArgs(r, fs, true)...)
		for _, a := range args {
			if strings.HasPrefix(strings.TrimLeft(a, "-"), "dict=uni") || a == "uni" {
				return // slow to load
			}
		}
		p := o.parse(args)
		if p.ok && p.empty || p.strs["http"] != "127.0.0.1:0" {
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		done := make(chan error, 1)
		go func() { done <- server.Run(ctx, args) }()
		want := p.ok && !unusable("udict", p.strs["userdict"])
		select {
		case err := <-done:
			if (err == nil) != want {
				c.Fail(fmt.Sprintf("server run/%d", i), "running the server disagrees with its options", fmt.Sprintf("%q", args), "error %v, want success %v (%s)", err, want, p.why)
			}
		case <-time.After(60 * time.Second):
			c.Fail(fmt.Sprintf("server run/%d", i), "does not end", fmt.Sprintf("%q", args), "")
		}
		c.Eval(hashStr(append([]string{"run server"}, args...)...), true)
		c.Count("server runs in process", 1)
	})
	// the binary
	run := func(desc string, args []string, in string) (cmdResult, bool) {
		res, err := runCmdT(60*time.Second, bin, args, strings.NewReader(in))
		if err != nil {
			setupError("%v", err)
		}
		if res.timeout {
			c.Fail(desc, "the command does not end", fmt.Sprintf("%q", args), "")
			return res, false
		}
		return res, true
	}
	judge := func(desc string, args []string, res cmdResult, want bool, why string) {
		switch {
		case want && res.code != 0:
			c.Fail(desc, "fails although options and files are good", fmt.Sprintf("%q", args), "exit %d stderr %q", res.code, clip(res.err, 1000))
		case !want && res.code == 0:
			c.Fail(desc, "succeeds although "+why, fmt.Sprintf("%q", args), "stdout %q stderr %q", clip(res.out, 500), clip(res.err, 500))
		case !want && res.out != "":
			c.Fail(desc, "prints something although "+why, fmt.Sprintf("%q", args), "stdout %q", clip(res.out, 500))
		case !want && strings.TrimSpace(res.err) == "":
			c.Fail(desc, "fails without a message: "+why, fmt.Sprintf("%q", args), "exit %d", res.code)
		case !want && (strings.Contains(res.err, "panic:") || strings.Contains(res.err, "goroutine 1 [")):
			c.Fail(desc, "crashes: "+why, fmt.Sprintf("%q", args), "%s", clip(res.err, 2000))
		}
	}
	for k, o := range specs {
		o, k := o, k
		c.RunP("run "+o.name, c.N([]int{500, 300, 260, 120}[k], []int{8000, 5000, 3000, 2000}[k]), 8, func(i int, r *rand.Rand) {
			args := o.genArgs(r, fs, r.Intn(4) > 0)
			if o.name == "tokenize" && r.Intn(4) > 0 {
				args = append([]string{"-dict", dp}, args...) // fast to load
			}
			if o.name != "server" && excluded(args) {
				return
			}
			if o.name == "lattice" { // one output file per case
				for j := range args {
					args[j] = strings.ReplaceAll(args[j], c.path("out.dot"), c.path(fmt.Sprintf("out%d.dot", i)))
				}
			}
			p := o.parse(args)
			if p.ok && p.empty {
				return
			}
			if o.name == "server" {
				if p.ok && !unusable("udict", p.strs["userdict"]) {
					return // would run
				}
				args = append([]string{"-http", "127.0.0.1:0"}, args...)
				p = o.parse(args)
			}
			want, why := p.ok, p.why
			if want {
				for name, kind := range map[string]string{"file": "file", "udict": "udict", "userdict": "udict", "output": "output"} {
					if v, ok := p.strs[name]; ok && unusable(kind, v) {
						want, why = false, name+" cannot be used"
					}
				}
				if o.name == "tokenize" && unusable("dict", p.strs["dict"]) {
					want, why = false, "the dictionary cannot be used"
				}
			}
			slow := false
			for _, a := range args {
				slow = slow || strings.HasSuffix(a, "uni")
			}
			if want && slow && r.Intn(10) > 0 {
				return
			}
			const in = "猫\nである\n"
			full := append([]string{o.name}, args...)
			desc := fmt.Sprintf("run %s/%d", o.name, i)
			res, ok := run(desc, full, in)
			if !ok {
				return
			}
			judge(desc, full, res, want, why)
			if want {
				c.Count("runs that succeed", 1)
			} else {
				c.Count("runs that fail loudly", 1)
			}
			c.Eval(hashStr(append([]string{"run"}, full...)...), len(args) > 0)
			if r.Intn(20) == 0 {
				c.Sample(map[string]any{"command": full, "exit": res.code, "stdout": clip(res.out, 200), "stderr": clip(res.err, 200), "expected_success": want})
			}
			if o.name == "tokenize" && (len(args) == 0 || !isCommand(args[0])) {
				d, ok := run(desc, args, in)
				if !ok {
					return
				}
				judge(desc+" default", args, d, want, why)
				if d.out != res.out || (d.code == 0) != (res.code == 0) {
					c.Fail(desc, "the default command differs from tokenize", fmt.Sprintf("%q", args), "exit %d and %d: %s", d.code, res.code, textMismatch(d.out, res.out))
				}
				c.Count("default and explicit command compared", 1)
			}
		})
	}
	// one fault together with every other option
	type faulty struct {
		o   *optSpec
		bad []string
		opt string
		why string
		add []string
	}
	var faults []faulty
	for _, o := range specs {
		names := []string{}
		good := map[string][]string{}
		for n := range o.strs {
			kind := map[bool]string{true: "udict", false: n}[n == "userdict"]
			switch {
			case n == "http":
				continue
			case n == "output":
				good[n] = []string{"-" + n, c.path("fault-out.dot")}
			case n == "mode":
				good[n] = []string{"-mode=extended"}
			case o.values[n] != nil:
				good[n] = []string{"-" + n + "=" + o.values[n][0]}
			default:
				good[n] = []string{"-" + n, fs.good[kind][0]}
			}
			names = append(names, n)
		}
		for n := range o.bools {
			good[n] = []string{"-" + n}
			names = append(names, n)
		}
		sort.Strings(names)
		add := func(opt, why string, bad ...string) {
			var all []string
			for _, n := range names {
				if n != opt {
					faults = append(faults, faulty{o, bad, opt, why, good[n]})
					all = append(all, good[n]...)
				}
			}
			faults = append(faults, faulty{o, bad, opt, why, nil}, faulty{o, bad, opt, why, all})
		}
		for _, n := range names {
			kind := map[bool]string{true: "udict", false: n}[n == "userdict"]
			if o.values[n] != nil {
				add(n, "invalid "+n, "-"+n, "bad")
				continue
			}
			if n == "dict" && o.name != "tokenize" {
				continue
			}
			for _, b := range fs.bad[kind] {
				add(n, n+" cannot be used", "-"+n, b)
			}
		}
		add("", "unknown option", "-unknown")
		if !o.words {
			add("", "stray argument", "stray")
		}
	}
	c.RunP("faults", len(faults), 8, func(i int, r *rand.Rand) {
		f := faults[i]
		args := append(append([]string{}, f.bad...), f.add...)
		if f.why == "stray argument" || r.Intn(2) == 0 {
			args = append(append([]string{}, f.add...), f.bad...)
		}
		if f.o.name == "tokenize" && f.opt != "dict" && !hasPrefixArg(args, "-dict") {
			args = append([]string{"-dict", dp}, args...)
		}
		if f.o.name == "server" {
			args = append([]string{"-http", "127.0.0.1:0"}, args...)
		}
		if f.o.words {
			args = append(args, "猫である")
		}
		for j := range args {
			args[j] = strings.ReplaceAll(args[j], c.path("fault-out.dot"), c.path(fmt.Sprintf("fault%d.dot", i)))
		}
		full := append([]string{f.o.name}, args...)
		desc := fmt.Sprintf("faults/%d", i)
		res, ok := run(desc, full, "猫\nである\n")
		if !ok {
			return
		}
		judge(desc, full, res, false, f.why)
		c.Count("faults combined with another option", 1)
		c.Eval(hashStr(append([]string{"fault"}, full...)...), true)
	})
	// commands
	for _, n := range []string{"Tokenize", "tokeniz", "servers", "versions", "lattices", "help", "-version", "猫"} {
		res, ok := run("command "+n, []string{n}, "")
		if !ok {
			return
		}
		judge("command "+n, []string{n}, res, false, "there is no such command")
		c.Eval(hashStr("command", n), true)
	}
	res, ok := run("version", []string{"version"}, "")
	if ok && (res.code != 0 || strings.TrimSpace(res.out+res.err) == "") {
		c.Fail("version", "the version command fails", "", "exit %d %q", res.code, res.err)
	}
	c.Eval(hashStr("version"), true)
}

func hasPrefixArg(args []string, p string) bool {
	for _, a := range args {
		if a == p || strings.HasPrefix(a, p+"=") {
			return true
		}
	}
	return false
}

func isCommand(s string) bool {
	switch s {
	case "tokenize", "server", "lattice", "sentence", "version":
		return true
	}
	return false
}

package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf16"

	"github.com/ikawaha/kagome/v2/tokenizer"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

func init() { checks["C23"] = check{run: runC23} }

//go:embed data/wasm.js
var wasmJS string

// wasmToken is an element of what kagome_tokenize returns.
type wasmToken struct {
	ID   int    `json:"word_id"`
	Type string `json:"word_type"`
	Pos  int    `json:"word_position"`
	Form string `json:"surface_form"`
	POS  string `json:"pos"`
	Base string `json:"base_form"`
	Read string `json:"reading"`
	Pron string `json:"pronunciation"`
}

func showWasm(ts []wasmToken) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%d %s %d %q %q %q %q %q\n", t.ID, t.Type, t.Pos, t.Form, t.POS, t.Base, t.Read, t.Pron)
	}
	return b.String()
}

// symbols group to one word, so that a word can be markup.
var wasmHostile = []string{"<!--", "-->", "<!", "<?", "</", "<>", "<!-- 猫 -->", "&", "&#", "<", ">", "\"", "'", "<![", "]]>", "<%", "%>", "<猫>", "</猫>", "<b>", "</td>", "<img src=x onerror=alert(1)>", "&lt;", "&amp;", "&#60;", "\x00", "\u2028", "＜", "$", "{{", "}}", "`"}

func runC23(c *Ctx) {
	c.Rule("a case is a string given to kagome_tokenize of the WebAssembly example running in node, compared with the library's tokens, and the script of each page that shows them, run against stand-ins for the browser: what it hands over as markup is parsed as HTML and must have no elements but rows and cells, and every surface must be shown as text; non-trivial: at least two tokens")
	c.Assume("node stands for the browser", "golang.org/x/net/html parses markup as browsers do")
	node, err := exec.LookPath("node")
	if err != nil {
		c.Count("not judged without node", 1)
		return
	}
	exe := filepath.Join(c.Bin, "example.wasm")
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		setupError("%v", err)
	}
	glue := ""
	for _, dir := range []string{"lib/wasm", "misc/wasm"} {
		p := filepath.Join(strings.TrimSpace(string(root)), dir, "wasm_exec.js")
		if _, err := os.Stat(p); err == nil {
			glue = p
		}
	}
	if glue == "" {
		c.Count("not judged without wasm_exec.js", 1)
		return
	}
	if _, err := os.Stat(exe); err != nil {
		log, _ := os.ReadFile(exe + ".log")
		c.Fail("build", "the example does not compile", "", "%s", clip(string(log), 4000))
		return
	}
	cf := newConf("ipa", ipaDict(), nil, nil)
	js, dom := c.path("wasm.js"), c.path("dom.js")
	for p, s := range map[string]string{js: wasmJS, dom: domJS} {
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			setupError("%v", err)
		}
	}
	pages := map[string]*page{}
	for _, p := range []string{"/repo/_examples/wasm/kagome.html", "/repo/docs/index.html"} {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		pg, err := parsePage(string(b))
		if err != nil || len(pg.scripts) == 0 {
			continue
		}
		pages[p] = pg
	}
	c.RunP("calls", c.N(6, 60), 4, func(n int, r *rand.Rand) {
		var ins []string
		var units [][]uint16
		for k := 0; k < 60; k++ {
			var in string
			switch {
			case k == 0:
				in = pick(r, []string{"", "", genDoc(r, 20000)})
			case r.Intn(3) == 0:
				for m := 1 + r.Intn(6); m > 0; m-- {
					in += pick(r, wasmHostile) + pick(r, []string{"", " ", "猫", "東京都"})
				}
			case r.Intn(2) == 0:
				in = corpusSlice(r, 100)
			default:
				in = genText(r, nil, 60)
			}
			u := utf16.Encode([]rune(in))
			if r.Intn(6) == 0 { // half a character
				at := r.Intn(len(u) + 1)
				u = append(u[:at:at], append([]uint16{0xd800 + uint16(r.Intn(0x800))}, u[at:]...)...)
			}
			ins = append(ins, string(utf16.Decode(u)))
			units = append(units, u)
		}
		q, _ := json.Marshal(units)
		out := c.path(fmt.Sprintf("out%d", n))
		defer os.Remove(out)
		res, err := runCmd(node, []string{"--stack-size=8192", js, glue, exe, out}, bytes.NewReader(q))
		if err != nil {
			setupError("%v", err)
		}
		b, _ := os.ReadFile(out)
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(nil, 1<<28)
		k := -1
		for sc.Scan() {
			if k < 0 { // no argument
				k++
				continue
			}
			if k >= len(ins) {
				break
			}
			in := ins[k]
			where := fmt.Sprintf("calls/%d/%d", n, k)
			k++
			var got []wasmToken
			if err := json.Unmarshal(sc.Bytes(), &got); err != nil {
				c.Fail(where, "no list of tokens", in, "%v in %s", err, clip(sc.Text(), 1000))
				continue
			}
			var want []wasmToken
			for _, t := range cf.t.Tokenize(in) {
				if t.ID == tokenizer.BosEosID && t.Class == tokenizer.DUMMY {
					continue
				}
				e, err := cf.m.entry(t)
				if err != nil {
					setupError("%v", err)
				}
				get := func(k string) string { s, _ := e.attr(k); return s }
				// (Go's glue code for browsers drops a byte order mark at the start of a string)
				want = append(want, wasmToken{t.ID, e.class, t.Start, strings.TrimPrefix(t.Surface, "\ufeff"), strings.Join(e.pos, ","), get("_base"), get("_reading"), get("_pronunciation")})
			}
			if x, y := showWasm(got), showWasm(want); x != y {
				c.Fail(where, "the example does not return the library's tokens", in, "%s", textMismatch(x, y))
				continue
			}
			c.Count("tokens compared", len(got))
			c.Eval(hashStr("call", in), len(got) >= 2)
			if len(in) > 400 || k > c.N(25, 60) {
				continue
			}
			for path, pg := range pages {
				c.pageCheck(where+" "+path, node, dom, pg, in, sc.Text(), got)
			}
		}
		if res.code != 0 || res.timeout || k < len(ins) {
			at := ""
			if k >= 0 && k < len(ins) {
				at = ins[k]
			}
			c.Fail(fmt.Sprintf("calls/%d", n), "the example ends or hangs", at, "exit %d, timeout %v, after %d of %d calls: %s", res.code, res.timeout, k, len(ins), clip(res.err, 4000))
		}
	})
}

// pageCheck runs the script of a page that shows tokens.
func (c *Ctx) pageCheck(where, node, dom string, pg *page, in, tokens string, toks []wasmToken) {
	q, _ := json.Marshal(map[string]any{"scripts": pg.scripts, "handlers": pg.handlers, "sentence": in, "mode": "", "reply": "[]", "tokens": json.RawMessage(tokens)})
	cr, err := runCmd(node, []string{dom}, bytes.NewReader(q))
	var v struct {
		Sinks, Texts, Unknown []string
		Posts                 int
	}
	if err != nil || cr.code != 0 || json.Unmarshal([]byte(cr.out), &v) != nil || v.Posts == 0 {
		c.Count("page runs not judged", 1)
		return
	}
	shown := map[string]bool{}
	for _, t := range v.Texts {
		shown[cellText(t)] = true
	}
	for _, s := range v.Sinks {
		low := strings.ToLower(strings.TrimSpace(s))
		ctx := "body"
		if strings.HasPrefix(low, "<tr") {
			ctx = "tbody"
		} else if strings.HasPrefix(low, "<td") || strings.HasPrefix(low, "<th") {
			ctx = "tr"
		}
		root := &html.Node{Type: html.ElementNode, Data: ctx, DataAtom: atom.Lookup([]byte(ctx))}
		ns, err := html.ParseFragment(strings.NewReader(s), root)
		if err != nil {
			continue
		}
		var walk func(n *html.Node)
		walk = func(n *html.Node) {
			switch {
			case n.Type == html.CommentNode, n.Type == html.ElementNode && (n.Data != "tr" && n.Data != "td" && n.Data != "th" && n.Data != "tbody" || len(n.Attr) > 0):
				c.Fail(where, "the page makes markup of the input", in, "%q in %q", describe(n), clip(s, 1000))
			case n.Type == html.ElementNode && n.Data == "td":
				shown[cellText(nodeText(n))] = true
			}
			for x := n.FirstChild; x != nil; x = x.NextSibling {
				walk(x)
			}
		}
		for _, n := range ns {
			walk(n)
		}
	}
	for _, t := range toks {
		if f := cellText(t.Form); !shown[f] && f != "" && !strings.Contains(f, "\uFFFD") {
			c.Fail(where, "the page does not show a token", in, "%q; markup %q texts %q", t.Form, clip(fmt.Sprint(v.Sinks), 1500), clip(fmt.Sprint(v.Texts), 1500))
			return
		}
	}
	c.Count("page runs", 1)
	c.Eval(hashStr("page", where, in), len(toks) >= 2)
}

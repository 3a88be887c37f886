package main

import (
	"bufio"
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"mime"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

func init() {
	checks["C17"] = check{run: runC17}
}

//go:embed data/dom.js
var domJS string

// demoServerMain is the process with the server; it answers questions about its goroutines.
func demoServerMain(args []string) {
	log.SetOutput(io.Discard)
	go func() {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			buf := make([]byte, 64<<20)
			buf = buf[:runtime.Stack(buf, true)]
			var mine []string
			for _, g := range strings.Split(string(buf), "\n\n") {
				if strings.Contains(g, "kagome/v2/cmd/") || strings.Contains(g, "os/exec.") || strings.Contains(g, "kagome/v2/tokenizer") {
					mine = append(mine, g)
				}
			}
			b, _ := json.Marshal(mine)
			os.Stdout.Write(append(b, '\n'))
		}
		os.Exit(0) // the harness is gone
	}()
	if err := server.Run(context.Background(), args); err != nil {
		fmt.Fprintln(os.Stderr, "server:", err)
		os.Exit(1)
	}
}

type demoServer struct {
	*srvProc
	in  io.WriteCloser
	out *bufio.Reader
	mu  sync.Mutex
}

func startDemo(path string, args ...string) *demoServer {
	exe, err := os.Executable()
	if err != nil {
		setupError("%v", err)
	}
	for try := 0; ; try++ {
		addr := fmt.Sprintf("127.0.0.1:%d", freePort())
		d := &demoServer{srvProc: &srvProc{addr: addr, err: &syncBuf{}, done: make(chan struct{})}}
		d.cmd = exec.Command(exe, append([]string{"-child", "C17", "-http", addr}, args...)...)
		d.cmd.Env = append(os.Environ(), "PATH="+path)
		d.cmd.Stderr = d.err
		var err error
		if d.in, err = d.cmd.StdinPipe(); err != nil {
			setupError("%v", err)
		}
		o, err := d.cmd.StdoutPipe()
		if err != nil {
			setupError("%v", err)
		}
		d.out = bufio.NewReaderSize(o, 1<<20)
		if err := d.cmd.Start(); err != nil {
			setupError("%v", err)
		}
		go func() { d.cmd.Process.Wait(); close(d.done) }()
		if d.waitUp(240*time.Second) || try == 2 {
			return d
		}
		d.cmd.Process.Kill()
	}
}

func (d *demoServer) goroutines() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	fmt.Fprintln(d.in, "g")
	l, err := d.out.ReadString('\n')
	if err != nil {
		return nil
	}
	var v []string
	json.Unmarshal([]byte(l), &v)
	return v
}

// children are the processes started by a process, or carrying the marker.
func children(pid int, marker string) []string {
	var out []string
	dirs, _ := filepath.Glob("/proc/[0-9]*")
	for _, d := range dirs {
		b, err := os.ReadFile(d + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		k := strings.LastIndexByte(s, ')')
		f := strings.Fields(s[k+1:])
		cl, _ := os.ReadFile(d + "/cmdline")
		if len(f) > 1 && f[1] == fmt.Sprint(pid) || marker != "" && strings.Contains(string(cl), marker) {
			out = append(out, fmt.Sprintf("%s %s %q", filepath.Base(d), s[:min(len(s), k+4)], cl))
		}
	}
	return out
}

// page is what the harness sees of a page.
type page struct {
	skeleton []string // elements outside the token rows and the graph
	rows     [][]string
	svg      map[string]bool // kinds of elements of the graph
	text     string          // outside rows, graph and scripts
	scripts  []string
	handlers []string
	comments int
}

func nodeText(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	var b strings.Builder
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		b.WriteString(nodeText(c))
	}
	return b.String()
}

func describe(n *html.Node) string {
	var as []string
	for _, a := range n.Attr {
		k := strings.ToLower(a.Namespace + ":" + a.Key)
		switch l := strings.ToLower(a.Key); {
		case strings.HasPrefix(l, "on") || l == "href" || l == "src" || l == "style" || l == "action" || l == "formaction" || l == "srcdoc":
			k += "=" + a.Val
		}
		as = append(as, k)
	}
	sort.Strings(as)
	return n.Data + "[" + strings.Join(as, " ") + "]"
}

func parsePage(body string) (*page, error) {
	doc, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return nil, err
	}
	p := &page{svg: map[string]bool{}}
	var text strings.Builder
	var walk func(n *html.Node, depth int)
	var svg func(n *html.Node)
	svg = func(n *html.Node) {
		if n.Type == html.ElementNode {
			p.svg[describe(n)] = true
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			svg(c)
		}
	}
	walk = func(n *html.Node, depth int) {
		switch n.Type {
		case html.CommentNode:
			p.comments++
		case html.TextNode:
			text.WriteString(n.Data + " ")
		case html.ElementNode:
			for _, a := range n.Attr {
				if strings.HasPrefix(strings.ToLower(a.Key), "on") {
					p.handlers = append(p.handlers, a.Val)
				}
			}
			switch n.Data {
			case "svg":
				svg(n)
				return
			case "script", "style":
				p.skeleton = append(p.skeleton, fmt.Sprintf("%d %s", depth, describe(n)))
				if n.Data == "script" {
					p.scripts = append(p.scripts, nodeText(n))
				}
				return
			case "tr":
				var cells []string
				other := false
				for c := n.FirstChild; c != nil; c = c.NextSibling {
					if c.Type == html.ElementNode {
						if c.Data == "td" && len(c.Attr) == 0 {
							cells = append(cells, nodeText(c))
							for k := c.FirstChild; k != nil; k = k.NextSibling {
								if k.Type != html.TextNode {
									other = true
								}
							}
							continue
						}
						other = true
					} else if c.Type == html.CommentNode {
						other = true
					}
				}
				if len(cells) == 5 && !other {
					p.rows = append(p.rows, cells)
					return
				}
			}
			p.skeleton = append(p.skeleton, fmt.Sprintf("%d %s", depth, describe(n)))
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, depth+1)
		}
	}
	walk(doc, 0)
	p.text = text.String()
	return p, nil
}

// cellText is how a text looks after it has been through a page.
func cellText(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	var b strings.Builder
	for _, c := range s {
		if c == 0 {
			c = '\uFFFD'
		}
		b.WriteRune(c)
	}
	return strings.TrimSpace(b.String())
}

func demoRows(cf *conf, s string, m tokenizer.TokenizeMode) ([][]string, error) {
	var out [][]string
	for _, t := range cf.t.Analyze(s, m) {
		if t.ID == tokenizer.BosEosID && t.Class == tokenizer.DUMMY {
			continue
		}
		e, err := cf.m.entry(t)
		if err != nil {
			return nil, err
		}
		get := func(k string) string {
			if v, ok := e.attr(k); ok {
				return v
			}
			return "*"
		}
		pos := strings.Join(e.pos, ",")
		if pos == "" {
			pos = "*"
		}
		out = append(out, []string{t.Surface, pos, get(dict.BaseFormIndex), get(dict.ReadingIndex), get(dict.PronunciationIndex)})
	}
	return out, nil
}

func rowMismatch(got, want [][]string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d rows, want %d: %s", len(got), len(want), clip(fmt.Sprintf("%q", got), 1500))
	}
	for i := range got {
		for k := range got[i] {
			if cellText(got[i][k]) != cellText(want[i][k]) {
				return fmt.Sprintf("row %d is %q, want %q", i, got[i], want[i])
			}
		}
	}
	return ""
}

var hostileBits = []string{
	"<script>alert(1)</script>", "\"><img src=x onerror=alert(1)>", "</textarea><b>", "</td></tr><tr><td>", "</title>", "<!--", "-->", "]]>", "<![CDATA[", "</svg><a href='x'>",
	"' onmouseover='x", "\" onfocus=\"x", "javascript:alert(1)", "{{.Sentence}}", "{{", "}}", "&lt;i&gt;", "&#60;b&#62;", "&amp;", "\\\"", "\\", "\"", "\" URL=\"javascript:x", "\"];x[label=\"<b>", "\\N", "\\G", "\\l\\r",
	"<", ">", "<a", "<b>猫</b>", "</div>", "<?xml", "%3Cb%3E", "\u2028", "`", "${x}", "';", "*/", "</style>", "<svg onload=x>", "\x00", "\xff", "\xe3\x81", "\n", "\r\n", "+", "%", "#", ";", "=", "\u00a0",
	"<TABLE BORDER=\"1\"><TR>", "<BR/>",
}

func genHostile(r *rand.Rand, size int) string {
	var b strings.Builder
	for n := 1 + r.Intn(5); n > 0; n-- {
		if r.Intn(2) == 0 {
			b.WriteString(corpusSlice(r, size))
		}
		if r.Intn(4) == 0 {
			b.WriteString(genText(r, nil, size))
		}
		b.WriteString(pick(r, hostileBits))
	}
	if r.Intn(12) == 0 {
		return corpusSlice(r, size)
	}
	return b.String()
}

var demoModes = []struct {
	name   string
	m      tokenizer.TokenizeMode
	benign string
}{
	{"", tokenizer.Normal, ""}, {"Normal", tokenizer.Normal, "Normal"}, {"Search", tokenizer.Search, "Search"}, {"Extended", tokenizer.Search, "Extended"},
	{"search", tokenizer.Normal, "search"}, {"EXTENDED", tokenizer.Normal, "EXTENDED"}, {"Search", tokenizer.Search, "Search"}, {"Extended", tokenizer.Search, "Extended"}, {" Search", tokenizer.Normal, " Search"}, {"Other", tokenizer.Normal, "Other"},
	{"\"><b>", tokenizer.Normal, "zzz"}, {"</td><script>x</script>", tokenizer.Normal, "zzz"}, {"' onclick='x", tokenizer.Normal, "zzz"},
}

// demoRequest sends a request for the page.
func demoRequest(ctx context.Context, r *rand.Rand, client *http.Client, base, s, mode string, lattice bool) (int, string, error) {
	status, body, _, err := demoRequestType(ctx, r, client, base, s, mode, lattice)
	return status, body, err
}

// demoRequestType is demoRequest and the content type of the answer.
func demoRequestType(ctx context.Context, r *rand.Rand, client *http.Client, base, s, mode string, lattice bool) (int, string, string, error) {
	f := url.Values{"s": {s}, "r": {mode}}
	if lattice {
		f.Set("lattice", pick(r, []string{"Lattice", "1", "true"}))
	}
	var req *http.Request
	var err error
	path := pick(r, []string{"/", "/_demo", "/x/y"})
	switch k := r.Intn(3); {
	case k == 0 && len(s) < 2000:
		req, err = http.NewRequestWithContext(ctx, pick(r, []string{"GET", "POST"}), base+path+"?"+f.Encode(), nil)
	case k == 1:
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		for n, v := range f {
			mw.WriteField(n, v[0])
		}
		mw.Close()
		req, err = http.NewRequestWithContext(ctx, "POST", base+path, &b)
		if err == nil {
			req.Header.Set("Content-Type", mw.FormDataContentType())
		}
	default:
		req, err = http.NewRequestWithContext(ctx, "POST", base+path, strings.NewReader(f.Encode()))
		if err == nil {
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		}
	}
	if err != nil {
		return 0, "", "", err
	}
	res, err := client.Do(req)
	if err != nil {
		return 0, "", "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, string(b), res.Header.Get("Content-Type"), err
}

func runC17(c *Ctx) {
	c.Rule("a case is one request to the demo page of the real server while the graph renderer behaves in one of many ways (the real dot, missing, not executable, failing with and without reading, silent, garbage, partial, huge, flooding standard error, killed, slow, hanging): the page must be complete, its rows those of the library, its elements those of a harmless request (HTML5 parser), the graph free of foreign elements, an error shown if rendering failed; after each phase no goroutine of the server code and no child process may be left, also after clients disconnected; the page's script runs against stand-ins for the browser and what it hands over as markup is parsed the same way; non-trivial: a sentence of at least two tokens")
	c.Assume("the stand-in renderers have no children of their own", "golang.org/x/net/html parses pages as browsers do", "the real dot escapes text in its SVG output")
	rowsSeen := c.Counter("rows_compared")
	bindir := c.path("bin")
	if err := os.MkdirAll(bindir, 0o755); err != nil {
		setupError("%v", err)
	}
	marker := fmt.Sprintf("9876.%d%d", os.Getpid(), time.Now().UnixNano())
	dot := filepath.Join(bindir, "dot")
	setDot := func(body string, mode os.FileMode) {
		tmp := dot + ".tmp"
		os.Remove(tmp)
		if err := os.WriteFile(tmp, []byte("#!/bin/sh\n"+body+"\n"), mode); err != nil {
			setupError("%v", err)
		}
		os.Chmod(tmp, mode)
		if err := os.Rename(tmp, dot); err != nil {
			setupError("%v", err)
		}
	}
	realDot, _ := exec.LookPath("dot")
	r0 := c.Rand("setup", 0)
	up := c.path("user.txt")
	u := fileUserDict(r0, []string{corpusSlice(r0, 300), corpusSlice(r0, 300)}, up)
	// words that are markup, so that a token can be markup
	f, _ := os.OpenFile(up, os.O_APPEND|os.O_WRONLY, 0)
	recs := append([]dict.UserDicRecord{}, u.Recs...)
	for _, w := range []string{"<script>alert(1)</script>", "<!--", "</svg>", "\\\"", "<b>猫</b>"} {
		fmt.Fprintf(f, "%s,%s,%s,%s\n", w, w, "<i>", "<u>\"")
		recs = append(recs, dict.UserDicRecord{Text: w, Tokens: []string{w}, Yomi: []string{"<i>"}, Pos: "<u>\""})
	}
	f.Close()
	u = newUserDict(recs)
	cf := newConf("ipa+user", ipaDict(), nil, u)
	d := startDemo(bindir, "-userdict", up)
	if !d.alive() {
		c.Fail("start", "the server does not start", "", "%s", clip(d.err.String(), 3000))
		return
	}
	defer func() { d.in.Close(); d.cmd.Process.Kill() }()
	base := "http://" + d.addr
	const okSVG = `<?xml version="1.0"?>` + "\n" + `<svg width="8pt" height="8pt"><g><title>t</title><text>x</text></g></svg>`

	var bmu sync.Mutex
	benign := map[string]*page{}
	getBenign := func(client *http.Client, key, mode string, lattice bool) *page {
		bmu.Lock()
		defer bmu.Unlock()
		key = fmt.Sprintf("%s %q %v", key, mode, lattice)
		if p := benign[key]; p != nil {
			return p
		}
		_, body, err := demoRequest(context.Background(), rand.New(rand.NewSource(1)), client, base, "猫である", mode, lattice)
		if err != nil {
			return nil
		}
		p, err := parsePage(body)
		if err != nil {
			return nil
		}
		benign[key] = p
		return p
	}
	var baseline []string
	leftover := func(phase string, client *http.Client) {
		client.CloseIdleConnections()
		limit := 50 * time.Second
		if strings.HasSuffix(phase, "disconnect") { // nobody waits for the time limit of the renderer
			limit = 16 * time.Second
		}
		end := time.Now().Add(limit)
		var g, ch []string
		for {
			g, ch = d.goroutines(), children(d.cmd.Process.Pid, marker)
			if baseline == nil {
				time.Sleep(300 * time.Millisecond)
				baseline = d.goroutines()
				return
			}
			if len(g) <= len(baseline) && len(ch) == 0 {
				c.Count("checks for goroutines and processes left behind", 1)
				return
			}
			if time.Now().After(end) || !d.alive() {
				break
			}
			time.Sleep(50 * time.Millisecond)
			c.Tick()
		}
		if len(ch) > 0 {
			c.Fail(phase, "child processes are left behind", "", "%s", strings.Join(ch, "\n"))
		}
		if len(g) > len(baseline) {
			c.Fail(phase, "goroutines are left behind", "", "%d, before %d\n%s", len(g), len(baseline), clip(strings.Join(g, "\n\n"), 8000))
		}
	}
	if realDot != "" {
		os.Symlink(realDot, dot)
	} else {
		setDot("cat >/dev/null; echo '"+okSVG+"'", 0o755)
	}
	client0 := newClient()
	for k := 0; k < 4; k++ {
		demoRequest(context.Background(), r0, client0, base, "猫", "", k%2 == 0)
	}
	leftover("start", client0)
	svgKinds := map[string]bool{}

	// run sends n requests while the renderer behaves as set up. fails: rendering must fail.
	run := func(phase string, n, par, size int, fails, isReal bool) {
		client := newClient()
		start := time.Now()
		c.RunP(phase, n, par, func(i int, r *rand.Rand) {
			s := genHostile(r, size)
			if strings.HasPrefix(phase, "same") { // the same few sentences again and again
				s = sameSentences[r.Intn(len(sameSentences))]
			}
			k := demoModes[r.Intn(len(demoModes))]
			lattice := r.Intn(8) > 0
			desc := fmt.Sprintf("%s/%d mode %q lattice %v", phase, i, k.name, lattice)
			if !d.alive() {
				c.Fail(desc, "the server has ended", s, "%s", clip(d.err.String(), 4000))
				return
			}
			status, body, ctype, err := demoRequestType(context.Background(), r, client, base, s, k.name, lattice)
			if err != nil {
				c.Fail(desc, "no complete answer", s, "%v %s", err, clip(d.err.String(), 4000))
				return
			}
			if status != 200 || !strings.HasSuffix(strings.TrimSpace(body), "</html>") {
				c.Fail(desc, "the page is not complete", s, "status %d, %q", status, clip(body, 3000))
				return
			}
			if mt, ps, err := mime.ParseMediaType(ctype); err != nil || mt != "text/html" || ps["charset"] != "" && !strings.EqualFold(ps["charset"], "utf-8") {
				c.Fail(desc, "the answer is not served as a page", s, "content type %q", ctype)
				return
			}
			p, err := parsePage(body)
			if err != nil {
				c.Fail(desc, "the page cannot be parsed", s, "%v", err)
				return
			}
			want, err := demoRows(cf, s, k.m)
			if err != nil {
				c.Fail(desc, err.Error(), s, "")
				return
			}
			if lattice {
				if fails {
					if !strings.Contains(strings.ToLower(p.text), "error") {
						c.Fail(desc, "rendering failed, but the page shows no error", s, "%q", clip(p.text, 1000))
					}
					c.Count("error_pages", 1)
				} else if phase == "hangdaemon" && strings.Contains(strings.ToLower(p.text), "error") {
					c.Count("error_pages", 1)
				} else {
					if msg := rowMismatch(p.rows, want); msg != "" {
						c.Fail(desc, "rows are not the library's tokens", s, "%s", msg)
						return
					}
					rowsSeen.Add(int64(len(want)))
					c.Count("graph_pages", 1)
				}
			}
			key := phase
			if !lattice {
				key = "form"
			}
			if strings.HasPrefix(phase, "hang") {
				c.Eval(hashStr(phase, k.name, s), len(want) >= 2)
				return
			}
			b := getBenign(client, key, k.benign, lattice)
			if b == nil {
				c.Fail(desc, "no answer to a harmless request", "", "")
				return
			}
			if x, y := strings.Join(p.skeleton, "\n"), strings.Join(b.skeleton, "\n"); x != y && (len(p.rows) > 0) == (len(b.rows) > 0) {
				c.Fail(desc, "the input changes the elements of the page", s, "%s", textMismatch(x, y))
				return
			}
			if p.comments != b.comments || strings.Join(p.scripts, "\x00") != strings.Join(b.scripts, "\x00") {
				c.Fail(desc, "the input changes comments or scripts of the page", s, "%d comments, want %d", p.comments, b.comments)
				return
			}
			if isReal && lattice && realDot != "" {
				if len(p.svg) == 0 {
					c.Fail(desc, "no graph in the page", s, "%s", clip(p.text, 500))
				}
				for e := range p.svg {
					if !svgKinds[e] {
						c.Fail(desc, "the input makes an element of the graph", s, "%s", e)
						break
					}
				}
				c.Count("graphs_inspected", 1)
			}
			c.Eval(hashStr(phase, k.name, s), len(want) >= 2)
			if len(s) < 60 {
				c.Sample(map[string]any{"phase": phase, "sentence": fmt.Sprintf("%q", s), "mode": k.name, "rows": p.rows})
			}
		})
		leftover(phase, client)
		c.Count("phase "+phase, n)
		c.Count("ms phase "+phase, int(time.Since(start).Milliseconds()))
	}
	// quit sends requests whose client disconnects
	quit := func(phase string, n, maxMS int) {
		client := newClient()
		var cut atomic.Int64
		start := time.Now()
		c.RunP(phase+" disconnect", n, 12, func(i int, r *rand.Rand) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+r.Intn(maxMS))*time.Millisecond)
			defer cancel()
			if _, _, err := demoRequest(ctx, r, client, base, genHostile(r, 400), "Search", true); err != nil {
				cut.Add(1)
			}
			c.Eval(0, false)
		})
		leftover(phase+" disconnect", client)
		c.Count("requests_cut_by_the_client", int(cut.Load()))
		c.Count("ms phase "+phase+" disconnect", int(time.Since(start).Milliseconds()))
	}

	if realDot != "" {
		cl := newClient()
		for i, s := range []string{"猫である", "すもももももももものうち、関西国際空港。", "ABC 123 !? ヴァカネコ🐈々", corpusSlice(r0, 80), "a", "。"} {
			for _, m := range []string{"Normal", "Search"} {
				_, body, err := demoRequest(context.Background(), r0, cl, base, s, m, true)
				if err != nil {
					c.Fail("real", "no answer", s, "%v", err)
					return
				}
				p, err := parsePage(body)
				if err != nil {
					setupError("%v", err)
				}
				for e := range p.svg {
					svgKinds[e] = true
				}
				if i == 0 && len(p.svg) == 0 {
					c.Fail("real", "no graph in the page", s, "%s", clip(body, 2000))
				}
			}
		}
		run("real", c.N(800, 8000), 8, 12, false, true)
		quit("real", c.N(40, 400), 150)
	}
	os.Remove(dot)
	run("missing", c.N(200, 1500), 8, 300, true, false)
	os.Mkdir(dot, 0o755)
	run("directory", c.N(10, 100), 8, 30, true, false)
	os.Remove(dot)
	for _, b := range []struct {
		name, script string
		mode         os.FileMode
		fails        bool
	}{
		{"notexec", "exit 0", 0o644, true},
		{"failread", "cat >/dev/null; exit 1", 0o755, true},
		{"failnoread", "exit 3", 0o755, true},
		{"silent", "cat >/dev/null; exit 0", 0o755, false},
		{"silentnoread", "exit 0", 0o755, false},
		{"garbage", "cat >/dev/null; printf 'garbage ]]> & \\377\\001 -- '; exit 0", 0o755, false},
		{"partial", "echo '<svg><g>'; cat >/dev/null; exit 2", 0o755, true},
		{"ok", "cat >/dev/null; echo '" + okSVG + "'", 0o755, false},
		{"okclosed", "exec <&-; echo '" + okSVG + "'", 0o755, false},
		{"okearly", "echo '" + okSVG + "'; exec >&-; cat >/dev/null", 0o755, false},
		{"huge", "cat >/dev/null; echo '<svg>'; /usr/bin/head -c 6000000 /dev/zero | /usr/bin/tr '\\000' ' '; echo '</svg>'", 0o755, false},
		{"flood", "/usr/bin/head -c 300000 /dev/zero | /usr/bin/tr '\\000' 'e' >&2; cat >/dev/null; echo '" + okSVG + "'", 0o755, false},
		{"killed", "kill -9 $$; sleep 1", 0o755, true},
		{"slow", "cat >/dev/null; sleep 0.3; echo '" + okSVG + "'", 0o755, false},
	} {
		if c.Stop() {
			return
		}
		script := b.script
		for _, t := range []string{"cat", "sleep"} { // the path of the server has nothing but the stand-in
			script = strings.ReplaceAll(script, t+" ", "/bin/"+t+" ")
		}
		setDot(script, b.mode)
		n := c.N(150, 3000)
		if b.name == "slow" {
			n = c.N(60, 1500)
		}
		if b.name == "huge" {
			n = c.N(10, 100)
		}
		run(b.name, n, 12, 500, b.fails, false)
		if b.name == "slow" || b.name == "huge" || b.name == "ok" {
			quit(b.name, c.N(60, 600), 300)
		}
	}
	setDot("/bin/cat >/dev/null; echo '"+okSVG+"'", 0o755)
	run("same one by one", c.N(150, 2000), 1, 10, false, false)
	run("same", c.N(150, 3000), 12, 10, false, false)
	// hanging: the program itself, or a process it started, which keeps the pipes open and outlives it
	fork := "8765." + strings.TrimPrefix(marker, "9876.")
	killFork := func() {
		for _, l := range children(-1, fork) {
			var pid int
			if fmt.Sscan(l, &pid); pid > 1 {
				syscall.Kill(pid, syscall.SIGKILL)
			}
		}
	}
	defer killFork()
	setDot("if [ $(($$ % 2)) = 0 ]; then exec /bin/sleep "+marker+"; fi; /bin/sleep "+fork, 0o755)
	quit("hang", c.N(60, 600), 500)
	run("hang", c.N(24, 60), 30, 500, true, false)
	killFork()
	setDot("/bin/cat >/dev/null; echo '<svg>'; if [ $(($$ % 2)) = 0 ]; then exec /bin/sleep "+marker+"; fi; /bin/sleep "+fork, 0o755)
	quit("hangread", c.N(60, 600), 500)
	if c.Thorough {
		run("hangread", 60, 30, 500, true, false)
		killFork()
		setDot("/bin/cat >/dev/null; echo '"+okSVG+"'; /bin/sleep "+fork+" &", 0o755)
		run("hangdaemon", 40, 40, 500, false, false)
	}
	killFork()
	// afterwards everything works again
	setDot("/bin/cat >/dev/null; echo '"+okSVG+"'", 0o755)
	run("again", c.N(60, 1000), 12, 200, false, false)

	c.domCheck(cf, base)
}

// sameSentences are analysed differently in the modes; some differ only in blanks, case or width.
var sameSentences = []string{"関西国際空港", "関西国際空港", "関西国際空港で日本経済新聞を読む", " 関西国際空港", "関西国際空港 ", "abc関西国際空港", "ABC関西国際空港"}

// domCheck runs the scripts of the page and looks at what they hand over as markup.
func (c *Ctx) domCheck(cf *conf, base string) {
	node, err := exec.LookPath("node")
	if err != nil {
		c.Count("script_not_judged_without_node", 1)
		return
	}
	client := newClient()
	_, body, err := demoRequest(context.Background(), c.Rand("dom", -1), client, base, "", "", false)
	if err != nil {
		c.Fail("script", "no answer", "", "%v", err)
		return
	}
	p, err := parsePage(body)
	if err != nil {
		return
	}
	js := c.path("dom.js")
	if err := os.WriteFile(js, []byte(domJS), 0o644); err != nil {
		setupError("%v", err)
	}
	type result struct {
		Sinks, Texts, Unknown []string
		Posts                 int
	}
	ask := func(s, mode string) (*result, error) {
		q, _ := json.Marshal(map[string]string{"sentence": s, "mode": mode})
		res, err := client.Post(base+"/tokenize", "application/json", bytes.NewReader(q))
		if err != nil {
			return nil, err
		}
		rb, err := io.ReadAll(res.Body)
		res.Body.Close()
		if err != nil {
			return nil, err
		}
		in, _ := json.Marshal(map[string]any{"scripts": p.scripts, "handlers": p.handlers, "sentence": s, "mode": mode, "reply": string(rb)})
		cr, err := runCmd(node, []string{js}, bytes.NewReader(in))
		if err != nil || cr.code != 0 || cr.timeout {
			return nil, fmt.Errorf("%v %s", err, cr.err)
		}
		var v result
		return &v, json.Unmarshal([]byte(cr.out), &v)
	}
	// kinds are the elements in what was handed over
	kinds := func(sinks []string) map[string]bool {
		out := map[string]bool{}
		for _, s := range sinks {
			ctxs := []string{"tbody", "body", "tr"}
			low := strings.ToLower(strings.TrimSpace(s))
			k := 1
			if strings.HasPrefix(low, "<tr") {
				k = 0
			} else if strings.HasPrefix(low, "<td") || strings.HasPrefix(low, "<th") {
				k = 2
			}
			root := &html.Node{Type: html.ElementNode, Data: ctxs[k]}
			root.DataAtom = atom.Lookup([]byte(ctxs[k]))
			ns, err := html.ParseFragment(strings.NewReader(s), root)
			if err != nil {
				continue
			}
			var walk func(n *html.Node)
			walk = func(n *html.Node) {
				switch n.Type {
				case html.ElementNode:
					out[describe(n)] = true
				case html.CommentNode:
					out["comment"] = true
				}
				for x := n.FirstChild; x != nil; x = x.NextSibling {
					walk(x)
				}
			}
			for _, n := range ns {
				walk(n)
			}
		}
		return out
	}
	b, err := ask("猫である。ABC", "Normal")
	if err != nil || b.Posts == 0 {
		c.Count("script_not_judged", 1)
		return
	}
	good := kinds(b.Sinks)
	c.RunP("script", c.N(40, 400), 8, func(i int, r *rand.Rand) {
		s := genHostile(r, 10)
		v, err := ask(s, pick(r, []string{"Normal", "Search", "Extended"}))
		if err != nil || v.Posts == 0 {
			c.Count("script_runs_not_judged", 1)
			return
		}
		for k := range kinds(v.Sinks) {
			if !good[k] {
				c.Fail(fmt.Sprintf("script/%d", i), "the page's script makes markup of the input", s, "%s in %q", k, clip(fmt.Sprint(v.Sinks), 2000))
				return
			}
		}
		c.Count("script_runs", 1)
		c.Count("script_texts", len(v.Texts))
		c.Eval(hashStr("script", s), len(v.Texts) > 4)
	})
}

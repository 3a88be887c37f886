package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	checks["C16"] = check{run: runC16}
}

// syncBuf is a buffer for the output of a process.
type syncBuf struct {
	mu sync.Mutex
	b  tailBuf
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

var nextPort atomic.Int64

// freePort returns a port outside the range of outgoing connections on which nobody listens.
func freePort() int {
	for {
		p := 12000 + int((int64(os.Getpid())*131+nextPort.Add(1)*7)%18000)
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

// srvProc is a running server process.
type srvProc struct {
	cmd  *exec.Cmd
	addr string
	err  *syncBuf
	done chan struct{}
}

// startProc starts a server process and waits until it accepts connections.
func startProc(bin string, args func(addr string) []string, env ...string) *srvProc {
	for try := 0; ; try++ {
		addr := fmt.Sprintf("127.0.0.1:%d", freePort())
		p := &srvProc{addr: addr, err: &syncBuf{}, done: make(chan struct{})}
		p.cmd = exec.Command(bin, args(addr)...)
		p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0")
		p.cmd.Env = append(p.cmd.Env, env...)
		p.cmd.Stdout, p.cmd.Stderr = p.err, p.err
		if err := p.cmd.Start(); err != nil {
			setupError("%v", err)
		}
		go func() { p.cmd.Wait(); close(p.done) }()
		if p.waitUp(240 * time.Second) {
			return p
		}
		p.kill()
		if try >= 2 || !strings.Contains(p.err.String(), "address already in use") {
			return p
		}
	}
}

func (p *srvProc) alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// answers says whether an HTTP server answers there. A connection alone is no proof: the socket with
// which freePort probed the port lives on in a process that is just being forked.
func answers(addr string) bool {
	conn, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(10 * time.Second))
	io.WriteString(conn, "GET / HTTP/1.0\r\n\r\n")
	b := make([]byte, 7)
	_, err = io.ReadFull(conn, b)
	return err == nil && string(b) == "HTTP/1."
}

func (p *srvProc) waitUp(limit time.Duration) bool {
	end := time.Now().Add(limit)
	for time.Now().Before(end) && p.alive() {
		if answers(p.addr) {
			return p.alive()
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}

func (p *srvProc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// wait waits for the end of the process; -1 means that it does not end.
func (p *srvProc) wait(limit time.Duration) int {
	select {
	case <-p.done:
		return exitCode(p.cmd)
	case <-time.After(limit):
		return -1
	}
}

func exitCode(cmd *exec.Cmd) int {
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		return 128 + int(ws.Signal())
	}
	return cmd.ProcessState.ExitCode()
}

// trouble looks for race reports and panics in the output of a process.
func (p *srvProc) trouble() string {
	s := p.err.String()
	for _, k := range []string{"WARNING: DATA RACE", "panic serving", "panic:", "fatal error:"} {
		if i := strings.Index(s, k); i >= 0 {
			return clip(s[i:], 8000)
		}
	}
	return ""
}

func newClient() *http.Client {
	return &http.Client{
		Transport: &http.Transport{DialContext: (&net.Dialer{Timeout: 20 * time.Second}).DialContext, MaxIdleConnsPerHost: 64},
		Timeout:   120 * time.Second,
	}
}

// apiRecords are the records expected for a sentence.
func apiRecords(cf *conf, sentence string, m tokenizer.TokenizeMode) ([]map[string]any, error) {
	out := []map[string]any{}
	for _, t := range cf.t.Analyze(sentence, m) {
		if t.ID == tokenizer.BosEosID && t.Class == tokenizer.DUMMY {
			continue
		}
		e, err := cf.m.entry(t)
		if err != nil {
			return nil, err
		}
		out = append(out, e.dataRecord(t))
	}
	return out, nil
}

// oneJSON decodes a body that must be exactly one JSON object.
func oneJSON(body []byte) (map[string]any, string) {
	if !utf8.Valid(body) {
		return nil, "the body is not valid UTF-8"
	}
	dec := json.NewDecoder(bytes.NewReader(body))
	var v map[string]any
	if err := dec.Decode(&v); err != nil {
		return nil, fmt.Sprintf("the body is not a JSON object: %v", err)
	}
	var x any
	if err := dec.Decode(&x); err != io.EOF {
		return nil, "something follows the JSON object"
	}
	return v, ""
}

// apiMismatch compares a reply with the expected records.
func apiMismatch(status int, body []byte, want []map[string]any) string {
	if status != 200 {
		return fmt.Sprintf("status %d, body %q", status, clip(string(body), 300))
	}
	v, msg := oneJSON(body)
	if msg != "" {
		return fmt.Sprintf("%s: %q", msg, clip(string(body), 300))
	}
	if v["status"] != true {
		return fmt.Sprintf("status is not true: %q", clip(string(body), 300))
	}
	arr, ok := v["tokens"].([]any)
	if !ok {
		return fmt.Sprintf("no token list: %q", clip(string(body), 300))
	}
	if len(arr) != len(want) {
		return fmt.Sprintf("%d records, want %d: %q", len(arr), len(want), clip(string(body), 1500))
	}
	for i := range arr {
		if !reflect.DeepEqual(arr[i], any(want[i])) {
			return fmt.Sprintf("record %d is %v, want %v", i, arr[i], want[i])
		}
	}
	return ""
}

// apiErrorMismatch checks the reply to a malformed request.
func apiErrorMismatch(status int, body []byte) string {
	if status != 400 {
		return fmt.Sprintf("status %d for a malformed request, body %q", status, clip(string(body), 300))
	}
	v, msg := oneJSON(bytes.TrimSpace(body))
	if msg != "" {
		return fmt.Sprintf("%s: %q", msg, clip(string(body), 300))
	}
	if v["status"] != false {
		return fmt.Sprintf("status is not false: %q", clip(string(body), 300))
	}
	if e, ok := v["error"].(string); !ok || e == "" {
		return fmt.Sprintf("no error text: %q", clip(string(body), 300))
	}
	return ""
}

var apiModes = []struct {
	name string
	m    tokenizer.TokenizeMode
}{
	{"Normal", tokenizer.Normal}, {"Search", tokenizer.Search}, {"Extended", tokenizer.Extended}, {"", tokenizer.Normal},
	{"Search", tokenizer.Search}, {"Extended", tokenizer.Extended}, {"Other", tokenizer.Normal}, {"検索", tokenizer.Normal}, {"SearchExtended", tokenizer.Normal},
	{"search", tokenizer.Normal}, {"extended", tokenizer.Normal}, {"SEARCH", tokenizer.Normal}, {"EXTENDED", tokenizer.Normal}, {"normal", tokenizer.Normal},
	{" Search", tokenizer.Normal}, {"Extended ", tokenizer.Normal}, {"Search", tokenizer.Search}, {"Extended", tokenizer.Extended}, {"Searc", tokenizer.Normal}, {"Ext", tokenizer.Normal}, {"2", tokenizer.Normal},
}

// apiRequest is a well-formed request body with what it says.
func apiRequest(r *rand.Rand, sentence string) (body []byte, decoded string, mode tokenizer.TokenizeMode) {
	k := apiModes[r.Intn(len(apiModes))]
	decoded = jsonStr(sentence)
	var s []byte
	switch r.Intn(4) {
	case 0: // escaped
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range decoded {
			switch {
			case c >= 0x10000:
				c -= 0x10000
				fmt.Fprintf(&b, "\\u%04x\\u%04X", 0xd800+c>>10, 0xdc00+c&0x3ff)
			default:
				fmt.Fprintf(&b, "\\u%04x", c)
			}
		}
		b.WriteByte('"')
		s = []byte(b.String())
	case 1: // raw broken bytes
		var b bytes.Buffer
		b.WriteByte('"')
		for i := 0; i < len(sentence); i++ {
			switch c := sentence[i]; {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c < 0x20:
				fmt.Fprintf(&b, "\\u%04x", c)
			default:
				b.WriteByte(c)
			}
		}
		b.WriteByte('"')
		s = b.Bytes()
		json.Unmarshal(s, &decoded) // how broken bytes are replaced is up to the decoder
	default:
		s, _ = json.Marshal(decoded)
	}
	mode = k.m
	parts := []string{`"sentence":` + string(s)}
	if k.name != "" || r.Intn(2) == 0 {
		q, _ := json.Marshal(k.name)
		parts = append(parts, `"mode":`+string(q))
	}
	if r.Intn(3) == 0 {
		parts = append(parts, pick(r, []string{`"x":1`, `"tokens":[{"a":null}]`, `"status":false`, `"extra":{"sentences":"猫"}`}))
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	sep := pick(r, []string{",", ", ", ",\n\t"})
	body = []byte(pick(r, []string{"", " ", "\n"}) + "{" + strings.Join(parts, sep) + "}" + pick(r, []string{"", "\n", "  "}))
	return body, decoded, mode
}

// malformed returns a request body that is not acceptable.
func malformed(r *rand.Rand, sentence string) []byte {
	ok, _, _ := apiRequest(r, sentence+"\"x")
	switch r.Intn(8) {
	case 0:
		t := bytes.TrimSpace(ok)
		return t[:r.Intn(len(t))] // cut off
	case 1:
		return []byte(pick(r, []string{"", " ", "\n\n"}))
	case 2:
		return []byte(pick(r, []string{`{"sentence":1}`, `{"sentence":["猫"]}`, `{"sentence":{"a":"\"<b>\""}}`, `{"sentence":true}`, `{"sentence":"猫","mode":7}`, `{"sentence":"猫","mode":{}}`}))
	case 3:
		return []byte(pick(r, []string{`[]`, `["猫"]`, `"猫"`, `17`, `true`}))
	case 4:
		return []byte(pick(r, []string{`{sentence:"猫"}`, `{'sentence':'猫'}`, `{"sentence":"猫",}`, `{"sentence":"\x"}`, `{"sentence":"a` + "\n" + `b"}`, `{"sentence" "猫"}`, `{"sentence":"猫"`, `\`, `"`, `{"`}))
	case 5:
		return []byte("<" + sentence + "\"\\")
	case 6:
		return append([]byte("\xef\xbb\xbf"), ok...)
	default:
		return []byte("sentence=" + sentence)
	}
}

// rawRequest is a complete HTTP request.
func rawRequest(r *rand.Rand, addr string, body []byte) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s /tokenize HTTP/1.1\r\nHost: %s\r\n", pick(r, []string{"POST", "PUT"}), addr)
	if ct := pick(r, []string{"application/json", "text/plain", "application/x-www-form-urlencoded", ""}); ct != "" {
		fmt.Fprintf(&b, "Content-Type: %s\r\n", ct)
	}
	if r.Intn(3) > 0 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
		b.Write(body)
		return b.Bytes()
	}
	b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	for len(body) > 0 {
		n := 1 + r.Intn(len(body))
		fmt.Fprintf(&b, "%x\r\n", n)
		b.Write(body[:n])
		b.WriteString("\r\n")
		body = body[n:]
	}
	b.WriteString("0\r\n\r\n")
	return b.Bytes()
}

// slowRequests runs requests that take long, are large or are many at a time against a server of its own.
func (c *Ctx) slowRequests(cf *conf) {
	p := startProc(c.kagome(), func(addr string) []string { return []string{"server", "-http", addr} })
	defer p.kill()
	r := c.Rand("slow", 0)
	pause := time.Duration(c.N(27, 45)) * time.Second
	judge := func(desc, in string, rd io.Reader, sentence string) {
		res, err := http.ReadResponse(bufio.NewReader(rd), nil)
		if err != nil {
			c.Fail(desc, "no answer", clip(in, 500), "%v; server output %s", err, clip(p.err.String(), 2000))
			return
		}
		b, err := io.ReadAll(res.Body)
		if err != nil {
			c.Fail(desc, "the answer breaks off", clip(in, 500), "%v", err)
			return
		}
		want, err := apiRecords(cf, sentence, tokenizer.Search)
		if err != nil {
			c.Fail(desc, err.Error(), clip(in, 500), "")
			return
		}
		if msg := apiMismatch(res.StatusCode, b, want); msg != "" {
			c.Fail(desc, "reply is not the library's analysis", clip(in, 500), "%s", msg)
		}
		c.Count("requests "+desc, 1)
		c.Max("largest request", len(in))
		c.Max("largest reply", len(b))
		c.Eval(hashStr(desc, sentence), len(want) >= 2)
	}
	head := func(n int) string {
		return fmt.Sprintf("POST /tokenize HTTP/1.1\r\nHost: %s\r\nContent-Length: %d\r\n\r\n", p.addr, n)
	}
	mk := func(sentence, pad string) string {
		q, _ := json.Marshal(sentence)
		if pad != "" {
			return `{"pad":"` + pad + `","mode":"Search","sentence":` + string(q) + "}"
		}
		return `{"mode":"Search","sentence":` + string(q) + "}"
	}
	dial := func(desc string) *net.TCPConn {
		conn, err := net.DialTimeout("tcp", p.addr, 20*time.Second)
		if err != nil {
			c.Fail(desc, "no connection", "", "%v", err)
			return nil
		}
		conn.SetDeadline(time.Now().Add(pause + 150*time.Second))
		return conn.(*net.TCPConn)
	}
	var wg sync.WaitGroup
	job := func(desc string, f func(conn *net.TCPConn)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if conn := dial(desc); conn != nil {
				defer conn.Close()
				f(conn)
				c.progress.Add(1)
			}
		}()
	}
	for k := 0; k < 3; k++ { // bodies that arrive slowly
		s := corpusSlice(r, 100)
		k := k
		job("with a slow body", func(conn *net.TCPConn) {
			body := mk(s, "")
			if k > 0 {
				time.Sleep(time.Duration(k) * 100 * time.Millisecond)
			}
			io.WriteString(conn, head(len(body))+body[:10])
			rest := body[10:]
			for i := 0; i < 9; i++ {
				time.Sleep(pause / 9)
				n := len(rest) / (9 - i)
				if i == 8 {
					n = len(rest)
				}
				io.WriteString(conn, rest[:n])
				rest = rest[n:]
			}
			judge("with a slow body", body, conn, s)
		})
	}
	for k := 0; k < 2; k++ { // answers that are read slowly
		s := genDoc(r, 150000)
		s = strings.ToValidUTF8(s, "")
		job("with a slow reader", func(conn *net.TCPConn) {
			body := mk(s, "")
			io.WriteString(conn, head(len(body))+body)
			time.Sleep(pause)
			judge("with a slow reader", body, conn, s)
		})
	}
	for _, n := range []int{70000, 150000, 300000, 1 << 20, 3 << 20, 12 << 20} { // padded
		s := corpusSlice(r, 60)
		n := n
		job("of a large body", func(conn *net.TCPConn) {
			body := mk(s, strings.Repeat("x", n))
			go io.WriteString(conn, head(len(body))+body)
			judge("of a large body", body, conn, s)
		})
	}
	for _, n := range []int{200000, 400000} { // long sentences
		s := strings.ToValidUTF8(genDoc(r, n), "")
		job("of a long sentence", func(conn *net.TCPConn) {
			body := mk(s, "")
			go io.WriteString(conn, head(len(body))+body)
			judge("of a long sentence", body, conn, s)
		})
	}
	// many at the same time
	const many = 200
	var held sync.WaitGroup
	held.Add(many)
	for k := 0; k < many; k++ {
		s := corpusSlice(r, 40)
		job("held at the same time", func(conn *net.TCPConn) {
			body := mk(s, "")
			n := len(body) / 2
			io.WriteString(conn, head(len(body))+body[:n])
			held.Done()
			held.Wait()
			time.Sleep(500 * time.Millisecond)
			io.WriteString(conn, body[n:])
			judge("held at the same time", body, conn, s)
		})
	}
	wg.Wait()
	if t := p.trouble(); t != "" {
		c.Fail("slow", "panic in the server", "", "%s", t)
	}
	c.Count("server processes", 1)
}

func runC16(c *Ctx) {
	c.Rule("a case is one HTTP request to the real server (binary built from /repo, for the IPA dictionary with the race detector) among concurrent ones: well-formed (escapes, broken bytes, extra members, slow, chunked, pipelined, large, empty) compared with the library's analysis of exactly that sentence and mode; malformed compared with the error reply; hostile (aborted bodies, garbage protocol, disconnect before the answer, demo page) after which others must still be served; non-trivial: a sentence of at least two tokens, or a malformed body")
	c.Assume("the in-process library results stand for the library (they are judged by the other properties)")
	toks := c.Counter("records_compared")
	inflight := new(atomic.Int64)
	bin := filepath.Join(c.Bin, "kagome-race")
	phase := func(name string, bin string, cf *conf, n, par int, args ...string) {
		p := startProc(bin, func(addr string) []string { return append([]string{"server", "-http", addr}, args...) })
		if !p.alive() {
			c.Fail(name, "the server does not start", "", "%s", clip(p.err.String(), 4000))
			return
		}
		defer p.kill()
		client := newClient()
		base := "http://" + p.addr
		judge := func(desc, in string, status int, body []byte, bad bool, decoded string, mode tokenizer.TokenizeMode) {
			if bad {
				if msg := apiErrorMismatch(status, body); msg != "" {
					c.Fail(desc, "reply to a malformed request", in, "%s", msg)
				}
				c.Count("malformed_requests_answered", 1)
				c.Eval(hashStr(name, "bad", in), true)
				return
			}
			want, err := apiRecords(cf, decoded, mode)
			if err != nil {
				c.Fail(desc, err.Error(), in, "")
				return
			}
			if decoded == "" {
				want = want[:0]
			}
			if msg := apiMismatch(status, body, want); msg != "" {
				c.Fail(desc, "reply is not the library's analysis", in, "mode %d: %s", mode, msg)
				return
			}
			toks.Add(int64(len(want)))
			c.Eval(hashStr(name, fmt.Sprint(mode), decoded), len(want) >= 2)
			if len(in) < 120 {
				c.Sample(map[string]any{"request": in, "status": status, "reply": clip(string(body), 400)})
			}
		}
		c.RunP(name, n, par, func(i int, r *rand.Rand) {
			if !p.alive() {
				c.Fail(fmt.Sprintf("%s/%d", name, i), "the server has ended", "", "%s", clip(p.err.String(), 8000))
				return
			}
			c.Max("requests_in_flight_max", int(inflight.Add(1)))
			defer inflight.Add(-1)
			sentence := genText(r, words(ipaDict()), []int{5, 20, 100, 600}[r.Intn(4)])
			switch r.Intn(30) {
			case 0:
				sentence = ""
			case 1:
				sentence = genDoc(r, 20000)
			case 2:
				sentence = "<script>\"'\\&" + sentence
			}
			bad := r.Intn(5) == 0
			body, decoded, mode := apiRequest(r, sentence)
			if decoded == "" && r.Intn(2) == 0 {
				body = []byte(`{"mode":"Search"}`)
			}
			if bad {
				body = malformed(r, sentence)
			}
			kind := r.Intn(12)
			desc := fmt.Sprintf("%s/%d kind %d", name, i, kind)
			in := string(body)
			switch {
			case kind < 6: // library client, keeps connections
				var rd io.Reader = bytes.NewReader(body)
				if r.Intn(3) == 0 && len(body) < 1000 {
					rd = &slowReader{string(body), rand.New(rand.NewSource(r.Int63()))}
				}
				req, err := http.NewRequest(pick(r, []string{"POST", "PUT"}), base+"/tokenize", rd)
				if err != nil {
					setupError("%v", err)
				}
				if r.Intn(2) == 0 {
					req.Header.Set("Content-Type", "application/json")
				}
				switch r.Intn(12) {
				case 0: // large headers, below the limit of 1 MB of a Go server
					req.Header.Set("Cookie", "a="+strings.Repeat("x", 1+r.Intn(60000)))
				case 1:
					for k := r.Intn(300); k >= 0; k-- {
						req.Header.Add(fmt.Sprintf("X-%d", k), "v")
					}
				case 2:
					req.URL.RawQuery = "sentence=x&mode=Search&q=" + strings.Repeat("y", r.Intn(20000))
				}
				res, err := client.Do(req)
				if err != nil {
					c.Fail(desc, "no answer", in, "%v; server output %s", err, clip(p.err.String(), 4000))
					return
				}
				b, err := io.ReadAll(res.Body)
				res.Body.Close()
				if err != nil {
					c.Fail(desc, "the answer breaks off", in, "%v", err)
					return
				}
				judge(desc, in, res.StatusCode, b, bad, decoded, mode)
				c.Count("requests plain", 1)
			case kind < 9: // several requests at once on one connection
				conn, err := net.DialTimeout("tcp", p.addr, 20*time.Second)
				if err != nil {
					c.Fail(desc, "no connection", in, "%v", err)
					return
				}
				defer conn.Close()
				conn.SetDeadline(time.Now().Add(120 * time.Second))
				type q struct {
					body    []byte
					decoded string
					mode    tokenizer.TokenizeMode
				}
				qs := []q{{body, decoded, mode}}
				if !bad { // an error may end the connection
					for k := r.Intn(4); k > 0; k-- {
						b, d, m := apiRequest(r, genText(r, nil, 40))
						qs = append(qs, q{b, d, m})
					}
				}
				var raw []byte
				for _, x := range qs {
					raw = append(raw, rawRequest(r, p.addr, x.body)...)
				}
				go func() {
					if len(raw) < 1000 && i%2 == 0 {
						sl := &slowReader{string(raw), rand.New(rand.NewSource(int64(i)))}
						io.Copy(struct{ io.Writer }{conn}, struct{ io.Reader }{sl})
						return
					}
					conn.Write(raw)
				}()
				rd := bufio.NewReader(conn)
				for k, x := range qs {
					res, err := http.ReadResponse(rd, nil)
					if err != nil {
						c.Fail(desc, "no answer on a shared connection", string(x.body), "request %d of %d: %v", k, len(qs), err)
						return
					}
					b, err := io.ReadAll(res.Body)
					res.Body.Close()
					if err != nil {
						c.Fail(desc, "the answer breaks off", string(x.body), "%v", err)
						return
					}
					judge(desc, string(x.body), res.StatusCode, b, bad, x.decoded, x.mode)
					c.Count("requests raw or pipelined", 1)
				}
			case kind == 9: // give up in the middle
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.Intn(8000))*time.Microsecond)
				defer cancel()
				b, _, _ := apiRequest(r, genDoc(r, 8000))
				req, _ := http.NewRequestWithContext(ctx, "POST", base+"/tokenize", &slowReader{string(b), rand.New(rand.NewSource(r.Int63()))})
				if res, err := client.Do(req); err == nil {
					io.Copy(io.Discard, res.Body)
					res.Body.Close()
				}
				c.Count("hostile aborted requests", 1)
				c.Eval(0, false)
			case kind == 10:
				conn, err := net.DialTimeout("tcp", p.addr, 20*time.Second)
				if err != nil {
					c.Fail(desc, "no connection", in, "%v", err)
					return
				}
				raw := rawRequest(r, p.addr, body)
				switch r.Intn(4) {
				case 0:
					raw = raw[:r.Intn(len(raw))]
				case 1:
					raw = []byte(mutate(r, string(raw)))
				case 2:
					raw = []byte(genText(r, nil, 300) + "\r\n\r\n")
				}
				conn.Write(raw)
				if tc, ok := conn.(*net.TCPConn); ok && r.Intn(2) == 0 {
					tc.SetLinger(0) // reset
				}
				conn.Close()
				c.Count("hostile broken requests", 1)
				c.Eval(0, false)
			default: // the demo page meanwhile
				res, err := client.PostForm(base+"/_demo", map[string][]string{"s": {sentence}, "r": {"Search"}})
				if err != nil {
					c.Fail(desc, "no answer of the demo page", sentence, "%v", err)
					return
				}
				io.Copy(io.Discard, res.Body)
				res.Body.Close()
				c.Count("demo requests meanwhile", 1)
				c.Eval(0, false)
			}
		})
		time.Sleep(200 * time.Millisecond)
		if !p.alive() {
			c.Fail(name, "the server has ended", "", "%s", clip(p.err.String(), 8000))
			return
		}
		res, err := client.Post(base+"/tokenize", "", strings.NewReader(`{"sentence":"すもももももももものうち"}`))
		if err != nil {
			c.Fail(name, "the server does not serve any more", "", "%v", err)
			return
		}
		b, _ := io.ReadAll(res.Body)
		res.Body.Close()
		judge(name+"/last", "last", res.StatusCode, b, false, "すもももももももものうち", tokenizer.Normal)
		if t := p.trouble(); t != "" {
			c.Fail(name, "race or panic in the server", "", "%s", t)
		}
		c.Count("server processes", 1)
	}
	r := c.Rand("setup", 0)
	up := c.path("user.txt")
	u := fileUserDict(r, []string{corpusSlice(r, 300), corpusSlice(r, 300), "<b>\"猫\"</b>"}, up)
	ipaC := newConf("ipa", ipaDict(), nil, nil)
	slow := make(chan bool)
	go func() {
		defer close(slow)
		c.slowRequests(ipaC)
	}()
	defer func() { <-slow }()
	phase("ipa", bin, ipaC, c.N(2500, 40000), 40)
	phase("user", bin, newConf("ipa+user", ipaDict(), nil, u), c.N(1500, 30000), 32, "-userdict", up)
	phase("uni", c.kagome(), newConf("uni", uniDict(), nil, nil), c.N(400, 10000), 24, "-dict", "uni")
	// many clients with the same few sentences and different modes: mixing shows
	same := []string{corpusSlice(r, 60), corpusSlice(r, 60), corpusSlice(r, 60)}
	p := startProc(bin, func(addr string) []string { return []string{"server", "-http=" + addr} })
	defer p.kill()
	client := newClient()
	same = append(same, sameSentences...)
	mixing := func(i int, r *rand.Rand) {
		s, k := same[r.Intn(len(same))], apiModes[r.Intn(3)]
		m := map[string]string{"sentence": s, "mode": k.name}
		if k.m == tokenizer.Normal && r.Intn(2) == 0 {
			delete(m, "mode")
		}
		q, _ := json.Marshal(m)
		res, err := client.Post("http://"+p.addr+"/tokenize", "application/json", bytes.NewReader(q))
		if err != nil {
			c.Fail(fmt.Sprintf("mixing/%d", i), "no answer", s, "%v", err)
			return
		}
		b, err := io.ReadAll(res.Body)
		res.Body.Close()
		if err != nil {
			c.Fail(fmt.Sprintf("mixing/%d", i), "the answer breaks off", s, "%v", err)
			return
		}
		want, err := apiRecords(ipaC, s, k.m)
		if err != nil {
			c.Fail("mixing", err.Error(), s, "")
			return
		}
		if msg := apiMismatch(res.StatusCode, b, want); msg != "" {
			c.Fail(fmt.Sprintf("mixing/%d", i), "reply is not the library's analysis", s, "%s: %s", k.name, msg)
		}
		toks.Add(int64(len(want)))
		c.Eval(hashStr("mixing", s, k.name), true)
	}
	c.RunP("mixing one by one", c.N(400, 5000), 1, mixing)
	c.RunP("mixing", c.N(2000, 40000), 32, mixing)
	if t := p.trouble(); t != "" {
		c.Fail("mixing", "race or panic in the server", "", "%s", t)
	}
	c.Count("server processes", 1)
}

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	checks["C18"] = check{run: runC18}
}

// srvRun is a server running in this process or in another one.
type srvRun struct {
	addr string
	stop func()
	// ended waits for the end; it returns an error text ("" for a clean end) and false if it does not end
	ended func(limit time.Duration) (string, bool)
	kill  func()
}

func startInProcess(addr string, args ...string) (*srvRun, error) {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- server.Run(ctx, append([]string{"-http", addr}, args...)) }()
	s := &srvRun{addr: addr, stop: cancel, kill: cancel}
	s.ended = func(limit time.Duration) (string, bool) {
		select {
		case err := <-done:
			done <- err
			if err != nil {
				return err.Error(), true
			}
			return "", true
		case <-time.After(limit):
			return "", false
		}
	}
	end := time.Now().Add(240 * time.Second)
	for {
		if msg, ok := s.ended(20 * time.Millisecond); ok {
			return nil, errors.New("ended at once: " + msg)
		}
		if answers(addr) {
			return s, nil
		}
		if time.Now().After(end) {
			cancel()
			return nil, errors.New("does not accept connections")
		}
	}
}

// inFlight is a request that the server is working on.
type inFlight struct {
	kind   string
	finish func() string // sends the rest; returns what is wrong
	close  func()
}

type c18 struct {
	c      *Ctx
	flag   string // directory in which the stand-in renderer leaves marks
	client *http.Client
}

// portFree reports whether the address can be bound; it allows for the moment in which a process that is just being
// started still shares the sockets of this one.
func portFree(addr string) error {
	end := time.Now().Add(10 * time.Second)
	for {
		l, err := net.Listen("tcp", addr)
		if err == nil {
			return l.Close()
		}
		if time.Now().After(end) {
			return err
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// begin starts a request and returns when the server is processing it.
func (h *c18) begin(kind int, addr string, cf *conf, r *rand.Rand) (*inFlight, string) {
	sentence := corpusSlice(r, 200)
	mode := apiModes[r.Intn(3)]
	body, _ := json.Marshal(map[string]string{"sentence": sentence, "mode": mode.name})
	if kind == 2 {
		sentence = strings.Repeat(corpusSlice(r, 400), 150)
		body, _ = json.Marshal(map[string]string{"sentence": sentence, "mode": mode.name})
	}
	conn, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err.Error()
	}
	conn.SetDeadline(time.Now().Add(100 * time.Second))
	rd := bufio.NewReaderSize(conn, 1<<16)
	f := &inFlight{close: func() { conn.Close() }}
	read := func() (int, []byte, string) {
		res, err := http.ReadResponse(rd, nil)
		if err != nil {
			return 0, nil, "no answer: " + err.Error()
		}
		b, err := io.ReadAll(res.Body)
		res.Body.Close()
		if err != nil {
			return 0, nil, "the answer breaks off: " + err.Error()
		}
		return res.StatusCode, b, ""
	}
	judge := func() string {
		status, b, msg := read()
		if msg != "" {
			return msg
		}
		want, err := apiRecords(cf, sentence, mode.m)
		if err != nil {
			return err.Error()
		}
		return apiMismatch(status, b, want)
	}
	switch kind {
	case 0, 1: // the body is still to come
		fmt.Fprintf(conn, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\nExpect: 100-continue\r\n\r\n", len(body))
		l, err := rd.ReadString('\n')
		if err != nil || !strings.Contains(l, " 100 ") {
			conn.Close()
			return nil, fmt.Sprintf("no 100 reply: %q %v", l, err)
		}
		rd.ReadString('\n')
		cut := 0
		f.kind = "waiting for the body"
		if kind == 1 {
			cut = r.Intn(len(body))
			conn.Write(body[:cut])
			f.kind = "half of the body"
		}
		f.finish = func() string {
			if _, err := conn.Write(body[cut:]); err != nil {
				return "the connection is closed: " + err.Error()
			}
			return judge()
		}
	case 2: // a large answer that is read slowly
		f.kind = "large answer"
		go fmt.Fprintf(conn, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
		if _, err := rd.Peek(12); err != nil {
			conn.Close()
			return nil, "no answer: " + err.Error()
		}
		f.finish = judge
	case 3: // the page with a slow renderer
		f.kind = "demo page"
		os.Remove(filepath.Join(h.flag, "started"))
		form := "s=" + "%E7%8C%AB%E3%81%A7%E3%81%82%E3%82%8B" + "&r=Search&lattice=1"
		fmt.Fprintf(conn, "POST /_demo HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n%s", len(form), form)
		for k := 0; ; k++ {
			if m, _ := filepath.Glob(filepath.Join(h.flag, "started.*")); len(m) > 0 {
				break
			}
			if k > 1000 {
				conn.Close()
				return nil, "the renderer is not started"
			}
			time.Sleep(10 * time.Millisecond)
		}
		f.finish = func() string {
			status, b, msg := read()
			if msg != "" {
				return msg
			}
			if status != 200 || !strings.HasSuffix(strings.TrimSpace(string(b)), "</html>") {
				return fmt.Sprintf("incomplete page: status %d %q", status, clip(string(b), 500))
			}
			p, err := parsePage(string(b))
			if err != nil {
				return err.Error()
			}
			want, err := demoRows(cf, "猫である", tokenizer.Search)
			if err != nil {
				return err.Error()
			}
			return rowMismatch(p.rows, want)
		}
	}
	return f, ""
}

// shutdown puts requests in flight, stops the server and watches.
func (h *c18) shutdown(desc string, s *srvRun, cf *conf, r *rand.Rand, kinds []int, hold ...time.Duration) {
	c := h.c
	var fs []*inFlight
	defer func() {
		for _, f := range fs {
			f.close()
		}
	}()
	fail := func(what, detail string) { c.Fail(desc, what, fmt.Sprint(kinds), "%s", detail) }
	for _, k := range kinds {
		f, msg := h.begin(k, s.addr, cf, r)
		if msg != "" {
			fail("a request before the shutdown is not served", msg)
			s.kill()
			return
		}
		fs = append(fs, f)
	}
	// idle connections
	idle := r.Intn(3)
	for k := 0; k < idle; k++ {
		conn, err := net.DialTimeout("tcp", s.addr, 20*time.Second)
		if err != nil {
			fail("no connection before the shutdown", err.Error())
			s.kill()
			return
		}
		defer conn.Close()
		if k%2 == 0 { // used before
			body := `{"sentence":"猫"}`
			fmt.Fprintf(conn, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
			if res, err := http.ReadResponse(bufio.NewReader(conn), nil); err == nil {
				io.Copy(io.Discard, res.Body)
			}
		}
	}
	s.stop()
	// no more connections
	end := time.Now().Add(20 * time.Second)
	for {
		conn, err := net.DialTimeout("tcp", s.addr, 2*time.Second)
		if err != nil {
			break
		}
		conn.Close()
		if time.Now().After(end) {
			fail("still accepts connections after it was told to stop", "")
			s.kill()
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(700)) * time.Millisecond)
	}
	for _, d := range hold {
		time.Sleep(d)
		c.Count("requests held for long after the stop", len(fs))
	}
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		if msg := f.finish(); msg != "" {
			fail("a request in progress is cut off by the shutdown", f.kind+": "+msg)
			s.kill()
			return
		}
		c.Count("requests finished during shutdown: "+f.kind, 1)
	}
	msg, ok := s.ended(60 * time.Second)
	if !ok {
		fail("does not end", "")
		s.kill()
		return
	}
	if msg != "" {
		fail("ends with an error", msg)
		return
	}
	if err := portFree(s.addr); err != nil {
		fail("the port is not released", err.Error())
		return
	}
	c.Count("clean shutdowns", 1)
	c.Eval(hashStr(desc), len(fs) > 0)
	c.Sample(map[string]any{"case": desc, "in_flight": kinds, "idle_connections": idle})
}

// probe compares one answer with the library.
func (h *c18) probe(addr, s string, cf *conf) string {
	q, _ := json.Marshal(map[string]string{"sentence": s, "mode": "Search"})
	cl := newClient()
	defer cl.CloseIdleConnections()
	res, err := cl.Post("http://"+addr+"/tokenize", "application/json", bytes.NewReader(q))
	if err != nil {
		return err.Error()
	}
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	if err != nil {
		return err.Error()
	}
	want, err := apiRecords(cf, s, tokenizer.Search)
	if err != nil {
		return err.Error()
	}
	return apiMismatch(res.StatusCode, b, want)
}

func writeUserDict(path string, recs ...dict.UserDicRecord) *userDict {
	var b strings.Builder
	for _, v := range recs {
		fmt.Fprintf(&b, "%s,%s,%s,%s\n", v.Text, strings.Join(v.Tokens, " "), strings.Join(v.Yomi, " "), v.Pos)
	}
	if err := os.WriteFile(path, []byte(b.String()), 0o644); err != nil {
		setupError("%v", err)
	}
	return newUserDict(recs)
}

func runC18(c *Ctx) {
	c.Rule("a case is one start and stop of the real server: in this process by cancellation or as the binary built from /repo by each of the three signals, with requests held at known points (the server has asked for the body, half of the body received, a large answer half read, the page while a slow renderer runs) and idle connections; no new connections, full correct answers, clean end, port free; failures to start must be errors; restarts on the same port must use the new dictionaries; non-trivial: with at least one request in flight")
	c.Assume("a request counts as being processed when the server has asked for its body, begun its answer or started the renderer")
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	h := &c18{c: c, flag: c.path("flags")}
	bindir := c.path("bin")
	os.MkdirAll(bindir, 0o755)
	os.MkdirAll(h.flag, 0o755)
	script := "#!/bin/sh\necho x >" + h.flag + "/started.$$\n/bin/cat >/dev/null\n/bin/sleep 1\n/bin/rm -f " + h.flag + "/started.$$\necho '<svg><g></g></svg>'\n"
	if err := os.WriteFile(filepath.Join(bindir, "dot"), []byte(script), 0o755); err != nil {
		setupError("%v", err)
	}
	path := bindir + ":" + os.Getenv("PATH")
	os.Setenv("PATH", path)

	upA, upB := c.path("a.txt"), c.path("b.txt")
	ua := writeUserDict(upA, dict.UserDicRecord{Text: "吾輩は猫", Tokens: []string{"吾輩", "は", "猫"}, Yomi: []string{"ワガハイ", "ハ", "ネコ"}, Pos: "甲"})
	ub := writeUserDict(upB, dict.UserDicRecord{Text: "猫である", Tokens: []string{"猫", "である"}, Yomi: []string{"ネコ", "デアル"}, Pos: "乙"})
	confs := []struct {
		args []string
		cf   *conf
	}{
		{nil, newConf("ipa", ipaDict(), nil, nil)},
		{[]string{"-userdict", upA}, newConf("ipa+a", ipaDict(), nil, ua)},
		{[]string{"-dict", "uni"}, newConf("uni", uniDict(), nil, nil)},
		{[]string{"-userdict", upB}, newConf("ipa+b", ipaDict(), nil, ub)},
		{[]string{"-dict=uni", "-userdict", upA}, newConf("uni+a", uniDict(), nil, ua)},
		{[]string{"-dict", "ipa"}, newConf("ipa", ipaDict(), nil, nil)},
	}
	probeText := "吾輩は猫である。関西国際空港"

	// failures to start
	busy, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", freePort()))
	if err != nil {
		setupError("%v", err)
	}
	badDict := c.path("bad.txt")
	os.WriteFile(badDict, []byte("これは,壊れた 辞書,ヨミ\n"), 0o644)
	okAddr := func() string { return fmt.Sprintf("127.0.0.1:%d", freePort()) }
	type badCase struct {
		name, addr string
		args       []string
	}
	bad := []badCase{
		{"busy port", busy.Addr().String(), nil},
		{"busy port again", busy.Addr().String(), []string{"-dict", "ipa"}},
		{"no such port", "127.0.0.1:99999", nil},
		{"no address", "nonsense", nil},
		{"foreign address", "192.0.2.1:7777", nil},
		{"missing user dictionary", okAddr(), []string{"-userdict", c.path("missing.txt")}},
		{"directory as user dictionary", okAddr(), []string{"-userdict", c.Scratch}},
		{"malformed user dictionary", okAddr(), []string{"-userdict", badDict}},
		{"unknown dictionary", okAddr(), []string{"-dict", "unidic"}},
		{"empty dictionary", okAddr(), []string{"-dict", ""}},
	}
	c.RunP("bad start", 2*len(bad), 4, func(i int, r *rand.Rand) {
		b := bad[i/2]
		var msg string
		var ended bool
		if i%2 == 0 {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan error, 1)
			go func() { done <- server.Run(ctx, append([]string{"-http", b.addr}, b.args...)) }()
			select {
			case err := <-done:
				ended = true
				if err != nil {
					msg = err.Error()
				}
			case <-time.After(60 * time.Second):
			}
		} else {
			res, err := runCmd(c.kagome(), append([]string{"server", "-http", b.addr}, b.args...), nil)
			if err != nil {
				setupError("%v", err)
			}
			ended = !res.timeout
			if res.code != 0 && strings.TrimSpace(res.err) != "" {
				msg = res.err
			}
		}
		if !ended {
			c.Fail("bad start/"+b.name, "runs although it cannot", b.addr, "%q", b.args)
		} else if msg == "" {
			c.Fail("bad start/"+b.name, "no error although it cannot run", b.addr, "%q", b.args)
		}
		if b.addr != busy.Addr().String() && strings.HasPrefix(b.addr, "127") {
			if answers(b.addr) {
				c.Fail("bad start/"+b.name, "listens although it failed", b.addr, "")
			}
		}
		c.Count("failed starts with an error", 1)
		c.Eval(hashStr(b.name, fmt.Sprint(i%2)), true)
	})
	if conn, err := busy.(*net.TCPListener).SyscallConn(); err != nil || conn == nil {
		c.Fail("bad start", "the port of another program is lost", "", "%v", err)
	}
	busy.Close()

	// the same port again and again in one process with other dictionaries
	addr := okAddr()
	r := c.Rand("restart", 0)
	for k := 0; k < c.N(13, 200) && !c.Stop(); k++ {
		w := confs[k%len(confs)]
		if k >= len(confs) {
			w = confs[r.Intn(len(confs))]
		}
		desc := fmt.Sprintf("restart/%d %q", k, w.args)
		var s *srvRun
		var err error
		if !c.Guard(desc, "", func() { s, err = startInProcess(addr, w.args...) }) {
			return
		}
		if err != nil {
			c.Fail(desc, "does not start again", addr, "%v", err)
			return
		}
		if msg := h.probe(addr, probeText, w.cf); msg != "" {
			c.Fail(desc, "not the configured dictionaries", probeText, "%s", msg)
		}
		var kinds []int
		for n := r.Intn(3); n > 0; n-- {
			kinds = append(kinds, r.Intn(2))
		}
		h.shutdown(desc, s, w.cf, r, kinds)
		c.Count("restarts in one process", 1)
		c.Tick()
	}
	// requests that take long to finish
	longDone := make(chan bool)
	var longWG sync.WaitGroup
	for i, w := range confs[:2] {
		i, w := i, w
		lr := c.Rand("long", i)
		longWG.Add(1)
		go func() {
			defer longWG.Done()
			desc := fmt.Sprintf("long/%d %q", i, w.args)
			s, err := startInProcess(okAddr(), w.args...)
			if err != nil {
				c.Fail(desc, "does not start", "", "%v", err)
				return
			}
			h.shutdown(desc, s, w.cf, lr, []int{0, 2, 1}, time.Duration(12+8*i)*time.Second)
		}()
	}
	go func() { longWG.Wait(); close(longDone) }()
	defer func() { <-longDone }()
	// requests at every point, by cancellation
	c.RunP("cancel", c.N(30, 300), 12, func(i int, r *rand.Rand) {
		w := confs[r.Intn(len(confs))]
		desc := fmt.Sprintf("cancel/%d %q", i, w.args)
		s, err := startInProcess(okAddr(), w.args...)
		if err != nil {
			c.Fail(desc, "does not start", "", "%v", err)
			return
		}
		var kinds []int
		for n := r.Intn(4); n >= 0; n-- {
			kinds = append(kinds, r.Intn(3))
		}
		h.shutdown(desc, s, w.cf, r, kinds)
	})
	for i := 0; i < c.N(2, 20) && !c.Stop(); i++ {
		w := confs[i%2]
		s, err := startInProcess(okAddr(), w.args...)
		if err != nil {
			c.Fail("cancel demo", "does not start", "", "%v", err)
			return
		}
		h.shutdown(fmt.Sprintf("cancel demo/%d", i), s, w.cf, r, []int{i % 2, 3})
	}
	// early cancellation
	c.RunP("early", c.N(80, 1500), 8, func(i int, r *rand.Rand) {
		a := okAddr()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		switch k := r.Intn(3); {
		case i%4 == 0:
			cancel()
		default:
			time.AfterFunc(time.Duration(r.Intn([]int{200, 2000, 20000}[k]))*time.Microsecond, cancel)
		}
		done := make(chan error, 1)
		go func() { done <- server.Run(ctx, []string{"-http", a}) }()
		select {
		case err := <-done:
			if err != nil {
				c.Fail(fmt.Sprintf("early/%d", i), "ends with an error when it is cancelled early", a, "%v", err)
			}
		case <-time.After(60 * time.Second):
			c.Fail(fmt.Sprintf("early/%d", i), "does not end when it is cancelled early", a, "")
			return
		}
		if err := portFree(a); err != nil {
			c.Fail(fmt.Sprintf("early/%d", i), "the port is not released", a, "%v", err)
			return
		}
		c.Count("early cancellations", 1)
		c.Eval(hashStr("early", fmt.Sprint(i)), false)
	})
	// signals to the real command
	sigs := []syscall.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM}
	var demoMu sync.Mutex
	c.RunP("signal", c.N(21, 240), 7, func(i int, r *rand.Rand) {
		sig := sigs[i%3]
		w := confs[[]int{0, 1, 3}[r.Intn(3)]]
		kinds := [][]int{nil, {0}, {1}, {2}, {0, 1, 2}, {3}, {1, 1, 0, 0}}[(i/3)%7]
		if len(kinds) > 0 && kinds[0] == 3 {
			demoMu.Lock()
			defer demoMu.Unlock()
		}
		p := startProc(c.kagome(), func(addr string) []string { return append([]string{"server", "-http", addr}, w.args...) })
		desc := fmt.Sprintf("signal/%d %v %q", i, sig, w.args)
		if !p.alive() {
			c.Fail(desc, "does not start", "", "%s", clip(p.err.String(), 2000))
			return
		}
		defer p.kill()
		time.Sleep(50 * time.Millisecond)
		s := &srvRun{addr: p.addr, stop: func() { p.cmd.Process.Signal(sig) }, kill: p.kill}
		s.ended = func(limit time.Duration) (string, bool) {
			switch code := p.wait(limit); code {
			case -1:
				return "", false
			case 0:
				return "", true
			default:
				return fmt.Sprintf("exit status %d: %s", code, clip(p.err.String(), 2000)), true
			}
		}
		if msg := h.probe(p.addr, probeText, w.cf); msg != "" {
			c.Fail(desc, "not the configured dictionaries", probeText, "%s", msg)
		}
		h.shutdown(desc, s, w.cf, r, kinds)
		c.Count("signals "+sig.String(), 1)
	})
}

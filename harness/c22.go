package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() { checks["C22"] = check{run: runC22} }

// platform is a platform other than the one of the checks on which the code can be run here.
type platform struct {
	name    string
	command []string // runs a program of the platform
	ext     string
	procs   int
	tenth   int // size of the workload in tenths
}

// sameGraph compares graphs but for the names of their nodes.
func sameGraph(a, b string) bool {
	x, err := canonDot(a)
	y, err2 := canonDot(b)
	return err == nil && err2 == nil && x == y
}

func runC22(c *Ctx) {
	c.Rule("a case is (platform, input): everything the library shows for it there (tokens of all modes with all attributes and data records, words, graph, filters, sentences) against what it shows on the platform of the checks, compared by hash and printed if it differs; and the output of the commands built for 32 bits against those built for 64 bits; non-trivial: at least one result of more than a few characters")
	c.Assume("linux/386 stands for the 32-bit platforms", "the results on the platform of the checks are right (they are judged by the other properties)")
	var ps []platform
	ps = append(ps, platform{name: "386", ext: ".386", procs: 3, tenth: 10})
	if node, err := exec.LookPath("node"); err == nil {
		if root, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
			for _, dir := range []string{"lib/wasm", "misc/wasm"} {
				p := filepath.Join(strings.TrimSpace(string(root)), dir, "wasm_exec_node.js")
				if _, err := os.Stat(p); err == nil {
					ps = append(ps, platform{name: "wasm", ext: ".wasm", command: []string{node, "--stack-size=8192", p}, procs: 4, tenth: 1})
					break
				}
			}
		}
	}
	streams := []struct {
		name string
		n    int
	}{{"short", c.N(3000, 60000)}, {"user", c.N(1500, 20000)}, {"runs", c.N(60, 2000)}, {"synthetic", c.N(4000, 150000)}, {"words", c.N(1500, 30000)}, {"split", c.N(3000, 100000)}, {"filter", c.N(250, 8000)}, {"docs", c.N(5, 40)}, {"saturate", c.N(2, 6)}}
	limit, quiet := 600*time.Second, 150*time.Second
	if c.Thorough {
		limit, quiet = 2*time.Hour, 600*time.Second
	}
	native := map[string][]string{} // lines of the platform of the checks
	for _, s := range streams {
		lines := make([]string, s.n)
		c.RunP(s.name, s.n, 8, func(i int, r *rand.Rand) { lines[i] = platLine(c, s.name, i) })
		if c.Stop() {
			return
		}
		native[s.name] = lines
	}
	var wg sync.WaitGroup
	for _, p := range ps {
		p := p
		exe := filepath.Join(c.Bin, "plat"+p.ext)
		run := func(exe string, args ...string) (cmdResult, error) {
			all := append(append(append([]string{}, p.command...), exe), args...)
			return runCmdT(limit, all[0], all[1:], strings.NewReader(""))
		}
		if res, err := run(filepath.Join(c.Bin, "hello"+p.ext)); err != nil || !strings.Contains(res.out, "hello") {
			c.Count("platforms that cannot be run here", 1)
			continue
		}
		if _, err := os.Stat(exe); err != nil {
			log, _ := os.ReadFile(filepath.Join(c.Bin, "plat"+p.ext+".log"))
			c.Fail(p.name, "the code does not compile for the platform", "", "%s", clip(string(log), 4000))
			continue
		}
		c.Count("platforms", 1)
		for k := 0; k < p.procs; k++ {
			args := []string{fmt.Sprint(c.Seed)}
			want := map[string]string{}
			for _, s := range streams {
				n := max(1, s.n*p.tenth/10)
				if n < p.procs {
					if k >= n {
						continue
					}
					args = append(args, fmt.Sprintf("%s=%d-%d", s.name, k, k+1))
				} else {
					args = append(args, fmt.Sprintf("%s=%d-%d", s.name, k*n/p.procs, (k+1)*n/p.procs))
				}
				lo, hi := k*n/p.procs, (k+1)*n/p.procs
				if n < p.procs {
					lo, hi = k, k+1
				}
				for i := lo; i < hi; i++ {
					want[fmt.Sprint(s.name, " ", i)] = native[s.name][i]
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				stop := make(chan bool)
				defer close(stop)
				go c.tickUntil(stop)
				all := append(append(append([]string{}, p.command...), exe), args...)
				res, err := runLines(limit, quiet, all)
				if err != nil {
					setupError("%v", err)
				}
				got := 0
				for _, l := range strings.Split(res.out, "\n") {
					f := strings.Fields(l)
					if len(f) < 3 || f[0] == "done" {
						continue
					}
					w, ok := want[f[0]+" "+f[1]]
					if !ok {
						continue
					}
					got++
					c.Eval(hashStr(p.name, l), len(f) > 4)
					c.Count("results compared on "+p.name, (len(f)-3)/2)
					if l == w {
						continue
					}
					if c.Failed() {
						return
					}
					if strings.Fields(w)[2] != f[2] {
						setupError("case %s %s has another input on %s", f[0], f[1], p.name)
					}
					there, _ := run(exe, fmt.Sprint(c.Seed), "-show", f[0], f[1])
					var i int
					fmt.Sscan(f[1], &i)
					in, rs := platObserve(c, f[0], i)
					var b strings.Builder
					fmt.Fprintf(&b, "%q\n", in)
					for _, s := range rs {
						fmt.Fprintf(&b, "== %s\n%s\n", s.what, s.text)
					}
					c.Fail(fmt.Sprintf("%s %s/%d", p.name, f[0], i), "another result than on this platform", in, "%s; there %s; here %s", textMismatch(there.out, b.String()), clip(l, 400), clip(w, 400))
				}
				if res.code != 0 || res.timeout || got < len(want) {
					c.Fail(p.name, "the code fails on the platform", "", "exit %d, timeout %v, %d of %d cases: %s", res.code, res.timeout, got, len(want), clip(res.err, 6000))
				}
			}()
		}
	}
	wg.Wait()
	// the commands
	k32 := filepath.Join(c.Bin, "kagome.386")
	if res, err := runCmd(filepath.Join(c.Bin, "hello.386"), nil, nil); err != nil || !strings.Contains(res.out, "hello") {
		return
	}
	if _, err := os.Stat(k32); err != nil {
		log, _ := os.ReadFile(k32 + ".log")
		c.Fail("kagome.386", "the commands do not compile for the platform", "", "%s", clip(string(log), 4000))
		return
	}
	c.RunP("commands", c.N(24, 600), 8, func(i int, r *rand.Rand) {
		in := genCliText(r, nil)
		args := [][]string{{}, {"-json"}, {"-mode=search"}, {"-mode=extended", "-json"}, {"-split"}, {"-simple"}, {"sentence"}, {"lattice"}, {"lattice", "-mode=search"}, {"-mode=bad"}, {"-udict=/nonexistent"}, {"lattice", "-v"}}[i%12]
		if i%24 == 13 {
			args = []string{"-sysdict", "uni"}
		}
		if len(args) > 0 && args[0] == "lattice" {
			args = append(append([]string{}, args...), strings.ReplaceAll(clip(in, 200), "\x00", ""))
		}
		var rs []cmdResult
		for _, b := range []string{c.kagome(), k32} {
			res, err := runCmd(b, args, bytes.NewReader([]byte(in)))
			if err != nil {
				setupError("%v", err)
			}
			rs = append(rs, res)
		}
		a, b := rs[0], rs[1]
		same := a.code == b.code && a.out == b.out
		if !same && a.code == b.code && len(args) > 0 && args[0] == "lattice" {
			same = sameGraph(a.out, b.out)
		}
		if !same || (a.err == "") != (b.err == "") {
			c.Fail(fmt.Sprintf("commands/%d %q", i, args), "the 32-bit command prints something else", in, "exit %d, want %d; %s; standard error %q, want %q", b.code, a.code, textMismatch(b.out, a.out), clip(b.err, 1500), clip(a.err, 500))
			return
		}
		c.Count("command runs compared", 1)
		c.Eval(hashStr(fmt.Sprint(args), in), len(a.out) > 20)
	})
}

// tickUntil says that there is progress.
func (c *Ctx) tickUntil(stop chan bool) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(5 * time.Second):
			c.Tick()
		}
	}
}

// runLines runs a program that prints lines until it says nothing for too long.
func runLines(limit, quiet time.Duration, args []string) (cmdResult, error) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = cmdDir
	var out, errb tailLines
	out.last.Store(time.Now().UnixNano())
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return cmdResult{}, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	start := time.Now()
	res := cmdResult{}
	for {
		select {
		case err := <-done:
			res.out, res.err = out.String(), clip(errb.String(), 20000)
			if err != nil {
				res.code = -1
			}
			return res, nil
		case <-time.After(time.Second):
			if time.Since(start) > limit || time.Since(time.Unix(0, out.last.Load())) > quiet {
				res.timeout = true
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				cmd.Process.Kill()
			}
		}
	}
}

type tailLines struct {
	mu   sync.Mutex
	b    bytes.Buffer
	last atomic.Int64
}

func (t *tailLines) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.last.Store(time.Now().UnixNano())
	return t.b.Write(p)
}

func (t *tailLines) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

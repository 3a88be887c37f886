// Command vh runs the monitors. "vh ID" supervises, "vh -worker ID" does the work.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var raceBuild = false

func main() {
	if len(os.Args) >= 3 && os.Args[1] == "-child" {
		childMain(os.Args[2], os.Args[3:])
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "-worker" {
		worker(os.Args[2])
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "-race" { // does the check want the race build?
		if checks[os.Args[2]].race {
			fmt.Println("yes")
		}
		return
	}
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: vh ID")
		os.Exit(2)
	}
	os.Exit(supervise(os.Args[1]))
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func worker(id string) {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	c := newCtx(id)
	c.Seed = envInt("VERIF_SEED", 1)
	c.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	c.Race = raceBuild
	c.out = os.Getenv("VH_OUT")
	c.Scratch = os.Getenv("VH_SCRATCH")
	c.Bin = os.Getenv("VH_BIN")
	limit := 600 * time.Second
	if c.Thorough {
		limit = time.Duration(envInt("VH_THOROUGH_LIMIT", 3*3600)) * time.Second
	}
	c.stopAt = time.Now().Add(limit)
	go func() { // heartbeat
		for {
			time.Sleep(time.Second)
			os.WriteFile(c.out+".hb", []byte(strconv.FormatInt(c.progress.Load(), 10)), 0o644)
		}
	}()
	ck.run(c)
	c.write()
	if c.Failed() {
		os.Exit(1)
	}
}

func supervise(id string) int {
	start := time.Now()
	root := os.Getenv("VH_ROOT")
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	scratch, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	bin := os.Getenv("VH_BIN")
	exe := filepath.Join(bin, "vh")
	if ck.race {
		exe = filepath.Join(bin, "vh-race")
	}
	out := filepath.Join(scratch, "result.json")
	cmd := exec.Command(exe, "-worker", id)
	cmd.Env = append(os.Environ(), "VH_OUT="+out, "VH_SCRATCH="+scratch, "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0 history_size=3", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var stderr tailBuf
	cmd.Stdout = &stderr
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	stall := time.Duration(envInt("VH_STALL", 240)) * time.Second
	last, lastChange := "", time.Now()
	hung, huge := false, false
	peak := 0
	tick, ticks := time.NewTicker(200*time.Millisecond), 0
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			if mb := rssMB(cmd.Process.Pid); mb > peak {
				peak = mb
				if mb > maxWorkerMB && !huge {
					huge = true
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				}
			}
			if ticks++; ticks%5 != 0 {
				continue
			}
			hb, _ := os.ReadFile(out + ".hb")
			if string(hb) != last {
				last, lastChange = string(hb), time.Now()
			} else if time.Since(lastChange) > stall && !hung {
				hung = true
				cmd.Process.Signal(syscall.SIGQUIT)
				go func() { time.Sleep(10 * time.Second); syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }()
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // whatever the worker left behind

	var res Result
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, &res)
	}
	races := bytes.Count(stderr.Bytes(), []byte("WARNING: DATA RACE"))
	code := cmd.ProcessState.ExitCode()
	if len(res.Violations) == 0 {
		switch {
		case races > 0:
			res.Violations = append(res.Violations, Violation{Case: "race detector", What: "data race", Detail: clip(stderr.String(), 40000)})
		case huge:
			res.Violations = append(res.Violations, Violation{Case: "memory monitor", What: fmt.Sprintf("the worker took more than %d MB (a call that does not end)", maxWorkerMB), Detail: clip(stderr.String(), 20000)})
		case hung:
			res.Violations = append(res.Violations, Violation{Case: "watchdog", What: fmt.Sprintf("no progress for %v (call does not return)", stall), Detail: clip(stderr.String(), 60000)})
		case code == 2 && strings.Contains(stderr.String(), "vh: setup error"):
			fmt.Fprintln(os.Stderr, stderr.String())
			return 2
		case werr != nil:
			res.Violations = append(res.Violations, Violation{Case: "worker", What: fmt.Sprintf("worker died: %v", werr), Detail: clip(stderr.String(), 40000)})
		}
	}
	cov := map[string]any{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"rule":                res.Rule,
		"samples":             res.Samples,
		"monitors":            res.Counters,
		"race_detector":       ck.race,
		"race_reports":        races,
		"peak_rss_mb":         peak,
		"truncated":           res.Truncated,
	}
	if res.Samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": res.Assumptions, "wall_s": time.Since(start).Seconds(),
		"violations": len(res.Violations),
	}
	if res.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(res.Violations) > 0 {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		rp := filepath.Join(root, "replays", fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
		b, _ := json.MarshalIndent(map[string]any{
			"property": id, "command": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash %s/check.sh %s", seed, tier, root, id),
			"violations": res.Violations,
		}, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		for _, v := range res.Violations {
			fmt.Printf("  %s: %s: input %s: %s\n", v.Case, v.What, clip(v.Input, 200), clip(v.Detail, 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("ok property=%s evaluations=%d distinct=%d wall=%.1fs\n", id, res.Evaluations, res.Distinct, time.Since(start).Seconds())
	return 0
}

// maxWorkerMB is far more than any worker needs on code that holds the properties.
const maxWorkerMB = 18000

// rssMB is the resident memory of a process.
func rssMB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

// tailBuf keeps the head and the tail of what is written.
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<21 {
		t.b = append(append([]byte{}, t.b[:1<<19]...), t.b[len(t.b)-1<<19:]...)
	}
	return len(p), nil
}
func (t *tailBuf) Bytes() []byte  { return t.b }
func (t *tailBuf) String() string { return string(t.b) }

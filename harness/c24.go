package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	checks["C24"] = check{run: runC24}
}

// limitMain runs a command that may write no more than so many bytes to a file:
// limit BYTES signal|error COMMAND ARGS...
func limitMain(args []string) {
	n, err := strconv.ParseUint(args[0], 10, 64)
	if err != nil {
		setupError("%v", err)
	}
	if args[1] == "error" {
		signal.Ignore(syscall.SIGXFSZ)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		setupError("%v", err)
	}
	err = syscall.Exec(args[2], args[2:], os.Environ())
	setupError("exec: %v", err)
}

func runC24(c *Ctx) {
	c.Rule("a case is one run of a real command whose output meets a fault: a full device, a limit on the size of files at any byte (at and around the length of the whole output, at multiples of 4096), a reader that is gone or leaves early or is slow, for standard output and for the output file; if the command ends without error, everything that an undisturbed run prints must have arrived, otherwise there must be a message unless a signal ended it; non-trivial: the fault hit before the end of the output")
	c.Assume("an undisturbed run prints the right output (judged by C15 and C21)")
	bin := c.kagome()
	self, err := os.Executable()
	if err != nil {
		setupError("%v", err)
	}
	hits := c.Counter("runs in which the fault hit the output")
	c.RunP("faults", c.N(300, 6000), 8, func(i int, r *rand.Rand) {
		var in string
		switch r.Intn(4) {
		case 0:
			in = corpusSlice(r, 60)
		case 1:
			in = corpusSlice(r, 6000)
		case 2:
			in = genCliText(r, nil)
		default:
			in = pick(r, []string{"", "猫", "\n", "猫である。\n", "。\n。\n"})
		}
		args := [][]string{{}, {"-json"}, {"-split"}, {"-split", "-json"}, {"-mode=extended"}, {"sentence"}, {"sentence"}, {"lattice"}, {"lattice"}, {"lattice", "-mode=search"}}[r.Intn(10)]
		lattice := len(args) > 0 && args[0] == "lattice"
		text := strings.ReplaceAll(in, "\x00", "")
		if len(text) > 900 {
			text = strings.ToValidUTF8(text[:900], "")
		}
		full := func(extra ...string) []string {
			a := append(append([]string{}, args...), extra...)
			if lattice {
				a = append(a, "--", text)
			}
			return a
		}
		ref, err := runCmd(bin, full(), strings.NewReader(in))
		if err != nil {
			setupError("%v", err)
		}
		if ref.code != 0 || ref.timeout {
			c.Count("inputs that fail without a fault", 1)
			return
		}
		same := func(got string) bool {
			return got == ref.out || lattice && sameGraph(got, ref.out)
		}
		size := len(ref.out)
		limit := 0
		switch r.Intn(6) {
		case 0:
		case 1:
			limit = size
		case 2:
			limit = max(0, size-1-r.Intn(3))
		case 3:
			limit = size + 1 + r.Intn(100)
		case 4:
			limit = 4096 * r.Intn(size/4096+2)
		default:
			limit = r.Intn(size + 1)
		}
		kind := []string{"full", "limit", "limit", "limit", "gone", "early", "slow"}[r.Intn(7)]
		toFile := lattice && r.Intn(2) == 0
		if toFile && kind != "full" {
			kind = "limit"
		}
		out := c.path(fmt.Sprintf("out%d", i))
		defer os.Remove(out)
		desc := fmt.Sprintf("faults/%d kagome %q %s", i, full(), kind)
		var got string    // what arrived
		var res cmdResult // how it ended
		bound := size     // bytes that can be written
		run := func(name string, a []string, w io.Writer) {
			ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, name, a...)
			var errb bytes.Buffer
			cmd.Dir, cmd.Stdin, cmd.Stdout, cmd.Stderr = cmdDir, strings.NewReader(in), w, &errb
			cmd.WaitDelay = 5 * time.Second
			err := cmd.Run()
			res.err = errb.String()
			res.timeout = ctx.Err() != nil
			var ee *exec.ExitError
			if errors.As(err, &ee) {
				res.code = ee.ExitCode()
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
					res.code = 128 + int(ws.Signal())
				}
			} else if err != nil && cmd.ProcessState == nil {
				setupError("%v", err)
			}
		}
		switch kind {
		case "full":
			bound = 0
			if toFile {
				run(bin, full("-output=/dev/full"), nil)
				break
			}
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				setupError("%v", err)
			}
			run(bin, full(), f)
			f.Close()
		case "limit":
			bound = limit
			desc += fmt.Sprintf(" %d of %d bytes", limit, size)
			how := pick(r, []string{"error", "error", "signal"})
			pre := []string{"-child", "limit", strconv.Itoa(limit), how, bin}
			if toFile {
				if r.Intn(2) == 0 {
					os.WriteFile(out, []byte(strings.Repeat("old\n", 3000)), 0o644)
				}
				run(self, append(pre, full("-output", out)...), nil)
			} else {
				f, err := os.Create(out)
				if err != nil {
					setupError("%v", err)
				}
				run(self, append(pre, full()...), f)
				f.Close()
			}
			b, _ := os.ReadFile(out)
			got = string(b)
		default:
			pr, pw, err := os.Pipe()
			if err != nil {
				setupError("%v", err)
			}
			done := make(chan string, 1)
			switch kind {
			case "gone":
				bound = 0
				pr.Close()
				done <- ""
			case "early":
				bound = limit + 1<<16 // what is still in the pipe is lost
				go func() {
					b, _ := io.ReadAll(io.LimitReader(pr, int64(limit)))
					pr.Close()
					done <- string(b)
				}()
			case "slow":
				go func() {
					var b []byte
					buf := make([]byte, 1+size/20)
					for {
						n, err := pr.Read(buf)
						b = append(b, buf[:n]...)
						if err != nil {
							break
						}
						time.Sleep(5 * time.Millisecond)
					}
					pr.Close()
					done <- string(b)
				}()
			}
			run(bin, full(), pw)
			pw.Close()
			got = <-done
		}
		if res.timeout {
			c.Fail(desc, "the command does not end", in, "")
			return
		}
		// the names of a graph's nodes are addresses, whose length varies
		vary := 0
		if lattice {
			vary = size/8 + 200
		}
		hit := bound < size
		if kind == "early" {
			hit = bound < size-vary
		}
		if hit {
			hits.Add(1)
			c.Count("faults "+kind, 1)
		}
		switch {
		case hit && res.code == 0:
			if lattice && kind == "limit" && same(got) {
				break
			}
			c.Fail(desc, "success is reported although output was lost", in, "%d of %d bytes could be written, standard error %q", bound, size, clip(res.err, 500))
		case hit && res.code < 128 && strings.TrimSpace(res.err) == "":
			c.Fail(desc, "no message about the lost output", in, "exit %d", res.code)
		case !hit && kind == "early":
		case !hit && res.code != 0 && bound >= size+vary:
			c.Fail(desc, "the command fails although everything could be written", in, "exit %d, %q", res.code, clip(res.err, 500))
		case !hit && res.code == 0 && !same(got):
			c.Fail(desc, "success is reported although the output is not complete", in, "%s", textMismatch(got, ref.out))
		}
		c.Eval(hashStr(desc, in), hit)
		if hit {
			c.Sample(map[string]any{"command": full(), "fault": kind, "bytes": bound, "of": size, "exit": res.code, "stderr": clip(res.err, 200)})
		}
	})
}

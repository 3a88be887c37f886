package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() { checks["C26"] = check{run: runC26} }

// streamLine is a line for which all commands have something to say at once: when sentences are
// split it ends with a delimiter.
func streamLine(r *rand.Rand, split bool) string {
	s := ""
	for s == "" {
		switch r.Intn(3) {
		case 0:
			s = corpusSlice(r, 100)
		case 1:
			s = genText(r, nil, 60)
		default:
			s = pick(r, []string{"猫", "すもももももももものうち", "a b", "、", "2024年", "ア"})
		}
		s = strings.NewReplacer("\n", "", "\r", "", "\x00", "").Replace(s)
		if split {
			s = strings.TrimSpace(strings.ToValidUTF8(s, ""))
			for _, d := range defaultRules.delim + defaultRules.follower {
				s = strings.ReplaceAll(s, string(d), "")
			}
			if s != "" {
				s += pick(r, []string{"。", "！", "。」", "?！"})
			}
		}
	}
	return s + pick(r, []string{"\n", "\n", "\r\n"})
}

func runC26(c *Ctx) {
	c.Rule("a case is (command, lines) with the input given line by line through a pipe or a named pipe that stays open: after each line what the finished lines give must have been printed before anything else is given; and (command, size) where an endless input is given and the peak memory of the process is watched; non-trivial: at least two lines")
	c.Assume("the output of an undisturbed run on all lines is right (judged by C15 and C21)")
	bin := c.kagome()
	waits := c.Counter("answers awaited while the input was open")
	const patience = 60 * time.Second
	c.RunP("lines", c.N(64, 1500), 8, func(i int, r *rand.Rand) {
		args := [][]string{{}, {"-json"}, {"-mode=search"}, {"-mode=extended", "-json"}, {"-split"}, {"-split", "-json"}, {"sentence"}, {"tokenize"}}[i%8]
		sentence := len(args) > 0 && args[0] == "sentence"
		split := sentence || len(args) > 0 && args[0] == "-split"
		var ls []string
		for n := 2 + r.Intn(12); n > 0; n-- {
			ls = append(ls, streamLine(r, split))
		}
		all := strings.Join(ls, "")
		ref, err := runCmd(bin, args, strings.NewReader(all))
		if err != nil {
			setupError("%v", err)
		}
		parts := outBlocks(ref.out)
		if sentence {
			parts = strings.SplitAfter(strings.TrimSuffix(ref.out, "\n"), "\n")
			parts[len(parts)-1] += "\n"
		} else if strings.Contains(strings.Join(args, " "), "json") {
			parts = nil
			for _, p := range strings.SplitAfter(ref.out, "]\n") {
				if p != "" {
					parts = append(parts, p)
				}
			}
		}
		if ref.code != 0 || len(parts) != len(ls) {
			c.Count("inputs without one answer per line", 1)
			return
		}
		desc := fmt.Sprintf("lines/%d kagome %q", i, args)
		fifo := r.Intn(3) == 0
		cmd := exec.Command(bin, args...)
		var w io.WriteCloser
		if fifo {
			p := c.path(fmt.Sprintf("fifo%d", i))
			if err := syscall.Mkfifo(p, 0o600); err != nil {
				setupError("%v", err)
			}
			defer os.Remove(p)
			f, err := os.OpenFile(p, os.O_RDWR, 0) // does not wait
			if err != nil {
				setupError("%v", err)
			}
			w = f
			cmd = exec.Command(bin, append(append([]string{}, args...), "-file", p)...)
			desc += " from a named pipe"
		} else if w, err = cmd.StdinPipe(); err != nil {
			setupError("%v", err)
		}
		var errb bytes.Buffer
		cmd.Dir, cmd.Stderr = cmdDir, &errb
		pr, pw, err := os.Pipe()
		if err != nil {
			setupError("%v", err)
		}
		defer pr.Close()
		cmd.Stdout = pw
		if err := cmd.Start(); err != nil {
			setupError("%v", err)
		}
		pw.Close()
		got := ""
		read := func(n int, limit time.Duration) bool { // until so many bytes have arrived
			buf := make([]byte, 1<<16)
			pr.SetReadDeadline(time.Now().Add(limit))
			for len(got) < n {
				k, err := pr.Read(buf)
				got += string(buf[:k])
				if err != nil {
					return len(got) >= n
				}
			}
			return true
		}
		end := func() error {
			w.Close()
			cmd.Process.Kill()
			return cmd.Wait()
		}
		want := 0
		for k, l := range ls {
			if cut := r.Intn(len(l)); r.Intn(3) == 0 { // a line in two pieces
				io.WriteString(w, l[:cut])
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
				l = l[cut:]
			}
			if _, err := io.WriteString(w, l); err != nil {
				c.Fail(desc, "the command does not take its input", all, "line %d: %v", k, err)
				end()
				return
			}
			if r.Intn(4) == 0 && k < len(ls)-1 { // several at once
				want += len(parts[k])
				continue
			}
			want += len(parts[k])
			waits.Add(1)
			if !read(want, patience) {
				end()
				c.Fail(desc, "no answer to a line while the input is open", all, "line %d of %d: %q expected, %d of %d bytes after %v", k+1, len(ls), clip(parts[k], 300), len(got), want, patience)
				return
			}
			if !strings.HasPrefix(ref.out, got) {
				end()
				c.Fail(desc, "another answer than to the complete input", all, "%s", textMismatch(got, ref.out))
				return
			}
			c.Tick()
		}
		if fifo { // this process holds it open for reading as well
			end()
		} else {
			w.Close()
			read(len(ref.out)+1, patience)
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				if err != nil || got != ref.out {
					c.Fail(desc, "another end than with the complete input", all, "%v, %q; %s", err, clip(errb.String(), 300), textMismatch(got, ref.out))
				}
			case <-time.After(patience):
				cmd.Process.Kill()
				c.Fail(desc, "the command does not end with its input", all, "")
			}
		}
		c.Eval(hashStr(desc, all), len(ls) > 1)
		c.Sample(map[string]any{"command": args, "lines": len(ls), "named pipe": fifo, "bytes": len(got)})
	})
	if c.Failed() {
		return
	}
	// endless input
	works := [][]string{{}, {"-json"}, {"-split"}, {"sentence"}, {"-mode=extended"}, {"-split", "-json"}}
	size := c.N(16, 120) << 20
	c.RunP("endless", len(works), 6, func(i int, r *rand.Rand) {
		args := works[i]
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "GOGC=10") // so that memory follows what is in use
		cmd.Dir, cmd.Stdout = cmdDir, nil
		var errb bytes.Buffer
		cmd.Stderr = &errb
		w, err := cmd.StdinPipe()
		if err != nil {
			setupError("%v", err)
		}
		if err := cmd.Start(); err != nil {
			setupError("%v", err)
		}
		defer func() { cmd.Process.Kill(); cmd.Wait() }()
		n := 0
		var early, late []int // memory in use, in MB
		for n < size {
			var b strings.Builder
			for b.Len() < 1<<17 {
				s := strings.ReplaceAll(corpusSlice(r, 400), "\n", "")
				fmt.Fprintf(&b, "%s%d\n", s, r.Int63())
			}
			k, err := io.WriteString(w, b.String())
			n += k
			if err != nil {
				c.Fail(fmt.Sprintf("endless kagome %q", args), "the command does not take its input", "", "%v after %d bytes: %s", err, n, clip(errb.String(), 1000))
				return
			}
			mb := rssMB(cmd.Process.Pid)
			switch {
			case n > size/4 && n <= size*2/5:
				early = append(early, mb)
			case n > size*17/20:
				late = append(late, mb)
			}
			c.Tick()
		}
		c.Count("megabytes given to endless runs", n>>20)
		sort.Ints(early)
		sort.Ints(late)
		before, after := early[len(early)/2], late[len(late)/2]
		c.Max("largest growth in an endless run (MB)", after-before)
		c.Eval(hashStr("endless", fmt.Sprint(args)), true)
		if between := size * 6 / 10 >> 20; after-before > max(8, between*3/4) {
			c.Fail(fmt.Sprintf("endless kagome %q", args), "memory grows with the input", "", "%d MB early, %d MB after %d MB more", before, after, between)
		}
	})
}

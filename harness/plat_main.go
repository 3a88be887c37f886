//go:build ignore

// Command plat shows what cases look like on another platform (see check.sh for its files):
//
//	plat SEED stream=from-to ...    a line "stream i hash(input) what hash(text) ..." per case
//	plat SEED -show stream i        the case itself
package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

func main() {
	c := newCtx("C22")
	seed, err := strconv.ParseInt(os.Args[1], 10, 64)
	if err != nil {
		setupError("%v", err)
	}
	c.Seed = seed
	if len(os.Args) == 5 && os.Args[2] == "-show" {
		i, _ := strconv.Atoi(os.Args[4])
		in, res := platObserve(c, os.Args[3], i)
		fmt.Printf("%q\n", in)
		for _, s := range res {
			fmt.Printf("== %s\n%s\n", s.what, s.text)
		}
		return
	}
	for _, a := range os.Args[2:] {
		stream, span, _ := strings.Cut(a, "=")
		lo, hi, _ := strings.Cut(span, "-")
		from, _ := strconv.Atoi(lo)
		to, _ := strconv.Atoi(hi)
		var mu sync.Mutex
		var wg sync.WaitGroup
		next := from
		for k := 0; k < runtime.GOMAXPROCS(0); k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					i := next
					next++
					mu.Unlock()
					if i >= to {
						return
					}
					line := platLine(c, stream, i)
					mu.Lock()
					fmt.Println(line)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	fmt.Println("done", runtime.GOOS, runtime.GOARCH, strconv.IntSize)
}

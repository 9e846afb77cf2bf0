// Command schedtest2 compares the reduced exploration with the full one on all small programs.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/zverif/vatomic"
	"github.com/FAU-CDI/hangover/zverif/vsched"
	"github.com/FAU-CDI/hangover/zverif/vsync"
)

type world struct {
	m    vsync.Mutex
	rw   vsync.RWMutex
	a    vatomic.Int64
	o    vsync.Once
	x, y int
	w    int
}

var ops = []func(w *world, id int) string{
	func(w *world, id int) string {
		w.m.Lock()
		w.x = w.x*3 + id
		r := fmt.Sprint(w.x)
		w.m.Unlock()
		return r
	},
	func(w *world, id int) string { w.rw.RLock(); r := fmt.Sprint(w.y); w.rw.RUnlock(); return r },
	func(w *world, id int) string { w.rw.Lock(); w.y = w.y*3 + id; w.rw.Unlock(); return "" },
	func(w *world, id int) string { return fmt.Sprint(w.a.Load()) },
	func(w *world, id int) string { return fmt.Sprint(w.a.Add(int64(id))) },
	func(w *world, id int) string { w.o.Do(func() { w.w = id; w.a.Load() }); return fmt.Sprint(w.w) },
	func(w *world, id int) string {
		if w.m.TryLock() {
			w.a.Load()
			w.m.Unlock()
			return "t"
		}
		return "f"
	},
	func(w *world, id int) string {
		vsched.Go(func() { w.a.Store(9) })
		return ""
	},
}

func outcomes(prog [][]int, opts vsched.Options) (string, int) {
	seen := map[string]bool{}
	var result string
	res, err := vsched.Explore(opts, func() {
		w := new(world)
		var wg vsync.WaitGroup
		out := make([]string, len(prog))
		wg.Add(len(prog))
		for i := range prog {
			i := i
			vsched.Go(func() {
				defer wg.Done()
				for _, k := range prog[i] {
					out[i] += ops[k](w, i+1) + ","
				}
			})
		}
		wg.Wait()
		result = strings.Join(out, "|") + fmt.Sprint(w.x, w.y)
	}, func() error { seen[result] = true; return nil })
	if err != nil {
		fmt.Println(prog, err)
		os.Exit(1)
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n"), res.Executions
}

func main() {
	var seqs [][]int
	for i := range ops {
		for j := range ops {
			seqs = append(seqs, []int{i, j})
		}
	}
	n, red, full := 0, 0, 0
	try := func(prog [][]int) {
		n++
		a, x := outcomes(prog, vsched.Options{Delays: -1, DPOR: true})
		b, y := outcomes(prog, vsched.Options{From: 99, Delays: 99})
		red += x
		full += y
		if a != b {
			fmt.Printf("%v: %d executions:\n%s\nbut %d:\n%s\n", prog, x, a, y, b)
			os.Exit(1)
		}
	}
	for i := range seqs {
		for j := i; j < len(seqs); j++ {
			try([][]int{seqs[i], seqs[j]})
			for k := range ops {
				try([][]int{seqs[i], seqs[j], {k}})
			}
		}
		fmt.Println(i, n, red, full)
	}
}

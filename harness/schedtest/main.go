// Command schedtest checks the controlled scheduler itself on small programs.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/zverif/vatomic"
	"github.com/FAU-CDI/hangover/zverif/vsched"
	"github.com/FAU-CDI/hangover/zverif/vsync"
	"github.com/tkw1536/pkglib/traversal"
)

var result string

func explore(name string, body func(), fail string, opts vsched.Options) []string {
	seen := map[string]int{}
	start := time.Now()
	res, err := vsched.Explore(opts, body, func() error { seen[result]++; return nil })
	var keys []string
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	ok := "ok"
	if (err != nil) != (fail != "") || err != nil && !strings.Contains(err.Error(), fail) {
		ok = "FAIL"
		fmt.Println(err)
	}
	fmt.Printf("%-4s %-20s %+v %v %v\n", ok, name, res, keys, time.Since(start).Round(time.Millisecond))
	if ok != "ok" {
		os.Exit(1)
	}
	return keys
}

func both(name string, body func(), fail string) {
	a := explore(name, body, fail, vsched.Options{Delays: -1, DPOR: true})
	b := explore(name+"/delays", body, fail, vsched.Options{Delays: 6})
	if fail == "" && strings.Join(a, "|") != strings.Join(b, "|") {
		fmt.Println("FAIL: different outcomes")
		os.Exit(1)
	}
}

func main() {
	vsched.NoSleep = os.Getenv("NOSLEEP") != ""

	both("atomic increments", func() {
		var n vatomic.Int64
		var wg vsync.WaitGroup
		for i := 0; i < 3; i++ {
			i := i
			wg.Add(1)
			_ = i
			vsched.Go(func() {
				defer wg.Done()
				v := n.Load()
				n.Store(v + 1)
			})
		}
		wg.Wait()
		result = fmt.Sprint(n.Load())
	}, "")
	both("order", func() {
		var m vsync.Mutex
		var wg vsync.WaitGroup
		s := ""
		for i := 0; i < 4; i++ {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				defer wg.Done()
				m.Lock()
				defer m.Unlock()
				s += fmt.Sprint(i)
			})
		}
		wg.Wait()
		result = s
	}, "")
	both("independent", func() {
		var ms [6]vsync.Mutex
		var wg vsync.WaitGroup
		for i := 0; i < 6; i++ {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				defer wg.Done()
				ms[i].Lock()
				defer ms[i].Unlock()
			})
		}
		wg.Wait()
		result = ""
	}, "")
	both("deadlock", func() {
		var a, b vsync.Mutex
		var wg vsync.WaitGroup
		wg.Add(2)
		vsched.Go(func() { defer wg.Done(); a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
		vsched.Go(func() { defer wg.Done(); b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		wg.Wait()
	}, "deadlock")
	both("recursive read lock", func() {
		var a vsync.RWMutex
		var wg vsync.WaitGroup
		wg.Add(2)
		vsched.Go(func() { defer wg.Done(); a.RLock(); a.RLock(); a.RUnlock(); a.RUnlock() })
		vsched.Go(func() { defer wg.Done(); a.Lock(); a.Unlock() })
		wg.Wait()
	}, "deadlock")
	both("rw", func() {
		var a vsync.RWMutex
		var wg vsync.WaitGroup
		n := 0
		var seen [3]int
		wg.Add(4)
		for i := 0; i < 3; i++ {
			i := i
			vsched.Go(func() { defer wg.Done(); a.RLock(); seen[i] = n; a.RUnlock() })
		}
		vsched.Go(func() {
			defer wg.Done()
			a.Lock()
			n++
			a.Unlock()
			a.Lock()
			n++
			a.Unlock()
		})
		wg.Wait()
		result = fmt.Sprint(seen)
	}, "")
	both("late add", func() {
		var wg vsync.WaitGroup
		var n vatomic.Int64
		vsched.Go(func() { wg.Add(1); n.Add(1); wg.Done() })
		wg.Wait()
		result = ""
	}, "misuse")
	both("nested add", func() {
		var wg vsync.WaitGroup
		wg.Add(1)
		vsched.Go(func() {
			wg.Add(1)
			vsched.Go(func() { wg.Done() })
			wg.Done()
		})
		wg.Wait()
		result = ""
	}, "")
	both("nested late add", func() {
		var wg vsync.WaitGroup
		wg.Add(1)
		vsched.Go(func() {
			vsched.Go(func() { wg.Add(1); wg.Done() })
			wg.Done()
		})
		wg.Wait()
		result = ""
	}, "misuse")
	both("once", func() {
		var o vsync.Once
		var wg vsync.WaitGroup
		who := -1
		for i := 0; i < 3; i++ {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				defer wg.Done()
				o.Do(func() { who = i })
				if who < 0 {
					panic("not done")
				}
			})
		}
		wg.Wait()
		result = fmt.Sprint(who)
	}, "")
	gen := func(n int) traversal.Iterator[int] {
		return traversal.New(func(g traversal.Generator[int]) {
			for i := 0; i < n; i++ {
				if !g.Yield(i) {
					return
				}
			}
		})
	}
	both("iterators", func() {
		s := 0
		a, b := gen(3), traversal.Map(gen(3), func(i int) int { return i * 10 })
		for a.Next() && b.Next() {
			s += a.Datum() + b.Datum()
		}
		a.Close()
		b.Close()
		result = fmt.Sprint(s)
	}, "")
	both("iterator closed early", func() {
		a := gen(3)
		a.Next()
		a.Close()
		result = fmt.Sprint(a.Datum(), a.Next())
	}, "")
	both("iterator left", func() {
		a := gen(3)
		a.Next()
	}, "left blocked")
	both("panic", func() {
		var n vatomic.Int64
		vsched.Go(func() { n.Store(1) })
		if n.Load() == 1 {
			if n.Load() == 1 {
				panic("seen")
			}
		}
	}, "seen")
	both("cond", func() {
		var m vsync.Mutex
		c := vsync.NewCond(&m)
		ready := false
		vsched.Go(func() { m.Lock(); ready = true; m.Unlock(); c.Signal() })
		m.Lock()
		for !ready {
			c.Wait()
		}
		m.Unlock()
		result = ""
	}, "")
	both("trylock", func() {
		var m vsync.Mutex
		var wg vsync.WaitGroup
		var got [2]bool
		wg.Add(2)
		for i := range got {
			i := i
			vsched.Go(func() {
				defer wg.Done()
				if m.TryLock() {
					got[i] = true
					m.Unlock()
				}
			})
		}
		wg.Wait()
		result = fmt.Sprint(got)
	}, "")
	both("dekker", func() {
		var x, y, r1, r2 vatomic.Int64
		var wg vsync.WaitGroup
		wg.Add(2)
		vsched.Go(func() { defer wg.Done(); x.Store(1); r1.Store(y.Load()) })
		vsched.Go(func() { defer wg.Done(); y.Store(1); r2.Store(x.Load()) })
		wg.Wait()
		result = fmt.Sprint(r1.Load(), r2.Load())
	}, "")
	fmt.Println("all fine")
	if len(os.Args) > 1 { // must be reported by the race detector
		x := 0
		vsched.Explore(vsched.Options{Delays: -1, DPOR: true}, func() {
			vsched.Go(func() { x++ })
			x++
		}, nil)
		fmt.Println("race not found", x)
	}
}

package main

import (
	"fmt"
	"time"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/zverif/vsched"
	"github.com/FAU-CDI/hangover/zverif/vsync"
)

const k = "http://x/"

// data for queries: two steps, an equivalence, an inverse, values
var (
	qStmts = []ref.Stmt{
		{S: k + "a", P: ref.Type, O: k + "A"}, {S: k + "b", P: ref.Type, O: k + "A"},
		{S: k + "a", P: k + "p", O: k + "b"}, {S: k + "b", P: k + "p", O: k + "c"}, {S: k + "c2", P: k + "p", O: k + "a"},
		{S: k + "b", P: k + "ip", O: k + "a2"},
		{S: k + "b", P: k + "w", O: "one", Lit: true}, {S: k + "c", P: k + "w", O: "two", Lit: true, Lang: "en"},
	}
	qSame    = [][2]string{{k + "c", k + "c2"}}
	qInverse = [][2]string{{k + "p", k + "ip"}}
)

// queryAll runs queries at the same time.
func queryAll(c *kit.Ctx, disk bool, delays int, qs [][]ref.Step) error {
	g := ref.Build(qStmts, qSame, qInverse)
	var want []string
	for _, q := range qs {
		var keys []string
		for _, r := range g.Query(q) {
			keys = append(keys, r.Key())
		}
		want = append(want, ref.Multiset(keys))
	}
	build := func() (*igraph.Index, func(), error) {
		var e igraph.Engine = sparkl.NewEngine("")
		done := func() {}
		if disk {
			e, done = impl.Engine(c.Scratch())
		}
		i, err := impl.BuildIndex(e, qSame, qInverse, qStmts, 0)
		return i, done, err
	}
	var shared *igraph.Index
	if disk {
		i, done, err := build()
		if err != nil {
			return err
		}
		defer done()
		defer i.Close()
		shared = i
	}
	got := make([][]string, len(qs))
	errs := make([]error, len(qs))
	var broken error
	res, err := vsched.Explore(vsched.Options{Delays: delays, DPOR: true, Budget: 60 * time.Second}, func() {
		index := shared
		if index == nil {
			var done func()
			if index, done, broken = build(); broken != nil {
				return
			}
			defer done()
			defer index.Close()
		}
		var wg vsync.WaitGroup
		for i := range qs {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				defer wg.Done()
				got[i], errs[i] = impl.Query(g, index, qs[i], i%2 == 0)
			})
		}
		wg.Wait()
	}, func() error {
		if broken != nil {
			return broken
		}
		for i, q := range qs {
			if errs[i] != nil {
				return fmt.Errorf("query %v: %v", q, errs[i])
			}
			if h := ref.Multiset(got[i]); h != want[i] {
				return fmt.Errorf("query %v: alone:\n%s\n with others:\n%s", q, want[i], h)
			}
		}
		return nil
	})
	c.Trans(res.Steps)
	c.Add("schedules", int64(res.Executions))
	c.Add("programs", 1)
	if err != nil {
		return err
	}
	if !res.Complete || res.Delays < delays {
		c.Trunc("not all schedules of some queries were explored")
	}
	return nil
}

func queries(c *kit.Ctx) {
	qs := [][]ref.Step{
		{{P: ref.Type, O: k + "A"}},
		{{P: ref.Type, O: k + "A"}, {P: k + "p"}},
		{{P: ref.Type, O: k + "A"}, {P: k + "p"}, {P: k + "w"}},
		{{P: ref.Type, O: k + "A"}, {P: k + "p"}, {P: k + "p"}},
		{{P: ref.Type, O: k + "A"}, {P: k + "p"}, {End: true, P: ref.Type, O: k + "A"}},
		{{P: ref.Type, O: k + "A"}, {P: k + "ip"}},
		{{P: ref.Type, O: k + "B"}, {P: k + "p"}},
	}
	for _, disk := range []bool{false, true} {
		for i := range qs {
			for j := i; j < len(qs); j++ {
				disk, i, j := disk, i, j
				c.Case(func() string { return fmt.Sprintf("queries: disk %v: %v || %v", disk, qs[i], qs[j]) }, func() error {
					c.Nontrivial()
					return queryAll(c, disk, 1, [][]ref.Step{qs[i], qs[j]})
				})
				if c.Deep() {
					for l := j; l < len(qs); l++ {
						l := l
						c.Case(func() string { return fmt.Sprintf("queries: disk %v: %v || %v || %v", disk, qs[i], qs[j], qs[l]) }, func() error {
							c.Nontrivial()
							return queryAll(c, disk, 1, [][]ref.Step{qs[i], qs[j], qs[l]})
						})
					}
				}
			}
		}
	}
}

// Command c29 checks that concurrent requests and concurrent queries get the answers they get alone.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/conc"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
	"github.com/FAU-CDI/hangover/zverif/vsched"
	"github.com/FAU-CDI/hangover/zverif/vsync"
)

type site struct{ *conc.Site }

// requests sends requests at the same time.
// Each group is sent one after the other.
func (s site) requests(c *kit.Ctx, delays int, groups [][]string) error {
	if err := s.Load(); err != nil {
		return err
	}
	for _, g := range groups {
		for _, t := range g {
			if _, err := s.Answer(t); err != nil {
				return err
			}
		}
	}
	var got [][]vw.Response
	var broken error
	first, every := kit.Pick(c, 2, 3), kit.Pick(c, 40, 8)
	res, err := vsched.Explore(vsched.Options{Delays: delays, DPOR: true, Budget: 120 * time.Second}, func() {
		var v *viewer.Viewer
		v, broken = s.Viewer()
		if broken != nil {
			return
		}
		got = make([][]vw.Response, len(groups))
		var wg vsync.WaitGroup
		for i := range groups {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				defer wg.Done()
				for _, t := range groups[i] {
					got[i] = append(got[i], conc.Serve(v, t, &conc.Recorder{First: first, Every: every}))
				}
			})
		}
		wg.Wait()
	}, func() error {
		if broken != nil {
			return broken
		}
		for i, g := range groups {
			for j, t := range g {
				if err := s.Alone[t].DiffersUnordered(got[i][j]); err != nil {
					return fmt.Errorf("%s alone, and with the other requests: %v", t, err)
				}
			}
		}
		return nil
	})
	c.Trans(res.Steps)
	c.Add("schedules", int64(res.Executions))
	c.Add("programs", 1)
	if err != nil {
		return err
	}
	if !res.Complete || res.Delays < delays {
		c.Trunc("not all schedules of some requests were explored")
	}
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C29",
		Level:    "model_checking",
		Rule:     "all ordered pairs (and some triples) of requests about small sites and of queries on a finished index, each under all schedules up to equivalence (dynamic partial order reduction) and all schedules with at most one (two) delays which may also interrupt the writing of an answer, every execution with the race detector, compared with the answers alone",
		Assumptions: []string{
			"between two synchronisation operations and interruptions a thread runs alone (sound as long as there is no data race, which the race detector checks in every execution)",
			"the synchronisation inside of the standard library and of leveldb is not controlled",
		},
		HangAfter: 900 * time.Second,
	}, func(c *kit.Ctx) {
		delays := kit.Pick(c, 1, 2)
		for _, st := range conc.Sites() {
			s := site{st}
			for i, t := range s.Targets {
				for _, u := range s.Targets[i:] {
					s, t, u := s, t, u
					if strings.Contains(t, "nosuch") && strings.Contains(u, "nosuch") {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("requests: %s: %s || %s", s.Name, t, u) }, func() error {
						c.Nontrivial()
						c.StateOf(t + u)
						return s.requests(c, delays, [][]string{{t}, {u}})
					})
				}
			}
			// three at a time
			heavy := s.Targets[:0:0]
			for _, t := range s.Targets {
				if !strings.Contains(t, "nosuch") && (strings.Contains(t, "?uri=") || strings.Contains(t, "?limit") || t == "/" || t == "/pathbuilder") {
					heavy = append(heavy, t)
				}
			}
			for i, t := range heavy {
				for j := i; j < len(heavy); j++ {
					s, t, u, v := s, t, heavy[j], heavy[(i+j)%len(heavy)]
					c.Case(func() string { return fmt.Sprintf("requests: %s: %s, then %s || %s, then %s", s.Name, t, u, v, t) }, func() error {
						c.Nontrivial()
						c.StateOf(t + u + v)
						return s.requests(c, delays-1, [][]string{{t, u}, {v, t}})
					})
					c.Case(func() string { return fmt.Sprintf("requests: %s: %s || %s || %s", s.Name, t, u, v) }, func() error {
						c.Nontrivial()
						c.StateOf(t + u + v)
						return s.requests(c, delays-1, [][]string{{t}, {u}, {v}})
					})
				}
			}
		}
		queries(c)
	})
}

// C01: path queries against the reference graph for all statement sequences.
package main

import (
	"fmt"
	"strconv"

	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

var labels = []string{"a", "b", "c"}
var preds = []string{"p", "q"}

func alphabet(links, data bool) (out []ref.Stmt) {
	for _, s := range labels {
		for _, p := range preds {
			if links {
				for _, o := range labels {
					out = append(out, ref.Stmt{S: s, P: p, O: o})
				}
			}
			if data {
				for _, d := range [][2]string{{"", ""}, {"a", ""}, {"a", "en"}, {"x y", "de"}} {
					out = append(out, ref.Stmt{S: s, P: p, O: d[0], Lit: true, Lang: d[1]})
				}
			}
		}
	}
	return
}

// sequences enumerates the sequences of exactly n statements, up to renaming of labels and predicates.
func sequences(alpha []ref.Stmt, n int, f func([]ref.Stmt)) {
	li := map[string]int{"a": 0, "b": 1, "c": 2}
	pi := map[string]int{"p": 0, "q": 1}
	var rec func(seq []ref.Stmt, usedL, usedP int)
	rec = func(seq []ref.Stmt, usedL, usedP int) {
		if len(seq) == n {
			f(append([]ref.Stmt{}, seq...))
			return
		}
	next:
		for _, s := range alpha {
			l, p := usedL, usedP
			if i := li[s.S]; i > l {
				continue
			} else if i == l {
				l++
			}
			if i := pi[s.P]; i > p {
				continue
			} else if i == p {
				p++
			}
			if !s.Lit {
				if i := li[s.O]; i > l {
					continue
				} else if i == l {
					l++
				}
			} else {
				for _, t := range seq { // stating the same value twice is not part of the property
					if t == s {
						continue next
					}
				}
			}
			rec(append(seq, s), l, p)
		}
	}
	rec(nil, 0, 0)
}

func main() {
	kit.Main(kit.Spec{
		Property: "C01", Level: "model_checking",
		Rule:        "every sequence of link/value statements over 3 names, 2 predicates and 4 texts up to the depth (up to renaming), followed by every query with up to 2 (memory) extension steps; every answer is compared as a multiset, with provenance, to a brute-force graph; memory and disk backends; plus stars and chains of every size up to a bound",
		Assumptions: []string{"a text value stated twice for the same subject and predicate is outside the property", "order of answers is not specified"},
	}, func(c *kit.Ctx) {
		short := impl.Queries(append(preds, "nope"), append(labels, "nope"), 1)
		full := impl.Queries(preds, labels, 2)
		long := impl.Queries(preds[:1], labels[:2], 3)

		run := func(seq []ref.Stmt, disk bool, queries ...[][]ref.Step) {
			where := "memory"
			if disk {
				where = "disk"
			}
			c.Case(func() string { return fmt.Sprintf("%s: %v", where, seq) }, func() error {
				g := ref.Build(seq, nil, nil)
				c.StateOf(g.StateKey())
				dir := ""
				if disk {
					dir = c.Scratch()
				}
				engine, done := impl.Engine(dir)
				defer done()
				index, err := impl.BuildIndex(engine, nil, nil, seq, len(seq)/2)
				if err != nil {
					return err
				}
				defer index.Close()
				c.Trans(len(seq))
				for _, qs := range queries {
					for i, q := range qs {
						c.Trans(1)
						if err := impl.CompareQuery(g, index, q, i%7 == 3); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}

		mixed, links := alphabet(true, true), alphabet(true, false)
		for n := 0; n <= 2; n++ {
			sequences(mixed, n, func(s []ref.Stmt) { run(s, false, short, full, long) })
			sequences(mixed, n, func(s []ref.Stmt) { run(s, true, short, long) })
		}
		// sizes
		for n := 1; n <= kit.Pick(c, 40, 600); n++ {
			var star, chain []ref.Stmt
			for i := 0; i < n; i++ {
				l, m := "n"+strconv.Itoa(i), "n"+strconv.Itoa(i+1)
				star = append(star, ref.Stmt{S: "a", P: "p", O: l}, ref.Stmt{S: l, P: "q", O: "b"}, ref.Stmt{S: l, P: "d", O: "text " + l, Lit: true, Lang: []string{"", "en", "de"}[i%3]})
				chain = append(chain, ref.Stmt{S: l, P: "p", O: m}, ref.Stmt{S: l, P: "q", O: "b"}, ref.Stmt{S: m, P: "d", O: l, Lit: true})
			}
			qs := [][]ref.Step{{{P: "q", O: "b"}}, {{P: "p", O: "n0"}, {P: "p"}, {P: "d"}}, {{P: "q", O: "b"}, {P: "p"}, {P: "d"}}, {{P: "q", O: "b"}, {P: "d"}},
				{{P: "q", O: "b"}, {P: "p"}, {End: true, P: "q", O: "b"}, {P: "p"}, {End: true, P: "q", O: "b"}, {P: "d"}}}
			run(star, false, qs)
			run(chain, false, qs)
			if n%8 == 1 {
				run(star, true, qs)
				run(chain, true, qs)
			}
		}
		sequences(mixed, 3, func(s []ref.Stmt) { run(s, false, full) })
		sequences(links, 3, func(s []ref.Stmt) { run(s, true, long, full[:60]) })
		sequences(links, 4, func(s []ref.Stmt) { run(s, false, long, full) })
		if c.Deep() {
			sequences(mixed, 3, func(s []ref.Stmt) { run(s, true, full) })
			sequences(mixed, 4, func(s []ref.Stmt) { run(s, false, full) })
		}
	})
}

// C03: inverse properties.
package main

import (
	"fmt"

	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

func main() {
	kit.Main(kit.Spec{
		Property: "C03", Level: "model_checking",
		Rule:        "every combination of a list of sameAs declarations and a list of inverse declarations (every direction, repetition, through aliases) with every sequence of links up to the depth; all one- and two-step queries in every predicate, with provenance and inferred flags, compared to a brute-force graph; both backends",
		Assumptions: []string{"each property has at most one inverse (documented)", "declarations precede links (the loader guarantees it)", "a property identified with its own inverse is outside the property"},
	}, func(c *kit.Ctx) {
		sames := [][][2]string{nil, {{"p", "P"}}, {{"P", "p"}}, {{"q", "Q"}}, {{"P", "p"}, {"Q", "q"}}, {{"a", "A"}}, {{"A", "a"}, {"p", "P"}}, {{"r", "P"}, {"p", "r"}}}
		invs := [][][2]string{{{"p", "q"}}, {{"q", "p"}}, {{"P", "q"}}, {{"q", "P"}}, {{"p", "q"}, {"q", "p"}}, {{"p", "q"}, {"p", "q"}}, {{"p", "p"}}, {{"P", "Q"}}, {{"p", "q"}, {"P", "Q"}}, nil}
		preds := []string{"p", "q", "P", "Q", "r"}
		nodes := []string{"a", "b"}
		queries := impl.Queries(preds, []string{"a", "b", "A"}, 1)
		// two links: fewer extensions (everything is still asked in every predicate)
		short := queries
		if !c.Deep() {
			short = nil
			for _, q := range queries {
				if q[0].O != "A" && (len(q) == 1 || !q[1].End && q[0].P != "Q") {
					short = append(short, q)
				}
			}
		}

		valid := func(same, inv [][2]string) bool {
			cl := ref.NewClasses()
			for _, s := range same {
				cl.Union(s[0], s[1])
			}
			m := map[string]string{}
			for _, i := range inv {
				if i[0] == i[1] {
					continue
				}
				l, r := cl.Min(i[0]), cl.Min(i[1])
				if l == r {
					return false
				}
				if (m[l] != "" && m[l] != r) || (m[r] != "" && m[r] != l) {
					return false
				}
				m[l], m[r] = r, l
			}
			return true
		}
		run := func(same, inv [][2]string, seq []ref.Stmt, disk bool, qs [][]ref.Step) {
			c.Case(func() string { return fmt.Sprintf("disk=%v same=%v inverse=%v %v", disk, same, inv, seq) }, func() error {
				g := ref.Build(seq, same, inv)
				c.StateOf(fmt.Sprint(same, inv, g.StateKey()))
				dir := ""
				if disk {
					dir = c.Scratch()
				}
				engine, done := impl.Engine(dir)
				defer done()
				index, err := impl.BuildIndex(engine, same, inv, seq, 1)
				if err != nil {
					return err
				}
				defer index.Close()
				c.Trans(len(seq) + len(same) + len(inv) + len(qs))
				for i, q := range qs {
					if err := impl.CompareQuery(g, index, q, i%5 == 0); err != nil {
						return err
					}
				}
				return nil
			})
		}
		var links []ref.Stmt
		for _, p := range preds {
			for _, s := range nodes {
				for _, o := range append(nodes, "A") {
					links = append(links, ref.Stmt{S: s, P: p, O: o})
				}
			}
		}
		links = append(links, ref.Stmt{S: "a", P: "p", O: "text", Lit: true}, ref.Stmt{S: "b", P: "q", O: "a", Lit: true, Lang: "en"})
		var rec func(seq []ref.Stmt, n int, f func([]ref.Stmt))
		rec = func(seq []ref.Stmt, n int, f func([]ref.Stmt)) {
			if n == 0 {
				f(append([]ref.Stmt{}, seq...))
				return
			}
			for _, l := range links {
				if l.Lit && len(seq) > 0 && seq[len(seq)-1] == l {
					continue
				}
				rec(append(seq, l), n-1, f)
			}
		}
		uniq := func(seq []ref.Stmt) bool {
			for i, a := range seq {
				for _, b := range seq[:i] {
					if a.Lit && a == b {
						return false
					}
				}
			}
			return true
		}
		for _, same := range sames {
			for _, inv := range invs {
				if !valid(same, inv) {
					continue
				}
				for n := 1; n <= 2; n++ {
					rec(nil, n, func(s []ref.Stmt) {
						if uniq(s) {
							if n == 1 {
								run(same, inv, s, false, queries)
							} else {
								run(same, inv, s, false, short)
							}
						}
					})
				}
				rec(nil, 1, func(s []ref.Stmt) { run(same, inv, s, true, queries) })
			}
		}
		// depth 3 on the plain configurations
		simple := links[:0:0]
		for _, l := range links {
			if !l.Lit && l.O != "A" && (l.P == "p" || l.P == "q" || l.P == "P") {
				simple = append(simple, l)
			}
		}
		links = simple
		qs := impl.Queries([]string{"p", "q"}, []string{"a", "b"}, 1)
		for _, same := range [][][2]string{nil, {{"P", "p"}}, {{"p", "P"}}} {
			for _, inv := range [][][2]string{{{"p", "q"}}, {{"q", "p"}}} {
				rec(nil, 3, func(s []ref.Stmt) { run(same, inv, s, false, qs) })
				rec(nil, 2, func(s []ref.Stmt) { run(same, inv, s, true, qs) })
				if c.Deep() {
					rec(nil, 4, func(s []ref.Stmt) { run(same, inv, s, false, qs) })
					rec(nil, 3, func(s []ref.Stmt) { run(same, inv, s, true, qs) })
				}
			}
		}
	})
}

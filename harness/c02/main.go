// C02: identity classes of the label map and of the index.
package main

import (
	"fmt"
	"os"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	timpl "github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

type op struct {
	kind string // add, same, compact, next
	a, b string
}

func (o op) String() string { return o.kind + "(" + o.a + "," + o.b + ")" }

func newMap(c *kit.Ctx, disk bool) (*imap.IMap, func(), error) {
	m := &imap.IMap{}
	if !disk {
		return m, func() { m.Close() }, m.Reset(&imap.MemoryMap{})
	}
	p, err := os.MkdirTemp(c.Scratch(), "m")
	if err != nil {
		return nil, nil, err
	}
	return m, func() { m.Close(); os.RemoveAll(p) }, m.Reset(imap.DiskMap{Path: p})
}

// validate compares every observation of the map with the reference.
func validate(m *imap.IMap, cl *ref.Classes, known map[string]bool, labels []string, nexts map[timpl.ID]bool) error {
	ids := map[string]timpl.ID{}
	lits := map[timpl.ID]string{}
	reps := map[string]string{}
	for _, l := range labels {
		id, err := m.Forward(timpl.Label(l))
		if err != nil {
			return err
		}
		tid, ok, err := m.Get(timpl.Label(l))
		if err != nil {
			return err
		}
		if ok != known[l] {
			return fmt.Errorf("Get(%s) known=%v, want %v", l, ok, known[l])
		}
		if !known[l] {
			if id.Valid() {
				return fmt.Errorf("Forward(%s) gives %v for a name never added", l, id)
			}
			continue
		}
		if !id.Valid() {
			return fmt.Errorf("Forward(%s) gives no identity", l)
		}
		if tid.Canonical != id {
			return fmt.Errorf("Get(%s)=%v but Forward %v", l, tid, id)
		}
		ids[l] = id
		if o, dup := lits[tid.Literal]; dup {
			return fmt.Errorf("names %s and %s share the literal id %v", o, l, tid.Literal)
		}
		lits[tid.Literal] = l
		if nexts[tid.Literal] || nexts[tid.Canonical] {
			return fmt.Errorf("id %v of %s was handed out before", tid, l)
		}
		back, err := m.Reverse(tid.Literal)
		if err != nil {
			return err
		}
		if string(back) != l {
			return fmt.Errorf("literal spelling of %s is lost: %q", l, back)
		}
		rep, err := m.Reverse(id)
		if err != nil {
			return err
		}
		if !known[string(rep)] || !cl.Same(string(rep), l) {
			return fmt.Errorf("canonical name of %s is %q, which is not identical to it", l, rep)
		}
		reps[l] = string(rep)
	}
	for a, x := range ids {
		for b, y := range ids {
			if (x == y) != cl.Same(a, b) {
				return fmt.Errorf("%s and %s: same identity %v, declared %v", a, b, x == y, cl.Same(a, b))
			}
			if x == y && reps[a] != reps[b] {
				return fmt.Errorf("%s and %s: canonical names %q and %q", a, b, reps[a], reps[b])
			}
		}
	}
	st := imap.MakeMemory[timpl.Label, timpl.Label](0)
	if err := m.IdentityMap(&st); err != nil {
		return err
	}
	got := map[string]string{}
	st.Iterate(func(k, v timpl.Label) error { got[string(k)] = string(v); return nil })
	for l, r := range reps {
		if l != r {
			if got[l] != r {
				return fmt.Errorf("alias table maps %s to %q, want %q", l, got[l], r)
			}
			delete(got, l)
		}
	}
	if len(got) > 0 {
		return fmt.Errorf("alias table has additional entries %v", got)
	}
	return nil
}

func apply(m *imap.IMap, cl *ref.Classes, known map[string]bool, nexts map[timpl.ID]bool, o op) error {
	switch o.kind {
	case "add":
		before := known[o.a]
		tid, old, err := m.AddNew(timpl.Label(o.a))
		if err != nil {
			return err
		}
		if old != before {
			return fmt.Errorf("%v: existed=%v, want %v", o, old, before)
		}
		known[o.a] = true
		again, err := m.Add(timpl.Label(o.a))
		if err != nil {
			return err
		}
		if again != tid {
			return fmt.Errorf("%v: adding again gives %v, not %v", o, again, tid)
		}
	case "same":
		id, err := m.MarkIdentical(timpl.Label(o.a), timpl.Label(o.b))
		if err != nil {
			return err
		}
		known[o.a], known[o.b] = true, true
		cl.Union(o.a, o.b)
		fw, err := m.Forward(timpl.Label(o.a))
		if err != nil {
			return err
		}
		if fw != id {
			return fmt.Errorf("%v returns %v but the name now has %v", o, id, fw)
		}
	case "compact":
		return m.Compact()
	case "next":
		id := m.Next()
		if !id.Valid() || nexts[id] {
			return fmt.Errorf("%v: id %v invalid or used twice", o, id)
		}
		nexts[id] = true
	}
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C02", Level: "model_checking",
		Rule:        "every sequence of add/identify/fresh-id/compact operations over 4 names up to the depth (up to renaming), all observations compared with a union-find model after every step, on both backends; every order of merges of larger classes of several shapes; every sequence of 0-3 declarations followed by statements, queried through every alias",
		Assumptions: []string{"which member of a class is canonical is not specified, only that it is a member and unique"},
	}, func(c *kit.Ctx) {
		labels := []string{"a", "b", "c", "d"}
		idx := map[string]int{"a": 0, "b": 1, "c": 2, "d": 3}
		var alpha []op
		for _, a := range labels {
			alpha = append(alpha, op{"add", a, ""})
			for _, b := range labels {
				alpha = append(alpha, op{"same", a, b})
			}
		}
		run := func(seq []op, labels []string, disk bool, everyStep bool) {
			c.Case(func() string { return fmt.Sprintf("disk=%v %v", disk, seq) }, func() error {
				m, done, err := newMap(c, disk)
				if done != nil {
					defer done()
				}
				if err != nil {
					return err
				}
				cl, known, nexts := ref.NewClasses(), map[string]bool{}, map[timpl.ID]bool{}
				for i, o := range seq {
					c.Trans(1)
					if err := apply(m, cl, known, nexts, o); err != nil {
						return fmt.Errorf("step %d %v: %w", i, o, err)
					}
					if everyStep || i == len(seq)-1 {
						if err := validate(m, cl, known, labels, nexts); err != nil {
							return fmt.Errorf("after step %d %v: %w", i, o, err)
						}
					}
				}
				key := ""
				for _, l := range labels {
					key += fmt.Sprint(known[l], cl.Min(l), ";")
				}
				c.StateOf(key)
				// nothing changes by finalising
				if err := m.Finalize(); err != nil {
					return err
				}
				if err := validate(m, cl, known, labels, nexts); err != nil {
					return fmt.Errorf("after finalising: %w", err)
				}
				return nil
			})
		}
		var rec func(seq []op, used, n int, alpha []op, f func([]op))
		rec = func(seq []op, used, n int, alpha []op, f func([]op)) {
			if len(seq) == n {
				f(append([]op{}, seq...))
				return
			}
			for _, o := range alpha {
				u := used
				if o.a != "" {
					if i := idx[o.a]; i > u {
						continue
					} else if i == u {
						u++
					}
				}
				if o.b != "" {
					if i := idx[o.b]; i > u {
						continue
					} else if i == u {
						u++
					}
				}
				rec(append(seq, o), u, n, alpha, f)
			}
		}
		with := append(append([]op{}, alpha...), op{kind: "compact"}, op{kind: "next"})
		for n := 0; n <= 3; n++ {
			rec(nil, 0, n, with, func(s []op) { run(s, labels, false, true) })
		}
		rec(nil, 0, 4, with, func(s []op) { run(s, labels, false, false) })
		for n := 1; n <= 2; n++ {
			rec(nil, 0, n, with, func(s []op) { run(s, labels, true, true) })
		}
		rec(nil, 0, 3, alpha, func(s []op) { run(s, labels, true, false) })

		// larger classes: chains, stars, pairs of classes merged, in several orders and directions
		for n := 2; n <= kit.Pick(c, 24, 80); n++ {
			var ls []string
			for i := 0; i < n; i++ {
				ls = append(ls, fmt.Sprintf("n%02d", i))
			}
			for variant := 0; variant < 8; variant++ {
				var seq []op
				if variant&1 != 0 {
					for _, l := range ls {
						seq = append(seq, op{"add", l, ""})
					}
				}
				mk := func(a, b string) op {
					if variant&2 != 0 {
						a, b = b, a
					}
					return op{"same", a, b}
				}
				if variant&4 != 0 { // two classes, then merge, then merge again
					for i := 2; i < n; i++ {
						seq = append(seq, mk(ls[i%2], ls[i]))
					}
					seq = append(seq, mk(ls[0], ls[1]), mk(ls[n-1], ls[0]))
				} else {
					for i := 1; i < n; i++ {
						seq = append(seq, mk(ls[i-1], ls[i]))
					}
				}
				run(seq, ls, false, false)
				if n%6 == 0 {
					run(seq, ls, true, false)
				}
			}
		}

		// the index: declarations, then statements, then queries through every name
		decls := [][2]string{}
		names := []string{"a", "b", "c", "p", "q", "unused"}
		for _, x := range names[:3] {
			for _, y := range names[:3] {
				if x != y {
					decls = append(decls, [2]string{x, y})
				}
			}
		}
		decls = append(decls, [2]string{"p", "q"}, [2]string{"q", "p"}, [2]string{"unused", "a"}, [2]string{"b", "unused"})
		stmtsets := [][]ref.Stmt{
			{{S: "a", P: "p", O: "b"}, {S: "c", P: "q", O: "b"}, {S: "b", P: "p", O: "t", Lit: true}},
			{{S: "c", P: "q", O: "a"}, {S: "b", P: "q", O: "a"}, {S: "b", P: "p", O: "c"}, {S: "c", P: "q", O: "t", Lit: true, Lang: "en"}},
		}
		queries := impl.Queries([]string{"p", "q"}, []string{"a", "b", "c", "unused"}, 1)
		index := func(same [][2]string, stmts []ref.Stmt, disk bool) {
			c.Case(func() string { return fmt.Sprintf("index disk=%v same=%v %v", disk, same, stmts) }, func() error {
				g := ref.Build(stmts, same, nil)
				dir := ""
				if disk {
					dir = c.Scratch()
				}
				engine, done := impl.Engine(dir)
				defer done()
				index, err := impl.BuildIndex(engine, same, nil, stmts, -1)
				if err != nil {
					return err
				}
				defer index.Close()
				c.Trans(len(same) + len(stmts))
				c.StateOf(g.StateKey())
				for _, q := range queries {
					c.Trans(1)
					if err := impl.CompareQuery(g, index, q, false); err != nil {
						return err
					}
				}
				return aliasTable(index, g, same, stmts)
			})
		}
		depth := kit.Pick(c, 3, 4)
		var drec func(same [][2]string, d int)
		drec = func(same [][2]string, d int) {
			for _, st := range stmtsets {
				index(append([][2]string{}, same...), st, false)
				if len(same) <= 2 {
					index(append([][2]string{}, same...), st, true)
				}
			}
			if d == 0 {
				return
			}
			for _, x := range decls {
				drec(append(same, x), d-1)
			}
		}
		drec(nil, depth)

		if c.Deep() {
			rec(nil, 0, 5, alpha, func(s []op) { run(s, labels, false, false) })
			rec(nil, 0, 4, alpha, func(s []op) { run(s, labels, true, false) })
		}
	})
}

// aliasTable checks the table published by the index.
func aliasTable(index *igraph.Index, g *ref.Graph, same [][2]string, stmts []ref.Stmt) error {
	st := imap.MakeMemory[timpl.Label, timpl.Label](0)
	if err := index.IdentityMap(&st); err != nil {
		return err
	}
	known := map[string]bool{}
	for _, s := range same {
		known[s[0]], known[s[1]] = true, true
	}
	for _, s := range stmts {
		known[s.S], known[s.P] = true, true
		if !s.Lit {
			known[s.O] = true
		}
	}
	table := map[string]string{}
	st.Iterate(func(k, v timpl.Label) error { table[string(k)] = string(v); return nil })
	canon := map[string]string{}
	for l := range known {
		rep, ok := table[l]
		if !ok {
			rep = l
		} else if rep == l {
			return fmt.Errorf("alias table lists %s as an alias of itself", l)
		}
		if !known[rep] || !g.Same(rep, l) {
			return fmt.Errorf("alias table maps %s to %s, which is not identical to it", l, rep)
		}
		if old, ok := canon[g.Min(l)]; ok && old != rep {
			return fmt.Errorf("class of %s has two canonical names %s and %s", l, old, rep)
		}
		canon[g.Min(l)] = rep
		delete(table, l)
	}
	if len(table) > 0 {
		return fmt.Errorf("alias table has additional entries %v", table)
	}
	// the canonical name is the one queries report
	for l := range known {
		set, err := index.PathsStarting("p", impl.Label(l))
		if err != nil {
			return err
		}
		it := set.Paths()
		for it.Next() {
			p := it.Datum()
			n := string(p.Nodes[0])
			if n != canon[g.Min(n)] {
				return fmt.Errorf("query reports %s, but the canonical name is %s", n, canon[g.Min(n)])
			}
			for _, t := range p.Triples {
				if string(t.SSubject) != canon[g.Min(string(t.Subject))] && !t.Inferred() {
					return fmt.Errorf("provenance %s has canonical form %s, want %s", t.Subject, t.SSubject, canon[g.Min(string(t.Subject))])
				}
			}
		}
		it.Close()
		if it.Err() != nil {
			return it.Err()
		}
	}
	return nil
}

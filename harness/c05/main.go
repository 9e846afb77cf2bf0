// C05: the on-disk storages give the same result as the in-memory ones.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	timpl "github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

type pair struct {
	st map[string]storages.BundleStorage
}

func open(eng storages.BundleEngine, bundles map[string]*pathbuilder.Bundle, names []string) (pair, error) {
	p := pair{map[string]storages.BundleStorage{}}
	for _, n := range names {
		s, err := eng.NewStorage(bundles[n])
		if err != nil {
			return p, err
		}
		p.st[n] = s
	}
	for _, r := range [][2]string{{"ba", "k1"}, {"ba", "k2"}, {"k1", "g1"}} {
		if err := p.st[r[0]].RegisterChildStorage(r[1], p.st[r[1]]); err != nil {
			return p, err
		}
	}
	return p, nil
}

// op is an operation on one storage; guard tells if the protocol allows it after the operations before.
type op struct {
	name  string
	needs []string // operations that have to come first
	once  bool
	run   func(p pair) error
}

func errName(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, storages.ErrNoEntity):
		return "no entity"
	default:
		return "error"
	}
}

func (p pair) observe(names []string) string {
	var b strings.Builder
	for _, n := range names {
		s := p.st[n]
		count, err := s.Count()
		fmt.Fprintf(&b, "%s: count %d %s\n", n, count, errName(err))
		idx := []int{-1, 0}
		if n != "ba" {
			idx = append(idx, 1)
		}
		if n == "g1" {
			idx = append(idx, 2)
		}
		for _, i := range idx {
			var ks []string
			it := s.Get(i)
			for it.Next() {
				d := it.Datum()
				ks = append(ks, fmt.Sprintf("(%q in %q)", d.Label, d.Parent))
			}
			sort.Strings(ks)
			fmt.Fprintf(&b, "  get(%d) %v %v\n", i, ks, errName(it.Err()))
			it.Close()
		}
		for _, u := range []string{"a", "b", "x", "y", "z", "", "none"} {
			e, err := s.Load(timpl.Label(u))
			fmt.Fprintf(&b, "  load %q: %s", u, errName(err))
			if err == nil {
				b.WriteString(" " + impl.Dump(&e, true))
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

func main() {
	kit.Main(kit.Spec{
		Property: "C05", Level: "model_checking",
		Shards:      24,
		Rule:        "(1) every sequence of storage calls up to the depth that the interface allows (entities, values, children, grandchildren, missing entities), after each of which everything both storages answer is compared; (2) every dataset of the bounded universes for the pathbuilder family loaded with and without a cache directory, compared with each other (with triple identifiers) and with the brute-force extraction",
		Assumptions: []string{"each child resource hangs from one parent in one way"},
	}, func(c *kit.Ctx) {
		calls(c)
		loads(c)
	})
}

func tr(i uint32, role igraph.Role) []igraph.Triple {
	var id timpl.ID
	for ; i > 0; i-- {
		id.Inc()
	}
	t := igraph.Triple{Subject: "s\x00\xff", Predicate: "p", Object: "o", SSubject: "S", SPredicate: "P", SObject: "O", Datum: "d\n", Language: "en", ID: id, Role: role}
	return []igraph.Triple{t}
}

func calls(c *kit.Ctx) {
	pb := impl.Pathbuilder(ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{"A"}, Fields: []ref.Field{{ID: "f", Path: []string{"A"}, Datatype: "w"}},
		Children: []ref.Bundle{
			{ID: "k1", Path: []string{"A", "p", "B"}, Fields: []ref.Field{{ID: "f", Path: []string{"A", "p", "B"}, Datatype: "w"}}, Children: []ref.Bundle{{ID: "g1", Path: []string{"A", "p", "B", "q", "C"}}}},
			{ID: "k2", Path: []string{"A", "q", "B"}},
		}}}})
	names := []string{"ba", "k1", "k2", "g1"}
	bundles := map[string]*pathbuilder.Bundle{}
	var walk func(b *pathbuilder.Bundle)
	walk = func(b *pathbuilder.Bundle) {
		bundles[b.MachineName()] = b
		for _, k := range b.ChildBundles {
			walk(k)
		}
	}
	for _, b := range pb.Bundles() {
		walk(b)
	}
	L := func(ss ...string) (out []timpl.Label) {
		for _, s := range ss {
			out = append(out, timpl.Label(s))
		}
		return
	}
	add := func(st, uri string, role igraph.Role, path ...string) op {
		return op{name: st + ".add(" + uri + ")", once: true, run: func(p pair) error { return p.st[st].Add(timpl.Label(uri), L(path...), tr(uint32(len(path)), role)) }}
	}
	val := func(st, uri, field, text, lang string, path ...string) op {
		return op{name: fmt.Sprintf("%s.value(%s,%s,%q@%s)", st, uri, field, text, lang), run: func(p pair) error {
			return p.st[st].AddFieldValue(timpl.Label(uri), field, timpl.Datum(text), timpl.Language(lang), L(path...), tr(7, igraph.Data))
		}}
	}
	kid := func(st, parent, bundle, uri string) op {
		return op{name: fmt.Sprintf("%s.child(%s,%s,%s)", st, parent, bundle, uri), once: true, needs: []string{bundle + ".add(" + uri + ")"}, run: func(p pair) error {
			return p.st[st].AddChild(timpl.Label(parent), bundle, timpl.Label(uri))
		}}
	}
	ops := []op{
		add("ba", "a", igraph.Regular, "a"), add("ba", "b", igraph.Inverse, "b"), add("k1", "x", igraph.Regular, "a", "x"), add("k1", "y", igraph.Regular, "b", "y"),
		add("k2", "x", igraph.Inverse, "b", "x"), add("g1", "z", igraph.Regular, "a", "x", "z"),
		val("ba", "a", "f", "v", "", "a"), val("ba", "a", "f", "", "en", "a"), val("ba", "a", "h", "\xff\x00", "", "a", "b"), val("k1", "x", "f", "w", "de", "a", "x"), val("ba", "none", "f", "v", "", "a"),
		kid("ba", "a", "k1", "x"), kid("ba", "a", "k1", "y"), kid("ba", "b", "k2", "x"), kid("k1", "x", "g1", "z"), kid("ba", "none", "k1", "x"),
	}
	depth := kit.Pick(c, 4, 5)
	var rec func(seq []op)
	rec = func(seq []op) {
		if len(seq) > 0 {
			s := append([]op{}, seq...)
			desc := func() string {
				var ns []string
				for _, o := range s {
					ns = append(ns, o.name)
				}
				return strings.Join(ns, "; ")
			}
			c.Case(desc, func() error {
				dir, done := impl.MkTemp(c.Scratch())
				defer done()
				mem, err := open(storages.NewBundleEngine(""), bundles, names)
				if err != nil {
					return err
				}
				disk, err := open(storages.NewBundleEngine(dir), bundles, names)
				defer func() {
					for _, s := range disk.st {
						s.Close()
					}
				}()
				if err != nil {
					return err
				}
				for _, o := range s {
					m, d := errName(o.run(mem)), errName(o.run(disk))
					if m != d {
						return fmt.Errorf("%s: memory %s, disk %s", o.name, m, d)
					}
				}
				for _, when := range []string{"before", "after"} {
					m, d := mem.observe(names), disk.observe(names)
					if m != d {
						return fmt.Errorf("%s Finalize: memory:\n%s\ndisk:\n%s", when, m, d)
					}
					if when == "before" {
						c.StateOf(m)
						for _, n := range names {
							if e := mem.st[n].Finalize(); e != nil {
								return e
							}
							if e := disk.st[n].Finalize(); e != nil {
								return e
							}
						}
					}
				}
				c.Trans(len(s))
				return nil
			})
		}
		if len(seq) == depth {
			return
		}
		has := func(name string) bool {
			for _, o := range seq {
				if o.name == name {
					return true
				}
			}
			return false
		}
	next:
		for _, o := range ops {
			if o.once && has(o.name) {
				continue
			}
			for _, n := range o.needs {
				if !has(n) {
					continue next
				}
			}
			rec(append(seq, o))
		}
	}
	rec(nil)
}

func loads(c *kit.Ctx) {
	one := func(w ref.World, pb *pathbuilder.Pathbuilder, stmts []ref.Stmt, compact int, mask bool) {
		c.Case(func() string {
			return fmt.Sprintf("%s compact=%d mask=%v: %s", w.PB.Name, compact, mask, impl.Lines(stmts))
		}, func() error {
			g := w.Graph(stmts)
			want, forest := ref.Extract(w.PB, g)
			if !forest {
				return kit.Skip
			}
			c.StateOf(w.PB.Name + want.Key(true))
			c.Trans(2 * len(stmts))
			dir, done := impl.MkTemp(c.Scratch())
			defer done()
			ld := impl.Load{PB: pb, Stmts: stmts, Same: w.Same, Inverse: w.Inverse, Compact: compact, Mask: mask}
			mem, err := ld.Check(w.PB, g, want, true)
			if err != nil {
				return fmt.Errorf("memory: %w", err)
			}
			ld.Dir = dir
			disk, err := ld.Check(w.PB, g, want, true)
			if err != nil {
				return fmt.Errorf("disk: %w", err)
			}
			if m, d := impl.DumpAll(mem.Bundles), impl.DumpAll(disk.Bundles); m != d {
				return fmt.Errorf("memory:\n%s\ndisk:\n%s", m, d)
			}
			if m, d := fmt.Sprint(mem.Identity), fmt.Sprint(disk.Identity); m != d {
				return fmt.Errorf("aliases: memory %s, disk %s", m, d)
			}
			return nil
		})
	}
	for _, w := range ref.Worlds() {
		pb := impl.Pathbuilder(w.PB)
		n := len(w.Universe)
		for bits := 0; bits < 1<<n; bits++ {
			// all subsets with few statements absent; all of them in the thorough tier
			missing := 0
			for i := 0; i < n; i++ {
				if bits>>i&1 == 0 {
					missing++
				}
			}
			if !c.Deep() && missing > 3 && missing < n-1 {
				continue
			}
			one(w, pb, w.Subset(bits), 0, false)
		}
		one(w, pb, w.Subset(1<<n-1), 1, false)
		one(w, pb, w.Subset(1<<n-1), 3, true)
	}
}

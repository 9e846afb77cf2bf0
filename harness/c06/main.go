// Command c06 checks the extraction and the exporters under all schedules.
package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/fault"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/zverif/vsched"
)

const k = "http://x/"

// scenario is a pathbuilder with data
type scenario struct {
	name  string
	pb    ref.PB
	stmts []ref.Stmt
	small bool // without faults
	big   bool // too large for all schedules
}

func (s scenario) prepare(c *kit.Ctx) (*ready, error) {
	r := &ready{scenario: s}
	r.g = ref.Build(s.stmts, nil, nil)
	var forest bool
	r.want, forest = ref.Extract(s.pb, r.g)
	if !forest {
		return nil, errors.New("shared children")
	}
	var err error
	if r.index, err = sparkl.MakeIndex(&impl.Tokens{Stmts: s.stmts}, sparkl.Predicates{}, sparkl.NewEngine(""), sparkl.IndexOptions{}, nil); err != nil {
		return r, err
	}
	m := &fault.Monitor{Plain: func(kind, name string) error {
		if r.inj == nil {
			return nil
		}
		return r.inj.op(kind, name)
	}}
	r.faulty, err = sparkl.MakeIndex(&impl.Tokens{Stmts: s.stmts}, sparkl.Predicates{}, m.Engine(sparkl.NewEngine("")), sparkl.IndexOptions{}, nil)
	return r, err
}

type ready struct {
	scenario
	g     *ref.Graph
	want  ref.Result
	index *igraph.Index

	faulty *igraph.Index // the same, where every operation may fail
	inj    *injector
}

// recorder is an exporter.
// What is about one bundle is not synchronised: it must not happen at the same time.
type recorder struct {
	bundles map[string]*recorded
	closed  int
}

type recorded struct {
	events   string
	count    int64
	entities []wisski.Entity
}

func (r *recorder) Begin(b *pathbuilder.Bundle, count int64) error {
	x := r.bundles[b.MachineName()]
	x.events += "B"
	x.count = count
	return nil
}

func (r *recorder) Add(b *pathbuilder.Bundle, e *wisski.Entity) error {
	x := r.bundles[b.MachineName()]
	x.events += "A"
	x.entities = append(x.entities, *e)
	return nil
}

func (r *recorder) End(b *pathbuilder.Bundle) error {
	r.bundles[b.MachineName()].events += "E"
	return nil
}

func (r *recorder) Close() error {
	r.closed++
	for _, x := range r.bundles {
		x.events += "C"
	}
	return nil
}

// injector lets some operations fail; it does not synchronise anything.
type injector struct {
	at   string // the operations that fail (separated by commas)
	n    int    // the number of the one that fails, -1 for all of them
	hit  bool
	keys [200]string
	ns   [200]int
}

var errFault = errors.New("it failed")

//go:norace
func (i *injector) fails(key string) bool {
	for at := i.at; at != ""; {
		one, rest, _ := strings.Cut(at, ",")
		if one == key {
			return true
		}
		at = rest
	}
	return false
}

//go:norace
func (i *injector) op(kind, name string) error {
	j := 0
	for i.keys[j] != "" && (len(i.keys[j]) != len(kind)+1+len(name) || i.keys[j][:len(kind)] != kind || i.keys[j][len(kind)+1:] != name) {
		j++
	}
	if i.keys[j] == "" {
		i.keys[j] = kind + ":" + name
	}
	n := i.ns[j]
	i.ns[j]++
	if (n == i.n || i.n < 0) && i.fails(i.keys[j]) {
		i.hit = true
		return errFault
	}
	return nil
}

// load runs the extraction under all schedules.
// inject may be nil.
func (r *ready) load(c *kit.Ctx, dir string, opts vsched.Options, at string, n int) error {
	var err error
	var rec *recorder
	var inj *injector
	pb := impl.Pathbuilder(r.pb)
	known := map[string]bool{}
	ident := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := r.index.IdentityMap(&ident); err != nil {
		return err
	}
	res, eErr := vsched.Explore(opts, func() {
		rec = &recorder{bundles: map[string]*recorded{}}
		for _, b := range pb.Bundles() {
			rec.bundles[b.MachineName()] = &recorded{}
		}
		var d string
		done := func() {}
		if dir != "" {
			d, done = impl.MkTemp(dir)
		}
		defer done()
		engine, x := storages.NewBundleEngine(d), exporter.Exporter(rec)
		index := r.index
		inj = &injector{at: at, n: n}
		if at != "" {
			index, r.inj = r.faulty, inj
			m := &fault.Monitor{Plain: inj.op}
			engine, x = m.Bundles(engine), m.Exporter(x)
		}
		err = sparkl.Export(pb, index, engine, x, nil)
	}, func() error {
		if rec.closed > 1 {
			return fmt.Errorf("the exporter was closed %d times", rec.closed)
		}
		for b, x := range rec.bundles {
			if e := strings.TrimRight(strings.Replace(x.events, "A", "", -1), ""); !strings.HasPrefix("BEC", e) && !(at != "" && (e == "C" || e == "BC")) {
				return fmt.Errorf("bundle %s is exported in order %s", b, x.events)
			}
			if i := strings.Index(x.events, "A"); i == 0 || i > 0 && strings.ContainsAny(x.events[:strings.LastIndex(x.events, "A")], "EC") {
				return fmt.Errorf("bundle %s is exported in order %s", b, x.events)
			}
		}
		if at != "" && inj.hit {
			if err == nil {
				return fmt.Errorf("%s failed, but no error was reported", at)
			}
			if !errors.Is(err, errFault) {
				return fmt.Errorf("%s failed, but the error is %v", at, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("an error, but nothing failed: %v", err)
		}
		if rec.closed != 1 {
			return fmt.Errorf("the exporter was closed %d times", rec.closed)
		}
		got := map[string][]wisski.Entity{}
		for b, x := range rec.bundles {
			if !strings.HasSuffix(x.events, "EC") {
				return fmt.Errorf("bundle %s is exported in order %s", b, x.events)
			}
			if x.count != int64(len(x.entities)) {
				return fmt.Errorf("bundle %s: %d entities announced, %d added", b, x.count, len(x.entities))
			}
			got[b] = x.entities
		}
		key := impl.DumpAll(got)
		if known[key] {
			return nil
		}
		res, err := impl.Render(r.pb, r.g, got, nil)
		if err != nil {
			return err
		}
		if w, h := r.want.Key(true), res.Key(true); w != h {
			return fmt.Errorf("expected:\n%s\ngot:\n%s", w, h)
		}
		known[key] = true
		c.StateOf(r.name + key)
		return nil
	})
	c.Trans(res.Steps)
	c.Add("schedules", int64(res.Executions))
	c.Add("programs", 1)
	if eErr != nil {
		return eErr
	}
	c.Nontrivial()
	if !res.Complete && opts.DPOR || res.Delays < opts.Delays {
		c.Add("incomplete", 1)
		c.Trunc("not all schedules of a load were explored")
	}
	return nil
}

// points lists the operations of a load
func (r *ready) points() (out []string, ns map[string]int, err error) {
	inj := &injector{at: "x"}
	r.inj = inj
	m := &fault.Monitor{Plain: inj.op}
	rec := &recorder{bundles: map[string]*recorded{}}
	pb := impl.Pathbuilder(r.pb)
	for _, b := range pb.Bundles() {
		rec.bundles[b.MachineName()] = &recorded{}
	}
	_, eErr := vsched.Explore(vsched.Options{Delays: 0}, func() {
		err = sparkl.Export(pb, r.faulty, m.Bundles(storages.NewBundleEngine("")), m.Exporter(rec), nil)
	}, func() error { return nil })
	if err == nil {
		err = eErr
	}
	ns = map[string]int{}
	for i, key := range inj.keys {
		if key != "" {
			out = append(out, key)
			ns[key] = inj.ns[i]
		}
	}
	return
}

func scenarios() []scenario {
	A, B, C := k+"A", k+"B", k+"C"
	p, q, w, z := k+"p", k+"q", k+"w", k+"z"
	t := func(s, c string) ref.Stmt { return ref.Stmt{S: s, P: ref.Type, O: c} }
	l := func(s, p, o string) ref.Stmt { return ref.Stmt{S: s, P: p, O: o} }
	v := func(s, p, o string) ref.Stmt { return ref.Stmt{S: s, P: p, O: o, Lit: true} }
	a, a2, b, b2, c := k+"a", k+"a2", k+"b", k+"b2", k+"c"
	f := func(id, d string, path ...string) ref.Field { return ref.Field{ID: id, Path: path, Datatype: d} }
	one := ref.Bundle{ID: "ba", Path: []string{A}}
	return []scenario{
		{name: "one bundle", pb: ref.PB{Bundles: []ref.Bundle{one}}, stmts: []ref.Stmt{t(a, A), t(a2, A)}},
		{name: "a field", pb: ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{f("fa", w, A)}}}},
			stmts: []ref.Stmt{t(a, A), t(a2, A), v(a, w, "1"), v(a2, w, "2"), v(a, w, "3")}},
		{name: "two fields", pb: ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{f("fa", w, A), f("fb", z, A)}}}},
			stmts: []ref.Stmt{t(a, A), v(a, w, "1"), v(a, w, "2"), v(a, z, "3"), v(a, z, "4")}},
		{name: "two bundles", pb: ref.PB{Bundles: []ref.Bundle{one, {ID: "bb", Path: []string{B}, Fields: []ref.Field{f("fb", w, B)}}}},
			stmts: []ref.Stmt{t(a, A), t(b, B), v(b, w, "1")}},
		{name: "a child", pb: ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Children: []ref.Bundle{{ID: "bb", Path: []string{A, p, B}, Fields: []ref.Field{f("fb", w, A, p, B)}}}}}},
			stmts: []ref.Stmt{t(a, A), t(b, B), l(a, p, b), v(b, w, "1"), t(b2, B), l(a, p, b2)}},
		{name: "two kinds of children", pb: ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{f("fa", w, A)}, Children: []ref.Bundle{
			{ID: "bb", Path: []string{A, p, B}}, {ID: "bc", Path: []string{A, q, C}}}}}},
			stmts: []ref.Stmt{t(a, A), t(b, B), l(a, p, b), v(a, w, "1"), t(c, C), l(a, q, c)}},
		{name: "a grandchild", pb: ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Children: []ref.Bundle{{ID: "bb", Path: []string{A, p, B}, Children: []ref.Bundle{
			{ID: "bc", Path: []string{A, p, B, q, C}, Fields: []ref.Field{f("fc", w, A, p, B, q, C)}}}}}}}},
			stmts: []ref.Stmt{t(a, A), t(b, B), l(a, p, b), t(c, C), l(b, q, c), v(c, w, "1")}},
	}
}

// small lists small pathbuilders with all of the data that is interesting for them, and all but one statement of it.
func small(c *kit.Ctx) (out []scenario) {
	for i, w := range append(ref.Worlds()[:4], ref.SmallWorlds(c.Deep())...) {
		full := 1<<len(w.Universe) - 1
		n := 0
		for b := -1; b < len(w.Universe) && n < kit.Pick(c, 1, 100); b++ {
			mask := full
			if b >= 0 {
				mask &^= 1 << b
			}
			s := scenario{name: fmt.Sprintf("%s %d/%d", w.PB.Name, i, b), pb: w.PB, stmts: w.Subset(mask), small: true, big: i < 4}
			if _, forest := ref.Extract(s.pb, ref.Build(s.stmts, nil, nil)); !forest {
				continue
			}
			n++
			out = append(out, s)
		}
	}
	return
}

func main() {
	kit.Main(kit.Spec{
		Property: "C06",
		Level:    "model_checking",
		Rule:     "small loads with every combination of fields, children and bundles, without faults and with every operation of the storages and the exporter failing, under all schedules with at most the stated number of delays and (within a time limit) all schedules up to equivalence, every execution with the race detector, compared with the brute-force extraction; the construction of the index and the exporters by themselves in the same way",
		Assumptions: []string{
			"between two synchronisation operations a thread runs alone (sound as long as there is no data race, which the race detector checks in every execution)",
			"the synchronisation inside of leveldb, sqlite and database/sql is not controlled",
		},
		HangAfter: 900 * time.Second,
	}, func(c *kit.Ctx) {
		mapExporter(c)
		sqlExporter(c)
		indexes(c)
		for _, s := range append(scenarios(), small(c)...) {
			r, err := s.prepare(c)
			if err != nil {
				c.Case(func() string { return s.name }, func() error { return err })
				continue
			}
			delays := kit.Pick(c, 3, 4)
			if r.small {
				delays = kit.Pick(c, 1, 2)
			}
			c.Case(func() string { return "load: " + r.name + ": few delays" }, func() error {
				return r.load(c, "", vsched.Options{Delays: delays, Budget: kit.Pick(c, 60*time.Second, 300*time.Second)}, "", 0)
			})
			if r.big && !c.Deep() {
				continue
			}
			c.Case(func() string { return "load: " + r.name + ": all schedules" }, func() error {
				return r.load(c, "", vsched.Options{Delays: -1, DPOR: true, Budget: kit.Pick(c, 30*time.Second, 500*time.Second)}, "", 0)
			})
			if r.small {
				continue
			}
			exported(c, r)
			c.Case(func() string { return "load: " + r.name + ": on disk" }, func() error {
				return r.load(c, c.Scratch(), vsched.Options{Delays: kit.Pick(c, 1, 2), DPOR: true, Budget: kit.Pick(c, 30*time.Second, 300*time.Second)}, "", 0)
			})
			points, ns, err := r.points()
			if err != nil {
				c.Case(func() string { return s.name }, func() error { return err })
				continue
			}
			for _, at := range points {
				for n := 0; n < ns[at]; n++ {
					at, n := at, n
					c.Case(func() string { return fmt.Sprintf("load: %s: %s fails (%d)", r.name, at, n) }, func() error {
						return r.load(c, "", vsched.Options{Delays: kit.Pick(c, 2, 3), Budget: kit.Pick(c, 20*time.Second, 100*time.Second)}, at, n)
					})
				}
			}
			// several failures
			for i, at := range points {
				for _, other := range points[i:] {
					if other != at && !(r.name == "two bundles" || c.Deep()) || other == at && ns[at] < 2 {
						continue
					}
					both := at
					if other != at {
						both += "," + other
					}
					c.Case(func() string { return fmt.Sprintf("load: %s: %s always fail", r.name, both) }, func() error {
						return r.load(c, "", vsched.Options{Delays: kit.Pick(c, 2, 3), Budget: kit.Pick(c, 20*time.Second, 50*time.Second)}, both, -1)
					})
				}
			}
		}
	})
}

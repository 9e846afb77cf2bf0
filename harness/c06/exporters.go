package main

import (
	"database/sql"
	"errors"
	"fmt"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	timpl "github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/fault"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/sqlref"
	"github.com/FAU-CDI/hangover/zverif/vsched"
	"github.com/FAU-CDI/hangover/zverif/vsync"

	_ "github.com/glebarez/go-sqlite"
)

// explore runs an exploration and counts it.
func explore(c *kit.Ctx, opts vsched.Options, body func(), check func() error) error {
	res, err := vsched.Explore(opts, body, check)
	c.Trans(res.Steps)
	c.Add("schedules", int64(res.Executions))
	c.Add("programs", 1)
	if err != nil {
		return err
	}
	c.Nontrivial()
	if !res.Complete && opts.DPOR && opts.Delays < 0 || res.Delays < opts.Delays {
		c.Add("incomplete", 1)
		c.Trunc("not all schedules were explored")
	}
	return nil
}

// feed gives the entities of all bundles to an exporter, the bundles at the same time, the way [sparkl.Export] does.
func feed(x exporter.Exporter, pb *pathbuilder.Pathbuilder, data map[string][]wisski.Entity) error {
	bundles := pb.Bundles()
	errs := make([]error, len(bundles))
	var wg vsync.WaitGroup
	wg.Add(len(bundles))
	for i := range bundles {
		i := i
		vsched.Go(func() {
			defer wg.Done()
			b := bundles[i]
			es := data[b.MachineName()]
			if errs[i] = x.Begin(b, int64(len(es))); errs[i] != nil {
				return
			}
			for j := range es {
				e := es[j]
				if errs[i] = x.Add(b, &e); errs[i] != nil {
					return
				}
			}
			errs[i] = x.End(b)
		})
	}
	wg.Wait()
	return errors.Join(append(errs, x.Close())...)
}

// bundles are three bundles, one with a child, with n entities each
func bundles(n int) (ref.PB, map[string][]wisski.Entity) {
	A, B, C, p, w, z := k+"A", k+"B", k+"C", k+"p", k+"w", k+"z"
	pb := ref.PB{Bundles: []ref.Bundle{
		{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "fa", Path: []string{A}, Datatype: w}},
			Children: []ref.Bundle{{ID: "bc", Path: []string{A, p, C}, Fields: []ref.Field{{ID: "fc", Path: []string{A, p, C}, Datatype: z}}}}},
		{ID: "bb", Path: []string{B}, Fields: []ref.Field{{ID: "fb", Path: []string{B}, Datatype: z}}},
		{ID: "bd", Path: []string{C}},
	}}
	val := func(s string) []wisski.FieldValue {
		return []wisski.FieldValue{{Value: timpl.Datum(s), Path: []timpl.Label{"x"}}, {Value: timpl.Datum(s + "'"), Path: []timpl.Label{"x"}}}
	}
	data := map[string][]wisski.Entity{}
	for i := 0; i < n; i++ {
		a := wisski.Entity{URI: timpl.Label(fmt.Sprintf("%sa%d", k, i)), Fields: map[string][]wisski.FieldValue{"fa": val(fmt.Sprint("A", i))}, Children: map[string][]wisski.Entity{}}
		for j := 0; j < i%3; j++ {
			a.Children["bc"] = append(a.Children["bc"], wisski.Entity{URI: timpl.Label(fmt.Sprintf("%sa%dc%d", k, i, j)), Fields: map[string][]wisski.FieldValue{"fc": val(fmt.Sprint("C", i, j))}})
		}
		data["ba"] = append(data["ba"], a)
		data["bb"] = append(data["bb"], wisski.Entity{URI: timpl.Label(fmt.Sprintf("%sb%d", k, i)), Fields: map[string][]wisski.FieldValue{"fb": val(fmt.Sprint("B", i))}})
		if i > 0 {
			data["bd"] = append(data["bd"], wisski.Entity{URI: timpl.Label(fmt.Sprintf("%sd%d", k, i))})
		}
	}
	return pb, data
}

func mapExporter(c *kit.Ctx) {
	for n := 0; n <= kit.Pick(c, 2, 3); n++ {
		rpb, data := bundles(n)
		pb := impl.Pathbuilder(rpb)
		c.Case(func() string { return fmt.Sprintf("map exporter: three bundles with up to %d entities", n) }, func() error {
			var err error
			var m *exporter.Map
			want := impl.DumpAll(data)
			opts := vsched.Options{Delays: -1, DPOR: true, Budget: kit.Pick(c, 10*time.Second, 200*time.Second)}
			if n > 1 {
				opts = vsched.Options{Delays: kit.Pick(c, 3, 5), Budget: kit.Pick(c, 30*time.Second, 200*time.Second)}
			}
			return explore(c, opts, func() {
				m = &exporter.Map{Data: map[string][]wisski.Entity{}}
				err = feed(m, pb, data)
			}, func() error {
				if err != nil {
					return err
				}
				got := map[string][]wisski.Entity{}
				for b, es := range m.Data {
					if len(es) > 0 || len(data[b]) > 0 {
						got[b] = es
					}
				}
				if g := impl.DumpAll(got); g != want {
					return fmt.Errorf("exported\n%s\nexpected\n%s", g, want)
				}
				return nil
			})
		})
	}
}

func sqlExporter(c *kit.Ctx) {
	for n := 1; n <= kit.Pick(c, 2, 4); n++ {
		for _, batch := range []int{1, 2, 3} {
			for _, tables := range []bool{false, true} {
				n, batch, tables := n, batch, tables
				rpb, data := bundles(n)
				pb := impl.Pathbuilder(rpb)
				c.Case(func() string {
					return fmt.Sprintf("sql exporter: three bundles with up to %d entities, batches of %d, field tables %v", n, batch, tables)
				}, func() error {
					cfg := sqlref.Config{Batch: batch, Vars: 6, Sep: ",", Tables: tables}
					want, _ := sqlref.Expect(pb, data, cfg)
					var err error
					var conn *sql.DB
					return explore(c, vsched.Options{Delays: kit.Pick(c, 1, 2), Budget: kit.Pick(c, 20*time.Second, 100*time.Second)}, func() {
						var oErr error
						if conn, oErr = sql.Open("sqlite", ":memory:"); oErr != nil {
							panic(oErr)
						}
						conn.SetMaxOpenConns(1)
						err = feed(&exporter.SQL{SkipClose: true, DB: conn, BatchSize: cfg.Batch, MaxQueryVar: cfg.Vars, Separator: cfg.Sep, MakeFieldTables: cfg.Tables}, pb, data)
					}, func() error {
						defer conn.Close()
						if err != nil {
							return err
						}
						got, err := sqlref.Content(conn, want)
						if err != nil {
							return err
						}
						return sqlref.Same(got, want)
					})
				})
			}
		}
	}
}

// exported runs loads with the real exporters.
func exported(c *kit.Ctx, r *ready) {
	pb := impl.Pathbuilder(r.pb)
	key := func(data map[string][]wisski.Entity) (string, error) {
		res, err := impl.Render(r.pb, r.g, data, nil)
		return res.Key(true), err
	}
	c.Case(func() string { return "load: " + r.name + ": into a map" }, func() error {
		var err error
		var data map[string][]wisski.Entity
		return explore(c, vsched.Options{Delays: kit.Pick(c, 2, 3), Budget: kit.Pick(c, 20*time.Second, 100*time.Second)}, func() {
			data, err = sparkl.LoadPathbuilder(pb, r.index, storages.NewBundleEngine(""), nil)
		}, func() error {
			if err != nil {
				return err
			}
			got, err := key(data)
			if err != nil {
				return err
			}
			if w := r.want.Key(true); w != got {
				return fmt.Errorf("expected:\n%s\ngot:\n%s", w, got)
			}
			return nil
		})
	})
	c.Case(func() string { return "load: " + r.name + ": into a database" }, func() error {
		data, err := sparkl.LoadPathbuilder(pb, r.index, storages.NewBundleEngine(""), nil)
		if err != nil {
			return err
		}
		for _, tables := range []bool{false, true} {
			// values are unordered, hence those of a field are only comparable in tables of their own
			cfg := sqlref.Config{Batch: 1, Vars: 100, Sep: ",", Tables: tables}
			want, _ := sqlref.Expect(pb, data, cfg)
			var conn *sql.DB
			var eErr error
			err := explore(c, vsched.Options{Delays: kit.Pick(c, 1, 2), Budget: kit.Pick(c, 20*time.Second, 100*time.Second)}, func() {
				var oErr error
				if conn, oErr = sql.Open("sqlite", ":memory:"); oErr != nil {
					panic(oErr)
				}
				conn.SetMaxOpenConns(1)
				eErr = sparkl.Export(pb, r.index, storages.NewBundleEngine(""), &exporter.SQL{SkipClose: true, DB: conn, BatchSize: cfg.Batch, MaxQueryVar: cfg.Vars, Separator: cfg.Sep, MakeFieldTables: cfg.Tables}, nil)
			}, func() error {
				defer conn.Close()
				if eErr != nil {
					return eErr
				}
				got, err := sqlref.Content(conn, want)
				if err != nil {
					return err
				}
				return sqlref.Same(got, want)
			})
			if err != nil {
				return err
			}
		}
		return nil
	})
}

// indexes builds indexes.
func indexes(c *kit.Ctx) {
	A, B, p, q, w, same, inv := k+"A", k+"B", k+"p", k+"q", k+"w", k+"same", k+"inv"
	stmts := []ref.Stmt{{S: k + "a", P: ref.Type, O: A}, {S: k + "b", P: ref.Type, O: B}, {S: k + "a", P: p, O: k + "b"}, {S: k + "a'", P: w, O: "1", Lit: true}, {S: k + "b", P: w, O: "2", Lit: true, Lang: "de"},
		{S: k + "a", P: same, O: k + "a'"}, {S: p, P: inv, O: q}, {S: k + "b", P: q, O: k + "a'"}}
	g := ref.Build(stmts, [][2]string{{k + "a", k + "a'"}}, [][2]string{{p, q}})
	preds := sparkl.Predicates{SameAs: impl.Labels([]string{same}), InverseOf: impl.Labels([]string{inv})}
	queries := impl.Queries([]string{p, q, ref.Type}, []string{A, B}, 2)
	for _, disk := range []bool{false, true} {
		for _, interval := range []int{0, 1, 3} {
			disk, interval := disk, interval
			build := func(m *fault.Monitor) (*igraph.Index, func(), error) {
				dir := ""
				if disk {
					dir = c.Scratch()
				}
				engine, done := impl.Engine(dir)
				if m != nil {
					engine = m.Engine(engine)
				}
				index, err := sparkl.MakeIndex(&impl.Tokens{Stmts: stmts}, preds, engine, sparkl.IndexOptions{CompactInterval: interval}, nil)
				return index, done, err
			}
			name := fmt.Sprintf("index: disk=%v interval=%d", disk, interval)
			c.Case(func() string { return name }, func() error {
				var index *igraph.Index
				var done func()
				var err error
				// on disk every operation of the test takes a while
				opts := vsched.Options{Delays: kit.Pick(c, 1, 2), Budget: kit.Pick(c, 20*time.Second, 200*time.Second)}
				if disk {
					opts = vsched.Options{Delays: kit.Pick(c, 0, 1), Budget: kit.Pick(c, 20*time.Second, 200*time.Second)}
				}
				return explore(c, opts, func() {
					index, done, err = build(nil)
				}, func() error {
					defer done()
					if err != nil {
						return err
					}
					defer index.Close()
					for _, steps := range queries {
						if err := impl.CompareQuery(g, index, steps, false); err != nil {
							return err
						}
					}
					return nil
				})
			})
			if disk && !c.Deep() {
				continue
			}
			// every operation the goroutines run fails
			inj := &injector{at: "x"}
			index, done, err := build(&fault.Monitor{Plain: inj.op})
			if err == nil {
				err = index.Close()
			}
			done()
			if err != nil {
				c.Case(func() string { return name + " with faults" }, func() error { return err })
				continue
			}
			for i, at := range inj.keys {
				for n := 0; n < inj.ns[i]; n++ {
					at, n := at, n
					c.Case(func() string { return fmt.Sprintf("%s: %s fails (%d)", name, at, n) }, func() error {
						var cur *injector
						return explore(c, vsched.Options{Delays: kit.Pick(c, 0, 1), Budget: kit.Pick(c, 20*time.Second, 100*time.Second)}, func() {
							cur = &injector{at: at, n: n}
							index, done, err = build(&fault.Monitor{Plain: cur.op})
							if err == nil {
								err = index.Close()
							}
						}, func() error {
							defer done()
							if cur.hit && !errors.Is(err, errFault) {
								return fmt.Errorf("%s failed, the error is %v", at, err)
							}
							if !cur.hit && err != nil {
								return fmt.Errorf("nothing failed, the error is %v", err)
							}
							return nil
						})
					})
				}
			}
		}
	}
}

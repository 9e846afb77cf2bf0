// C13: the SQL export contains exactly the extracted entities.
package main

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	zimpl "github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/sqlref"
	_ "github.com/glebarez/go-sqlite"
)

const ex = "http://x/"

// call is one call to the exporter.
type call struct {
	b *pathbuilder.Bundle
	e *wisski.Entity // nil: End
}

// drive runs the calls after Begin of every bundle.
func drive(x *exporter.SQL, pb *pathbuilder.Pathbuilder, calls []call) error {
	for _, b := range pb.Bundles() {
		n := int64(0)
		for _, c := range calls {
			if c.b == b && c.e != nil {
				n++
			}
		}
		if err := x.Begin(b, n); err != nil {
			return err
		}
	}
	for _, c := range calls {
		if c.e == nil {
			if err := x.End(c.b); err != nil {
				return err
			}
		} else {
			// callers may use their variable again
			e := *c.e
			if err := x.Add(c.b, &e); err != nil {
				return err
			}
			e = wisski.Entity{}
		}
	}
	return x.Close()
}

func toData(calls []call) map[string][]wisski.Entity {
	out := map[string][]wisski.Entity{}
	for _, c := range calls {
		if c.e != nil {
			out[c.b.MachineName()] = append(out[c.b.MachineName()], *c.e)
		}
	}
	return out
}

func open() *sql.DB {
	conn, err := sql.Open("sqlite", ":memory:")
	if err != nil {
		panic(err)
	}
	conn.SetMaxOpenConns(1)
	return conn
}

// run exports each of the histories into the same database and compares after each one.
func run(pb *pathbuilder.Pathbuilder, cfg sqlref.Config, histories ...[]call) error {
	conn := open()
	defer conn.Close()
	for i, calls := range histories {
		want, widest := sqlref.Expect(pb, toData(calls), cfg)
		x := &exporter.SQL{SkipClose: true, DB: conn, BatchSize: cfg.Batch, MaxQueryVar: cfg.Vars, Separator: cfg.Sep, MakeFieldTables: cfg.Tables}
		err := drive(x, pb, calls)
		if widest > cfg.Vars {
			if err == nil {
				return fmt.Errorf("%v: export %d succeeded although a row needs %d variables", cfg, i, widest)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%v: export %d: %w", cfg, i, err)
		}
		got, err := sqlref.Content(conn, want)
		if err != nil {
			return fmt.Errorf("%v: after export %d: %w", cfg, i, err)
		}
		if err := sqlref.Same(got, want); err != nil {
			return fmt.Errorf("%v: after export %d: %w", cfg, i, err)
		}
	}
	return nil
}

func val(text, lang string) wisski.FieldValue {
	return wisski.FieldValue{Value: impl.Datum(text), Language: impl.Language(lang), Path: []impl.Label{"x"}}
}

func ent(uri string, fields map[string][]wisski.FieldValue, children map[string][]wisski.Entity) wisski.Entity {
	return wisski.Entity{URI: impl.Label(uri), Fields: fields, Children: children}
}

type vs = []wisski.FieldValue

// shapes of top-level entities of the bundle t.
func shapes(n int) (out []wisski.Entity) {
	u := func(s string) string { return fmt.Sprintf("%s%s%d", ex, s, n) }
	g := func(i int) wisski.Entity {
		return ent(fmt.Sprintf("%sg%d_%d", ex, n, i), map[string]vs{"z": {val("zz", "")}}, nil)
	}
	c := func(i, gs int) wisski.Entity {
		f := map[string]vs{}
		for k := 0; k < i; k++ {
			f["y"] = append(f["y"], val(fmt.Sprintf("y%d", k), "de"))
		}
		var ch []wisski.Entity
		for k := 0; k < gs; k++ {
			ch = append(ch, g(10*i+k))
		}
		return ent(fmt.Sprintf("%sc%d_%d", ex, n, i), f, map[string][]wisski.Entity{"g": ch})
	}
	return []wisski.Entity{
		ent(u("e"), nil, nil),
		ent(u("v"), map[string]vs{"a": {val("", "")}, "b": {}}, nil),
		ent(u("m"), map[string]vs{"a": {val("x'\"\x00é;--", "en"), val("", "de"), val("2", "")}, "b": {val("b", "")}}, nil),
		ent(u("c"), map[string]vs{"b": {val("1", ""), val("1", "")}}, map[string][]wisski.Entity{"c": {c(0, 0)}, "d": {}}),
		ent(u("d"), nil, map[string][]wisski.Entity{"c": {c(1, 2), c(2, 0), c(3, 1)}, "d": {ent(u("dd"), nil, nil)}}),
	}
}

func main() {
	kit.Main(kit.Spec{
		Property: "C13", Level: "model_checking",
		Rule:   "every sequence of entity shapes up to the length, and every interleaving of two bundles, handed to the SQL exporter with every combination of batch size, query-variable limit, separator and field-table setting, twice into one (real SQLite) database with different data; every database statement failing once; extracted datasets through the whole export. The tables are compared with those computed from the entities.",
		Shards: 12, GC: 100,
	}, func(c *kit.Ctx) {
		pb := zimpl.Pathbuilder(ref.PB{Bundles: []ref.Bundle{
			{ID: "t", Path: []string{ex + "T"},
				Fields: []ref.Field{{ID: "a", Path: []string{ex + "T"}, Datatype: ex + "a"}, {ID: "b", Path: []string{ex + "T"}, Datatype: ex + "b"}},
				Children: []ref.Bundle{
					{ID: "c", Path: []string{ex + "T", ex + "c", ex + "C"}, Fields: []ref.Field{{ID: "y", Path: []string{ex + "T", ex + "c", ex + "C"}, Datatype: ex + "y"}},
						Children: []ref.Bundle{{ID: "g", Path: []string{ex + "T", ex + "c", ex + "C", ex + "g", ex + "G"}, Fields: []ref.Field{{ID: "z", Path: []string{ex + "T", ex + "c", ex + "C", ex + "g", ex + "G"}, Datatype: ex + "z"}}}}},
					{ID: "d", Path: []string{ex + "T", ex + "d", ex + "D"}},
				}},
			{ID: "u", Path: []string{ex + "U"}, Fields: []ref.Field{{ID: "b", Path: []string{ex + "U"}, Datatype: ex + "b"}}},
		}})
		var bt, bu *pathbuilder.Bundle
		for _, b := range pb.Bundles() {
			if b.MachineName() == "t" {
				bt = b
			} else {
				bu = b
			}
		}
		sequences(c, pb, bt, bu)
		texts(c, pb, bt, bu)
		interleavings(c, pb, bt, bu)
		faults(c, pb, bt, bu)
		extracted(c)
	})
}

func configs(c *kit.Ctx) (out []sqlref.Config) {
	for _, batch := range []int{1, 2, 3, 4, 1000} {
		for _, vars := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 32766} {
			for _, sep := range []string{",", "", " | "}[:kit.Pick(c, 1, 3)] {
				for _, tables := range []bool{false, true} {
					out = append(out, sqlref.Config{batch, vars, sep, tables})
				}
			}
		}
	}
	return
}

func sequences(c *kit.Ctx, pb *pathbuilder.Pathbuilder, bt, bu *pathbuilder.Bundle) {
	ns := len(shapes(0))
	var all [][]int
	var rec func(s []int)
	rec = func(s []int) {
		all = append(all, append([]int{}, s...))
		if len(s) == kit.Pick(c, 3, 4) {
			return
		}
		for i := 0; i < ns; i++ {
			rec(append(s, i))
		}
	}
	rec(nil)
	for i := 0; i < ns; i++ { // longer ones: many batches
		for _, n := range []int{5, 6, 7, 8, 9, 16} {
			s := make([]int, n)
			for k := range s {
				s[k] = i
			}
			all = append(all, s)
		}
	}
	mk := func(s []int, ub int) (calls []call) {
		for i, k := range s {
			e := shapes(i)[k]
			calls = append(calls, call{bt, &e})
		}
		calls = append(calls, call{bt, nil})
		for i := 0; i < ub; i++ {
			e := ent(fmt.Sprintf("%su%d", ex, i), map[string]vs{"b": {val("u", "")}}, nil)
			calls = append(calls, call{bu, &e})
		}
		return append(calls, call{bu, nil})
	}
	cfgs := configs(c)
	other := mk([]int{4, 2, 3}, 2)
	for _, s := range all {
		s := s
		c.Case(func() string { return fmt.Sprintf("sequence of shapes %v", s) }, func() error {
			c.StateOf(fmt.Sprint(s))
			for _, cfg := range cfgs {
				if err := run(pb, cfg, mk(s, len(s)%2)); err != nil {
					return err
				}
				c.Trans(len(s))
			}
			if len(s) > 0 {
				c.Nontrivial()
			}
			// several exports into the same database
			for _, tables := range []bool{true, false} {
				cfg := sqlref.Config{2, 32766, ",", tables}
				if err := run(pb, cfg, mk(s, 1), mk(s, 1)); err != nil {
					return err
				}
				if err := run(pb, cfg, other, mk(s, 0), other); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func texts(c *kit.Ctx, pb *pathbuilder.Pathbuilder, bt, bu *pathbuilder.Bundle) {
	alphabet := []string{"", "'", `"`, ";", ",", "\x00", "\n", "\r\n", "?", "$1", ":a", "%s", "é", "😀", "--", "NULL", "1", "01", "1.0", "1e3", "0x10", "true", " ", "`", "\\", "/*", "2020-01-01", "9223372036854775808", "-0", "\xff"}
	for _, a := range alphabet {
		for _, b := range alphabet {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("texts %q %q", a, b) }, func() error {
				c.StateOf(a + "|" + b)
				for _, sep := range []string{",", "", "'", " | ", "\x00", "?", "\n"} {
					for _, tables := range []bool{false, true} {
						ents := []wisski.Entity{
							ent(ex+a+b, map[string]vs{"a": {val(a, ""), val(b, "en")}, "b": {val(a+b, "")}}, nil),
							ent(ex+"k", nil, map[string][]wisski.Entity{"c": {ent(ex+"c"+b, map[string]vs{"y": {val(b, ""), val(b, ""), val(a, "x")}}, nil)}}),
						}
						calls := []call{{bt, &ents[0]}, {bt, &ents[1]}, {bt, nil}, {bu, nil}}
						if err := run(pb, sqlref.Config{1000, 32766, sep, tables}, calls); err != nil {
							return err
						}
						c.Trans(2)
					}
				}
				return nil
			})
		}
	}
}

// interleavings runs every interleaving of the calls for two bundles.
func interleavings(c *kit.Ctx, pb *pathbuilder.Pathbuilder, bt, bu *pathbuilder.Bundle) {
	max := kit.Pick(c, 4, 5)
	for nt := 0; nt <= max; nt++ {
		for nu := 0; nu <= max; nu++ {
			nt, nu := nt, nu
			c.Case(func() string { return fmt.Sprintf("interleavings of %d and %d entities", nt, nu) }, func() error {
				var rec func(calls []call, i, j int) error
				rec = func(calls []call, i, j int) error {
					if i == nt+1 && j == nu+1 {
						c.Trans(len(calls))
						for _, batch := range []int{1, 2, 3} {
							if err := run(pb, sqlref.Config{batch, 32766, ",", nt%2 == 0}, calls); err != nil {
								return err
							}
						}
						return nil
					}
					if i <= nt {
						k := call{b: bt}
						if i < nt {
							e := shapes(i)[(i+nt)%5]
							k.e = &e
						}
						if err := rec(append(calls[:len(calls):len(calls)], k), i+1, j); err != nil {
							return err
						}
					}
					if j <= nu {
						k := call{b: bu}
						if j < nu {
							e := ent(fmt.Sprintf("%su%d", ex, j), map[string]vs{"b": {val("u", "")}}, nil)
							k.e = &e
						}
						if err := rec(append(calls[:len(calls):len(calls)], k), i, j+1); err != nil {
							return err
						}
					}
					return nil
				}
				return rec(nil, 0, 0)
			})
		}
	}
}

// a driver that fails at the n-th statement
type faultDriver struct{}
type faultConn struct{}
type faultStmt struct{}

var fault struct {
	sync.Mutex
	n, at  int
	closed int
}
var errFault = errors.New("planned failure")

func (faultDriver) Open(string) (driver.Conn, error) { return faultConn{}, nil }
func (faultConn) Prepare(q string) (driver.Stmt, error) {
	return faultStmt{}, nil
}
func (faultConn) Close() error              { return nil }
func (faultConn) Begin() (driver.Tx, error) { return nil, errors.New("no transactions") }
func (faultStmt) Close() error              { return nil }
func (faultStmt) NumInput() int             { return -1 }
func (faultStmt) Exec([]driver.Value) (driver.Result, error) {
	fault.Lock()
	defer fault.Unlock()
	fault.n++
	if fault.n == fault.at {
		return nil, errFault
	}
	return driver.RowsAffected(1), nil
}
func (faultStmt) Query([]driver.Value) (driver.Rows, error) { return nil, errors.New("no queries") }

func init() { sql.Register("zverif-fault", faultDriver{}) }

func faults(c *kit.Ctx, pb *pathbuilder.Pathbuilder, bt, bu *pathbuilder.Bundle) {
	for _, tables := range []bool{false, true} {
		for _, batch := range []int{1, 2, 1000} {
			tables, batch := tables, batch
			c.Case(func() string { return fmt.Sprintf("failing statements, batch=%d fieldtables=%v", batch, tables) }, func() error {
				conn, err := sql.Open("zverif-fault", "")
				if err != nil {
					return err
				}
				defer conn.Close()
				var calls []call
				for i := range shapes(0) {
					e := shapes(i)[i]
					calls = append(calls, call{bt, &e})
				}
				calls = append(calls, call{bt, nil}, call{bu, nil})
				for at := 0; ; at++ {
					fault.n, fault.at = 0, at
					err := drive(&exporter.SQL{SkipClose: true, DB: conn, BatchSize: batch, MaxQueryVar: 32766, Separator: ",", MakeFieldTables: tables}, pb, calls)
					c.Trans(fault.n)
					c.StateOf(fmt.Sprint(tables, batch, at))
					if at == 0 || fault.n < at {
						if err != nil {
							return err
						}
						if at > 0 {
							if at < 8 {
								return fmt.Errorf("only %d statements", at)
							}
							return nil
						}
						continue
					}
					if !errors.Is(err, errFault) {
						return fmt.Errorf("failure of statement %d reported as %v", at, err)
					}
				}
			})
		}
	}
}

// extracted runs datasets through the whole export.
func extracted(c *kit.Ctx) {
	for _, w := range ref.Worlds() {
		pb := zimpl.Pathbuilder(w.PB)
		n := len(w.Universe)
		step := 1
		for (1<<n)/step > kit.Pick(c, 128, 2048) {
			step *= 2
		}
		// (every subset of the last log2(n/step) statements, together with all others)
		for bits := 0; bits < 1<<n; bits += step {
			bits := bits | (step - 1)
			w := w
			c.Case(func() string { return fmt.Sprintf("dataset %s %b", w.PB.Name, bits) }, func() error {
				stmts := w.Subset(bits)
				if !w.ValidInverse(stmts) {
					return kit.Skip
				}
				_, forest := ref.Extract(w.PB, w.Graph(stmts))
				if !forest {
					return kit.Skip
				}
				c.StateOf(fmt.Sprint(w.PB.Name, bits))
				index, err := sparkl.MakeIndex(&zimpl.Tokens{Stmts: stmts}, sparkl.Predicates{SameAs: zimpl.Labels(w.Same), InverseOf: zimpl.Labels(w.Inverse)}, sparkl.NewEngine(""), sparkl.DefaultIndexOptions(pb), nil)
				if err != nil {
					return err
				}
				defer index.Close()
				data, err := sparkl.LoadPathbuilder(pb, index, storages.NewBundleEngine(""), nil)
				if err != nil {
					return err
				}
				for _, cfg := range []sqlref.Config{{2, 100, ",", false}, {2, 100, ",", true}, {1000, 32766, "", true}} {
					conn := open()
					x := &exporter.SQL{SkipClose: true, DB: conn, BatchSize: cfg.Batch, MaxQueryVar: cfg.Vars, Separator: cfg.Sep, MakeFieldTables: cfg.Tables}
					for i := 0; i < 2; i++ {
						if err := sparkl.Export(pb, index, storages.NewBundleEngine(""), x, nil); err != nil {
							conn.Close()
							return fmt.Errorf("%v: %w", cfg, err)
						}
						want, _ := sqlref.Expect(pb, data, cfg)
						got, err := sqlref.Content(conn, want)
						if err == nil {
							err = sqlref.Same(got, want)
						}
						if err != nil {
							conn.Close()
							return fmt.Errorf("%v: export %d: %w", cfg, i, err)
						}
						c.Trans(len(stmts))
					}
					conn.Close()
				}
				return nil
			})
		}
	}
}

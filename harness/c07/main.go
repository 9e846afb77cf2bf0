// C07: a failing operation during loading is always reported.
package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/fault"
	"github.com/FAU-CDI/hangover/internal/zverif/faultdb"
	timpl "github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

var errs = []error{
	errors.New("injected"),
	io.EOF, io.ErrUnexpectedEOF,
	fmt.Errorf("wrapping: %w", io.EOF),
}

type setup struct {
	name string
	l    fault.Load
	disk bool
}

func setups(c *kit.Ctx) (out []setup) {
	for i, wo := range ref.Worlds() {
		stmts := wo.Subset(1<<len(wo.Universe) - 1)
		if !wo.ValidInverse(stmts) {
			stmts = wo.Base
			for bit := range wo.Universe {
				if more := append(append([]ref.Stmt{}, stmts...), wo.Universe[bit]); wo.ValidInverse(more) {
					stmts = more
				}
			}
		}
		for j, l := range []fault.Load{
			{Stmts: stmts},
			{Stmts: stmts, Mask: true, Compact: 3},
			{NQ: ref.NQuads(stmts), Mask: true, Compact: 1},
			{NQ: ref.NQuads(stmts), Short: true},
		} {
			l.PB, l.Same, l.Inverse = timpl.Pathbuilder(wo.PB), wo.Same, wo.Inverse
			for _, disk := range []bool{false, true} {
				if few := i != 1 && i != 4; disk && (few && (j != 1 || !c.Deep()) || l.Short || !c.Deep() && j > 1) || l.Short && few {
					continue
				}
				out = append(out, setup{fmt.Sprintf("dataset %s, way %d, disk %v", wo.PB.Name, j, disk), l, disk})
			}
		}
	}
	return
}

func (s setup) run(c *kit.Ctx, m *fault.Monitor) (string, error) {
	l := s.l
	if s.disk {
		dir, done := timpl.MkTemp(c.Scratch())
		defer done()
		l.Dir = dir
		faultdb.Observe(m)
		defer faultdb.Observe(nil)
	}
	return l.Run(m)
}

func main() {
	kit.Main(kit.Spec{
		Property: "C07", Level: "model_checking", Shards: 12, GC: 50, HangAfter: 60e9,
		Rule: "for each dataset and way of loading, every operation on the data source, every storage of the index, every storage of a bundle and the exporter fails once, with each of several errors, before it has an effect; loading must end and report an error that is the injected one. Files that cannot be read or parsed are put in the place of proper ones.",
	}, func(c *kit.Ctx) {
		for _, s := range setups(c) {
			s := s
			var m fault.Monitor
			clean, err := s.run(c, &m)
			if err != nil || clean == "" {
				c.Case(func() string { return s.name }, func() error { return fmt.Errorf("fails without any failure: %v", err) })
				continue
			}
			c.Case(func() string { return s.name + ", no failure" }, func() error {
				var m fault.Monitor
				again, err := s.run(c, &m)
				if err != nil || again != clean {
					return fmt.Errorf("not deterministic: %v", err)
				}
				return nil
			})
			for _, counts := range m.Counts() {
				for n := 0; n < counts.N; n++ {
					if s.l.Short && n > 40 && n%11 != 0 && !c.Deep() {
						continue
					}
					if s.disk && n > 2 && n < counts.N-2 && !c.Deep() {
						continue
					}
					op := counts
					op.N = n
					c.Case(func() string { return s.name + ", failing " + op.String() }, func() error { return one(c, s, op, clean) })
				}
			}
		}
		files(c)
		faultdb.Application(c, func(fault.Op) bool { return true }, nil)
	})
}

func one(c *kit.Ctx, s setup, op fault.Op, clean string) error {
	for i, injected := range errs {
		if i > 0 && (s.disk || (s.l.Short || i+op.N%3 == 3) && !c.Deep()) {
			break
		}
		if injected == io.EOF && (op.Name == "Next" || op.Name == "Read") {
			continue // the regular end
		}
		if op.Name == "Read" && i == 2 && s.l.Short {
			continue
		}
		reached := false
		m := fault.Monitor{Hook: func(o fault.Op, _ int) error {
			if o != op {
				return nil
			}
			reached = true
			return injected
		}}
		got, err := s.run(c, &m)
		c.Trans(m.Total())
		if !reached {
			if err != nil || got != clean {
				return fmt.Errorf("the operation was not reached, but the result differs: %v", err)
			}
			continue
		}
		c.Nontrivial()
		c.StateOf(fmt.Sprint(s.name, op))
		if err == nil {
			if got != clean {
				return fmt.Errorf("%v was not reported, and the result is altered", injected)
			}
			return fmt.Errorf("%v was not reported", injected)
		}
		if !errors.Is(err, injected) {
			return fmt.Errorf("expected %v to be reported, got %v", injected, err)
		}
	}
	return nil
}


// files checks input files that cannot be read or parsed.
func files(c *kit.Ctx) {
	wo := ref.Worlds()[1]
	stmts := wo.Subset(1<<len(wo.Universe) - 1)
	lines := strings.SplitAfter(strings.TrimSuffix(ref.NQuads(stmts), "\n"), "\n")
	bad := []string{"x", "<a> <b>", "<a> <b> <c>", "<a> <b> \"c .", "<a> <b> \"c\"@ .", "<a> <b> \"\\q\" .", "<a <b> <c> .", "<a> <b> <c> <d> <e> .", "\"a\" <b> <c>", "<a> <b> \"\\u12\" ."}
	flags := viewer.RenderFlags{Predicates: sparkl.Predicates{SameAs: []impl.Label{ref.SameAs}, InverseOf: []impl.Label{ref.InverseOf}}}
	load := func(xml, nq, dir string) error {
		g, err := glass.Create(xml, nq, dir, flags, nil)
		if err == nil {
			return errors.Join(errors.New("not reported"), g.Close())
		}
		return nil
	}
	for _, disk := range []bool{false, true} {
		for i, b := range bad {
			for at := 0; at <= len(lines); at++ {
				at, b, disk := at, b, disk
				if disk && (at+i)%5 != 0 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("line %q at %d, disk %v", b, at, disk) }, func() error {
					dir, done := timpl.MkTemp(c.Scratch())
					defer done()
					text := strings.Join(lines[:at], "") + "\n" + b + "\n" + strings.Join(lines[at:], "")
					cache := ""
					if disk {
						cache = filepath.Join(dir, "cache")
					}
					c.Nontrivial()
					return load(timpl.WriteFile(dir, "pb.xml", wo.PB.XML()), timpl.WriteFile(dir, "data.nq", text), cache)
				})
			}
		}
	}
	for _, which := range []string{"pb.xml", "data.nq"} {
		for _, kind := range []string{"missing", "directory", "dangling", "below a file", "cut"} {
			which, kind := which, kind
			if which == "data.nq" && kind == "cut" {
				continue
			}
			c.Case(func() string { return which + " " + kind }, func() error {
				dir, done := timpl.MkTemp(c.Scratch())
				defer done()
				xml := timpl.WriteFile(dir, "pb.xml", wo.PB.XML())
				nq := timpl.WriteFile(dir, "data.nq", ref.NQuads(stmts))
				path := filepath.Join(dir, which)
				os.Remove(path)
				switch kind {
				case "directory":
					os.Mkdir(path, 0o700)
				case "dangling":
					os.Symlink("none", path)
				case "below a file":
					timpl.WriteFile(dir, "file", "")
					if which == "pb.xml" {
						xml = filepath.Join(dir, "file", which)
					} else {
						nq = filepath.Join(dir, "file", which)
					}
				case "cut":
					x := wo.PB.XML()
					for n := 0; n < len(strings.TrimSpace(x)); n += 1 + len(x)/200 {
						timpl.WriteFile(dir, "pb.xml", x[:n])
						if err := load(xml, nq, ""); err != nil {
							return fmt.Errorf("cut to %d of %d bytes: %v", n, len(x), err)
						}
					}
					return nil
				}
				c.Nontrivial()
				return load(xml, nq, "")
			})
		}
	}
	// the cache directory cannot be used
	for _, kind := range []string{"a file", "below a file"} {
		kind := kind
		c.Case(func() string { return "cache directory: " + kind }, func() error {
			dir, done := timpl.MkTemp(c.Scratch())
			defer done()
			xml := timpl.WriteFile(dir, "pb.xml", wo.PB.XML())
			nq := timpl.WriteFile(dir, "data.nq", ref.NQuads(stmts))
			f := timpl.WriteFile(dir, "file", "")
			if kind == "below a file" {
				f = filepath.Join(f, "x")
			}
			c.Nontrivial()
			return load(xml, nq, f)
		})
	}
}

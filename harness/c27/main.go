// C27: everything opened while loading is released.
package main

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/fault"
	"github.com/FAU-CDI/hangover/internal/zverif/faultdb"
	timpl "github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

var errInjected = errors.New("injected")

// activities lists the goroutines of this process with something of the code under test on their stacks.
func activities() (out []string) {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n")[1:] {
		ours := false
		for _, line := range strings.Split(g, "\n") {
			if strings.HasPrefix(line, "github.com/FAU-CDI/hangover/") && !strings.HasPrefix(line, "github.com/FAU-CDI/hangover/internal/zverif/kit.") ||
				strings.HasPrefix(line, "github.com/tkw1536/pkglib/traversal") || strings.HasPrefix(line, "github.com/syndtr/goleveldb/leveldb.(*DB)") ||
				strings.HasPrefix(line, "created by github.com/FAU-CDI/hangover/internal") && !strings.Contains(line, "zverif/kit") {
				ours = true
			}
		}
		if ours && !strings.Contains(g, "leveldb.(*DB).mpoolDrain") { // ends on its own, a second after closing
			out = append(out, g)
		}
	}
	return
}

// settled waits until no activity is left.
func settled() error {
	var left []string
	for wait := time.Microsecond; wait < 3*time.Second; wait *= 2 {
		runtime.Gosched()
		if left = activities(); len(left) == 0 {
			return nil
		}
		time.Sleep(wait)
	}
	return fmt.Errorf("still active:\n%s", strings.Join(left, "\n\n"))
}

type setup struct {
	name string
	l    fault.Load
	disk bool
}

func setups(c *kit.Ctx) (out []setup) {
	for i, wo := range ref.Worlds() {
		stmts := wo.Subset(1<<len(wo.Universe) - 1)
		if !wo.ValidInverse(stmts) {
			continue
		}
		for _, disk := range []bool{false, true} {
			if disk && i != 1 && (i != 4 || !c.Deep()) || !c.Deep() && (i == 2 || i == 3) {
				continue
			}
			out = append(out, setup{fmt.Sprintf("dataset %s, disk %v", wo.PB.Name, disk),
				fault.Load{PB: timpl.Pathbuilder(wo.PB), Same: wo.Same, Inverse: wo.Inverse, Stmts: stmts, Mask: i%2 == 1, Compact: i % 3}, disk})
		}
	}
	return
}

// check runs a load in which some operation fails, and sees if everything is released.
func check(c *kit.Ctx, s setup, op *fault.Op) error {
	l := s.l
	if s.disk {
		dir, done := timpl.MkTemp(c.Scratch())
		defer done()
		l.Dir = dir
	}
	reached := false
	m := fault.Monitor{}
	if op != nil {
		m.Hook = func(o fault.Op, _ int) error {
			if o != *op {
				return nil
			}
			reached = true
			return errInjected
		}
	}
	run := func(m *fault.Monitor) (string, error) {
		if s.disk {
			faultdb.Observe(m)
			defer faultdb.Observe(nil)
		}
		return l.Run(m)
	}
	_, err := run(&m)
	c.Trans(m.Total())
	if op == nil || !reached {
		if err != nil {
			return fmt.Errorf("fails without any failure: %v", err)
		}
	} else if op.Name == "Close" && !errors.Is(err, errInjected) {
		return fmt.Errorf("expected %v to be reported, got %v", errInjected, err)
	}
	if err := settled(); err != nil {
		return err
	}
	if err := m.Leaks(); err != nil {
		return err
	}
	c.Nontrivial()
	c.StateOf(fmt.Sprint(s.name, op))
	if s.disk {
		// the directory can be used again
		m := fault.Monitor{}
		if _, err := run(&m); err != nil {
			return fmt.Errorf("loading again in the same place: %v", err)
		}
		if err := settled(); err != nil {
			return err
		}
		return m.Leaks()
	}
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C27", Level: "model_checking", Shards: 12, GC: 50, HangAfter: 60e9,
		Rule: "for each dataset and backend, a load without any failure, and with every single operation on the source, index storages, bundle storages and exporter failing; afterwards each storage that was opened must be closed and not used any more, no goroutine of the load may be left, and a load on disk must be possible in the same directory right away",
	}, func(c *kit.Ctx) {
		for _, s := range setups(c) {
			s := s
			c.Case(func() string { return s.name + ", no failure" }, func() error { return check(c, s, nil) })
			l := s.l
			done := func() {}
			if s.disk {
				l.Dir, done = timpl.MkTemp(c.Scratch())
			}
			var m fault.Monitor
			if s.disk {
				faultdb.Observe(&m)
			}
			_, err := l.Run(&m)
			faultdb.Observe(nil)
			if err != nil {
				continue
			}
			done()
			for _, counts := range m.Counts() {
				for n := 0; n < counts.N; n++ {
					if s.disk && n > 1 && n < counts.N-1 && !c.Deep() {
						continue
					}
					if strings.HasPrefix(counts.Kind, "database ") && n == 1 && !c.Deep() {
						continue
					}
					op := counts
					op.N = n
					c.Case(func() string { return s.name + ", failing " + op.String() }, func() error { return check(c, s, &op) })
				}
			}
		}
		creates(c)
		faultdb.Application(c, func(op fault.Op) bool { return op.Name == "Close" || c.Deep() || op.N <= 2 }, func(dir string, m *fault.Monitor) error {
			if f := openFiles(dir); len(f) > 0 {
				return fmt.Errorf("files are still open: %v", f)
			}
			return errors.Join(settled(), m.Leaks())
		})
	})
}

// openFiles lists the open files below dir.
func openFiles(dir string) (out []string) {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range entries {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			out = append(out, t)
		}
	}
	return
}

// creates uses the application's way of loading, several times in the same directory.
func creates(c *kit.Ctx) {
	flags := viewer.RenderFlags{Predicates: sparkl.Predicates{SameAs: []impl.Label{ref.SameAs}, InverseOf: []impl.Label{ref.InverseOf}}}
	type input struct{ xml, nq string }
	var ins []input
	for _, wo := range ref.Worlds() {
		stmts := wo.Subset(1<<len(wo.Universe) - 1)
		if !wo.ValidInverse(stmts) {
			continue
		}
		ins = append(ins, input{wo.PB.XML(), ref.NQuads(stmts)})
	}
	good := len(ins)
	ins = append(ins, input{ins[0].xml, ins[0].nq + "x"}, input{ins[1].xml, "x"}, input{"<x", ins[0].nq}, input{ins[1].xml, "<http://a> <" + ref.InverseOf + "> "})
	for i := range ins {
		for j := range ins {
			for _, disk := range []bool{false, true} {
				for _, closeBetween := range []bool{false, true} {
					i, j, disk, closeBetween := i, j, disk, closeBetween
					c.Case(func() string {
						return fmt.Sprintf("inputs %d and %d one after the other, disk %v, the first result closed %v", i, j, disk, closeBetween)
					}, func() error {
						dir, done := timpl.MkTemp(c.Scratch())
						defer done()
						cache := ""
						if disk {
							cache = dir + "/cache"
						}
						var open []glass.Glass
						for k, n := range []int{i, j, i} {
							g, err := glass.Create(timpl.WriteFile(dir, "pb.xml", ins[n].xml), timpl.WriteFile(dir, "data.nq", ins[n].nq), cache, flags, nil)
							if (err == nil) != (n < good) {
								return fmt.Errorf("load %d: %v", k, err)
							}
							if err := settled(); err != nil {
								return fmt.Errorf("load %d: %v", k, err)
							}
							if f := openFiles(dir); len(f) > 0 {
								return fmt.Errorf("load %d: files are still open: %v", k, f)
							}
							if err != nil {
								continue
							}
							if !closeBetween {
								open = append(open, g)
							} else if err := g.Close(); err != nil {
								return err
							}
							c.Trans(1)
						}
						for _, g := range open {
							if err := g.Close(); err != nil {
								return err
							}
						}
						c.Nontrivial()
						return settled()
					})
				}
			}
		}
	}
}

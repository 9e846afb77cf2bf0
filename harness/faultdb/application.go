package faultdb

import (
	"errors"
	"fmt"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/fault"
	timpl "github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

// Application loads datasets on disk as the application does, with every operation of the databases failing.
// after is called when everything has been closed.
func Application(c *kit.Ctx, pick func(op fault.Op) bool, after func(dir string, m *fault.Monitor) error) {
	flags := viewer.RenderFlags{Predicates: sparkl.Predicates{SameAs: []impl.Label{ref.SameAs}, InverseOf: []impl.Label{ref.InverseOf}}}
	injected := errors.New("injected")
	for i, wo := range ref.Worlds() {
		stmts := wo.Subset(1<<len(wo.Universe) - 1)
		if !wo.ValidInverse(stmts) || !c.Deep() && i != 1 && i != 4 {
			continue
		}
		wo := wo
		run := func(m *fault.Monitor) error {
			dir, done := timpl.MkTemp(c.Scratch())
			defer done()
			Observe(m)
			defer Observe(nil)
			g, err := glass.Create(timpl.WriteFile(dir, "pb.xml", wo.PB.XML()), timpl.WriteFile(dir, "data.nq", ref.NQuads(stmts)), dir+"/cache", flags, nil)
			c.Trans(m.Total())
			if e := g.Close(); err == nil {
				err = e
			}
			if after != nil {
				if e := after(dir, m); e != nil {
					return errors.Join(e, err)
				}
			}
			return err
		}
		var m fault.Monitor
		if err := run(&m); err != nil {
			c.Case(func() string { return "the application, dataset " + wo.PB.Name }, func() error { return fmt.Errorf("fails without any failure: %v", err) })
			continue
		}
		for _, counts := range m.Counts() {
			for n := 0; n < counts.N; n++ {
				if n > 0 && n < counts.N-1 && !c.Deep() || !pick(counts) {
					continue
				}
				op := counts
				op.N = n
				c.Case(func() string { return "the application, dataset " + wo.PB.Name + ", failing " + op.String() }, func() error {
					reached := false
					m := fault.Monitor{Hook: func(o fault.Op, _ int) error {
						if o != op {
							return nil
						}
						reached = true
						return injected
					}}
					err := run(&m)
					if !reached {
						return err
					}
					c.Nontrivial()
					c.StateOf(fmt.Sprint("application", wo.PB.Name, op))
					if !errors.Is(err, injected) {
						return fmt.Errorf("expected %v to be reported, got %v", injected, err)
					}
					return nil
				})
			}
		}
	}
}

// C08: indexing only what the pathbuilder mentions loses nothing.
package main

import (
	"fmt"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

func main() {
	kit.Main(kit.Spec{
		Property: "C08", Level: "model_checking",
		Rule:        "every subset of the statement universe of every pathbuilder of the family (with equivalent and inverse spellings of every kind of predicate the pathbuilder uses, links in place of texts, noise) is loaded with and without the mask; both results are compared with each other and with the brute-force extraction",
		Assumptions: []string{"each resource is an entity of a bundle in one way only", "each property has at most one inverse"},
	}, func(c *kit.Ctx) {
		worlds := append(ref.Worlds(), ref.MaskWorlds()...)
		small := ref.SmallWorlds(c.Deep())
		if !c.Deep() {
			var some []ref.World
			for i, w := range small {
				if i%3 == 0 {
					some = append(some, w)
				}
			}
			small = some
		}
		for _, w := range append(worlds, small...) {
			pb := impl.Pathbuilder(w.PB)
			for bits := 0; bits < 1<<len(w.Universe); bits++ {
				one(c, w, pb, w.Subset(bits))
			}
		}
	})
}

func one(c *kit.Ctx, w ref.World, pb *pathbuilder.Pathbuilder, stmts []ref.Stmt) {
	c.Case(func() string { return w.PB.Name + ": " + impl.Lines(stmts) }, func() error {
		g := w.Graph(stmts)
		want, forest := ref.Extract(w.PB, g)
		if !forest || !w.ValidInverse(stmts) {
			return kit.Skip
		}
		c.StateOf(w.PB.Name + want.Key(true))
		c.Trans(2 * len(stmts))
		ld := impl.Load{PB: pb, Stmts: stmts, Same: w.Same, Inverse: w.Inverse}
		if _, err := ld.Check(w.PB, g, want, true); err != nil {
			return fmt.Errorf("without mask: %w", err)
		}
		ld.Mask = true
		if _, err := ld.Check(w.PB, g, want, true); err != nil {
			return fmt.Errorf("with mask: %w", err)
		}
		return nil
	})
}

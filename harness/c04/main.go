// C04: extraction finds exactly what the pathbuilder describes.
package main

import (
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

func main() {
	kit.Main(kit.Spec{
		Property: "C04", Level: "model_checking",
		Rule:        "for each pathbuilder of the family (flat fields, nested children, siblings, long steps, identities, inverses) and for every pathbuilder of a systematic enumeration of small ones (up to two fields, a child with a field, a grandchild or sibling, over all path shapes) every subset of its statement universe is loaded through the index and the extraction (unmasked) and the entities, values, languages, children, paths and provenance are compared with a brute-force evaluation of the paths",
		Assumptions: []string{"each resource is an entity of a bundle in one way only (the pathbuilder's tree structure)", "top-level bundles have a path of one class"},
	}, func(c *kit.Ctx) {
		for _, w := range append(ref.Worlds(), ref.SmallWorlds(c.Deep())...) {
			pb := impl.Pathbuilder(w.PB)
			n := 1 << len(w.Universe)
			for bits := 0; bits < n; bits++ {
				stmts := w.Subset(bits)
				c.Case(func() string { return w.PB.Name + ": " + impl.Lines(stmts) }, func() error {
					g := w.Graph(stmts)
					want, forest := ref.Extract(w.PB, g)
					if !forest {
						return kit.Skip
					}
					c.StateOf(w.PB.Name + want.Key(true))
					c.Trans(len(stmts))
					ld := impl.Load{PB: pb, Stmts: stmts, Same: w.Same, Inverse: w.Inverse}
					_, err := ld.Check(w.PB, g, want, true)
					return err
				})
			}
		}
	})
}

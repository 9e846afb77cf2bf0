// C09: the order of the lines of a data file does not matter.
package main

import (
	"fmt"
	"math/bits"

	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

func main() {
	kit.Main(kit.Spec{
		Property: "C09", Level: "model_checking",
		Rule:        "for a family of small data files (with sameAs and inverse declarations, values, children) every permutation of the lines is written as an N-Quads file and loaded as the application does (masked, with compaction at every line in half of the runs); entities, values, languages, children and provenance are compared with the brute-force extraction, which knows no order",
		Assumptions: []string{"each resource is an entity of a bundle in one way only", "each property has at most one inverse"},
	}, func(c *kit.Ctx) {
		size := kit.Pick(c, 6, 7)
		dir, done := impl.MkTemp(c.Scratch())
		defer done()
		for _, w := range append(ref.Worlds(), ref.MaskWorlds()...) {
			w := w
			pb := impl.Pathbuilder(w.PB)
			all := append(append([]ref.Stmt{}, w.Base...), w.Universe...)
			run := func(perm []ref.Stmt, compact int) {
				c.Case(func() string { return w.PB.Name + ": " + impl.Lines(perm) }, func() error {
					g := w.Graph(perm)
					want, forest := ref.Extract(w.PB, g)
					if !forest || !w.ValidInverse(perm) {
						return kit.Skip
					}
					c.StateOf(w.PB.Name + want.Key(true))
					c.Trans(len(perm))
					file := impl.WriteFile(dir, "data.nq", ref.NQuads(perm))
					ld := impl.Load{PB: pb, File: file, Same: w.Same, Inverse: w.Inverse, Mask: true, Compact: compact}
					if _, err := ld.Check(w.PB, g, want, true); err != nil {
						return fmt.Errorf("compact=%d: %w", compact, err)
					}
					return nil
				})
			}
			// choose small sub-files with an interesting result: the connected ones
			for m := 0; m < 1<<len(all); m++ {
				if bits.OnesCount(uint(m)) != size {
					continue
				}
				var ss []ref.Stmt
				for i, s := range all {
					if m>>i&1 == 1 {
						ss = append(ss, s)
					}
				}
				if !ref.Interesting(w, ss) {
					continue
				}
				permute(ss, func(p []ref.Stmt, n int) { run(append([]ref.Stmt{}, p...), n%2) })
			}
			// the complete file: every rotation and every exchange of two lines
			for i := range all {
				rot := append(append([]ref.Stmt{}, all[i:]...), all[:i]...)
				run(rot, 1)
				for j := range all[:i] {
					sw := append([]ref.Stmt{}, all...)
					sw[i], sw[j] = sw[j], sw[i]
					run(sw, i%2)
				}
			}
		}
	})
}

func permute(ss []ref.Stmt, f func([]ref.Stmt, int)) {
	n := 0
	var rec func(k int)
	rec = func(k int) {
		if k == len(ss) {
			f(ss, n)
			n++
			return
		}
		for i := k; i < len(ss); i++ {
			ss[k], ss[i] = ss[i], ss[k]
			rec(k + 1)
			ss[k], ss[i] = ss[i], ss[k]
		}
	}
	rec(0)
}

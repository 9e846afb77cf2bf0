// C11: an exported index serves the same content.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
)

const k = "http://x/"

// input is something to load.
type input struct {
	xml, nq string
	bundles []string
	uris    []string
	flags   viewer.RenderFlags
	cache   bool
}

func fromWorld(wo ref.World, stmts []ref.Stmt) input {
	in := input{xml: wo.PB.XML(), nq: ref.NQuads(stmts)}
	in.flags.Predicates = sparkl.Predicates{SameAs: impl.Labels(wo.Same), InverseOf: impl.Labels(wo.Inverse)}
	in.flags.HTMLRender, in.flags.ImageRender = true, true
	wo.PB.Walk(func(b, _ *ref.Bundle) { in.bundles = append(in.bundles, b.ID) })
	in.uris = names(stmts)
	return in
}

func names(stmts []ref.Stmt) (out []string) {
	seen := map[string]bool{}
	for _, s := range stmts {
		for i, n := range []string{s.S, s.P, s.O} {
			if !seen[n] && (i != 2 || !s.Lit) && n != "" {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return append(out, k+"nosuch")
}

func (in input) create(dir string) (glass.Glass, error) {
	cache := ""
	if in.cache {
		cache = filepath.Join(dir, "cache")
		if err := os.Mkdir(cache, 0o700); err != nil {
			return glass.Glass{}, err
		}
	}
	return glass.Create(impl.WriteFile(dir, "pb.xml", in.xml), impl.WriteFile(dir, "data.nq", in.nq), cache, in.flags, nil)
}

func view(g *glass.Glass, flags viewer.RenderFlags) *viewer.Viewer {
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = flags
	v.Prepare(g.Cache, &g.Pathbuilder)
	return v
}

func roundtrip(c *kit.Ctx, in input, targets []string) error {
	dir, done := impl.MkTemp(c.Scratch())
	defer done()
	orig, err := in.create(dir)
	if err != nil {
		return fmt.Errorf("create: %v", err)
	}
	if targets == nil {
		targets = vw.Targets(in.bundles, in.uris)
	}
	before := view(&orig, in.flags)
	var bodies []vw.Response
	for _, t := range targets {
		bodies = append(bodies, vw.Get(before, t))
	}
	f := filepath.Join(dir, "export")
	if err := glass.Export(f, orig, nil); err != nil {
		return fmt.Errorf("export: %v", err)
	}
	imp, err := glass.Import(f, nil)
	if err != nil {
		return fmt.Errorf("import: %v", err)
	}
	v := view(&imp, in.flags)
	// again, from the imported one
	g := filepath.Join(dir, "export2")
	if err := glass.Export(g, imp, nil); err != nil {
		return fmt.Errorf("second export: %v", err)
	}
	imp2, err := glass.Import(g, nil)
	if err != nil {
		return fmt.Errorf("second import: %v", err)
	}
	v2 := view(&imp2, in.flags)
	good := 0
	for i, t := range targets {
		if bodies[i].Code == 200 {
			good++
		}
		if err := bodies[i].Differs(vw.Get(v, t)); err != nil {
			return fmt.Errorf("%s before the export, and after the import: %v", t, err)
		}
		if err := bodies[i].Differs(vw.Get(v2, t)); err != nil {
			return fmt.Errorf("%s before the export, and after the second import: %v", t, err)
		}
		if err := bodies[i].Differs(vw.Get(before, t)); err != nil {
			return fmt.Errorf("%s before, and after the export: %v", t, err)
		}
	}
	if good > 3 {
		c.Nontrivial()
	}
	c.Trans(3 * len(targets))
	c.StateOf(in.xml + in.nq)
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C11", Level: "model_checking", GC: 200,
		Rule: "all datasets of the bounded universes (and all payload texts in every position) are loaded, exported and imported twice, and every page, API answer and download about every bundle and name is compared between the original, the imported and the twice imported one; for several exports every truncation, every damaged byte, every removed, repeated or zeroed section is imported, which must be refused or serve the same content",
	}, func(c *kit.Ctx) {
		damage(c)
		worlds(c)
		payloads(c)
		large(c)
	})
}

func worlds(c *kit.Ctx) {
	all := ref.Worlds()
	for wi, wo := range all {
		n := len(wo.Universe)
		for bits := 0; bits < 1<<n; bits++ {
			// complete over the first statements, and the complements
			if m := kit.Pick(c, 6, 10); bits >= 1<<m && (1<<n-1)^bits >= 1<<m {
				continue
			}
			ss := wo.Subset(bits)
			if !wo.ValidInverse(ss) {
				continue
			}
			wi, wo, bits := wi, wo, bits
			c.Case(func() string { return fmt.Sprintf("world %d %s, statements %b: %v", wi, wo.PB.Name, bits, ss) }, func() error {
				in := fromWorld(wo, ss)
				in.cache = c.Deep() && bits%16 == 0
				return roundtrip(c, in, nil)
			})
		}
	}
	for wi, wo := range ref.SmallWorlds(c.Deep()) {
		for _, bits := range []int{0, 1, 1<<len(wo.Universe) - 1, 0b0101010101, 0b1100110011} {
			wi, wo, bits := wi, wo, bits
			ss := wo.Subset(bits)
			c.Case(func() string { return fmt.Sprintf("small world %d, statements %b: %v", wi, bits, ss) }, func() error { return roundtrip(c, fromWorld(wo, ss), nil) })
		}
	}
}

// payloads puts texts into every position.
func payloads(c *kit.Ctx) {
	atoms := []string{"a", " ", "<", ">", "&", "\"", "'", "é", "😀", "\u00a0", "\u200b", "\ufeff", "&amp;", "]]>", "<!--", "%", "\\", "\u0085", "\u2028", "ß", "=", ",", "[", "\u0300"}
	words := append([]string{""}, atoms...)
	for _, a := range atoms {
		for _, b := range atoms {
			words = append(words, a+b)
			if c.Deep() {
				for _, d := range atoms {
					words = append(words, a+b+d)
				}
			}
		}
	}
	data := append([]string{"\n", "\r\n", "\t", "\x00", "\x01", "\x7f", "a\nb", "\n\n", "\ufffd", "\ufffe", "\v", "\f", "\b", " \n ", strings.Repeat("x", 70000)}, words...)
	const per = 12
	// values, languages and datatypes
	A := k + "A"
	for i := 0; i < len(data); i += per {
		part := data[i:ref.Min(i+per, len(data))]
		c.Case(func() string { return fmt.Sprintf("values %.300q", part) }, func() error {
			pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "fl", Path: []string{A}, Datatype: k + "w"}, {ID: "fh", Path: []string{A}, Datatype: k + "h", Type: "text_long"}, {ID: "fi", Path: []string{A}, Datatype: k + "i", Type: "image"}}}}}
			stmts := []ref.Stmt{{S: k + "a", P: ref.Type, O: A}}
			for j, v := range part {
				for _, p := range []string{"w", "h", "i"} {
					stmts = append(stmts, ref.Stmt{S: k + "a", P: k + p, O: v, Lit: true}, ref.Stmt{S: k + "a", P: k + p, O: v, Lit: true, Lang: fmt.Sprintf("en-x%d", j)})
				}
			}
			return roundtrip(c, fromWorld(ref.World{PB: pb}, stmts), nil)
		})
	}
	// names of resources
	for i := 0; i < len(data); i += per {
		part := data[i:ref.Min(i+per, len(data))]
		c.Case(func() string { return fmt.Sprintf("resource names with %.300q", part) }, func() error {
			pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "fl", Path: []string{A}, Datatype: k + "w"}, {ID: "fr", Path: []string{A, k + "p", A}}}}}}
			var stmts []ref.Stmt
			for j, v := range part {
				if strings.ContainsAny(v, "<>\"\\ \n\r\t\x00\x01\x7f\v\f\b") || len(v) > 1000 {
					continue
				}
				n := fmt.Sprintf("%sn%d/%s", k, j, v)
				stmts = append(stmts, ref.Stmt{S: n, P: ref.Type, O: A}, ref.Stmt{S: n, P: k + "w", O: "t", Lit: true}, ref.Stmt{S: n, P: ref.SameAs, O: n + "z"}, ref.Stmt{S: n, P: k + "p", O: n})
			}
			return roundtrip(c, fromWorld(ref.World{PB: pb, Same: []string{ref.SameAs}}, stmts), nil)
		})
	}
	// identifiers, names, types and paths of the pathbuilder
	for i, w := range words {
		if i%kit.Pick(c, 3, 1) != 0 && i > 40 {
			continue
		}
		for pos := 0; pos < 7; pos++ {
			w, pos := w, pos
			c.Case(func() string { return fmt.Sprintf("pathbuilder position %d with %q", pos, w) }, func() error {
				b := ref.Bundle{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "fl", Path: []string{A}, Datatype: k + "w"}}, Children: []ref.Bundle{{ID: "bc", Path: []string{A, k + "p", k + "C"}}}}
				class := A
				switch pos {
				case 0:
					b.Name = "n" + w + "n"
				case 1:
					b.ID = "n" + w + "n"
				case 2:
					b.Fields[0].ID = "n" + w + "n"
				case 3:
					b.Fields[0].Name = "n" + w + "n"
				case 4:
					b.Fields[0].Type = "n" + w + "n"
				case 5:
					b.Children[0].Name, b.Children[0].ID = "m"+w+"m", "m"+w+"m"
				case 6:
					if strings.ContainsAny(w, "<>\"\\ ") {
						return kit.Skip
					}
					class = A + w + "z"
					b.Path[0], b.Fields[0].Path[0], b.Children[0].Path[0] = class, class, class
					b.Fields[0].Datatype += w + "z"
				}
				stmts := []ref.Stmt{{S: k + "a", P: ref.Type, O: class}, {S: k + "a", P: b.Fields[0].Datatype, O: "v", Lit: true}, {S: k + "a", P: k + "p", O: k + "c"}, {S: k + "c", P: ref.Type, O: k + "C"}}
				return roundtrip(c, fromWorld(ref.World{PB: ref.PB{Bundles: []ref.Bundle{b}}}, stmts), nil)
			})
		}
	}
	// depth, width, emptiness
	for n := 0; n <= kit.Pick(c, 12, 24); n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("%d nested bundles", n) }, func() error {
			var mk func(d int, path []string) ref.Bundle
			var stmts []ref.Stmt
			mk = func(d int, path []string) ref.Bundle {
				b := ref.Bundle{ID: fmt.Sprintf("b%d", d), Path: path, Fields: []ref.Field{{ID: fmt.Sprintf("f%d", d), Path: path, Datatype: k + "w"}}}
				stmts = append(stmts, ref.Stmt{S: fmt.Sprintf("%se%d", k, d), P: ref.Type, O: fmt.Sprintf("%sC%d", k, d)}, ref.Stmt{S: fmt.Sprintf("%se%d", k, d), P: k + "w", O: fmt.Sprint("text", d), Lit: true})
				if d < n {
					stmts = append(stmts, ref.Stmt{S: fmt.Sprintf("%se%d", k, d), P: k + "p", O: fmt.Sprintf("%se%d", k, d+1)})
					b.Children = []ref.Bundle{mk(d+1, append(append([]string{}, path...), k+"p", fmt.Sprintf("%sC%d", k, d+1)))}
				}
				return b
			}
			b := mk(0, []string{k + "C0"})
			return roundtrip(c, fromWorld(ref.World{PB: ref.PB{Bundles: []ref.Bundle{b}}}, stmts), nil)
		})
		c.Case(func() string { return fmt.Sprintf("%d top-level bundles", n) }, func() error {
			var stmts []ref.Stmt
			var bs []ref.Bundle
			for i := 0; i < n; i++ {
				cl := fmt.Sprintf("%sC%d", k, i)
				bs = append(bs, ref.Bundle{ID: fmt.Sprintf("b%d", i), Path: []string{cl}, Fields: []ref.Field{{ID: fmt.Sprintf("f%d", i), Path: []string{cl}, Datatype: k + "w"}}})
				for e := 0; e < i%3; e++ {
					u := fmt.Sprintf("%se%d-%d", k, i, e)
					stmts = append(stmts, ref.Stmt{S: u, P: ref.Type, O: cl}, ref.Stmt{S: u, P: k + "w", O: "x", Lit: true})
				}
			}
			return roundtrip(c, fromWorld(ref.World{PB: ref.PB{Bundles: bs}}, stmts), nil)
		})
	}
}

// large crosses the sizes up to which space is reserved in advance.
func large(c *kit.Ctx) {
	for _, n := range []int{1000, 1<<16 + 3} {
		for _, kind := range []string{"entities", "values", "aliases"} {
			n, kind := n, kind
			c.Case(func() string { return fmt.Sprintf("%d %s", n, kind) }, func() error {
				A := k + "A"
				stmts := []ref.Stmt{{S: k + "a", P: ref.Type, O: A}}
				for i := 0; i < n; i++ {
					switch kind {
					case "entities":
						stmts = append(stmts, ref.Stmt{S: fmt.Sprintf("%se%d", k, i), P: ref.Type, O: A})
					case "values":
						stmts = append(stmts, ref.Stmt{S: k + "a", P: k + "w", O: fmt.Sprint(i), Lit: true})
					case "aliases":
						stmts = append(stmts, ref.Stmt{S: k + "a", P: ref.SameAs, O: fmt.Sprintf("%ss%d", k, i)})
					}
				}
				pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "fl", Path: []string{A}, Datatype: k + "w"}}}}}
				in := fromWorld(ref.World{PB: pb, Same: []string{ref.SameAs}}, stmts)
				return roundtrip(c, in, vw.Targets([]string{"ba"}, []string{k + "a", k + "e0", fmt.Sprintf("%se%d", k, n-1), k + "s0", fmt.Sprintf("%ss%d", k, n-1)}))
			})
		}
	}
}

// damage imports damaged files.
func damage(c *kit.Ctx) {
	ws := ref.Worlds()
	var inputs []input
	full := ws[4].Subset(1<<len(ws[4].Universe) - 1)
	inputs = append(inputs, fromWorld(ws[4], full), fromWorld(ws[1], ws[1].Subset(1<<len(ws[1].Universe)-1)), fromWorld(ref.World{}, nil))
	if c.Deep() {
		for _, w := range []int{0, 2, 3} {
			inputs = append(inputs, fromWorld(ws[w], ws[w].Subset(1<<len(ws[w].Universe)-1)))
		}
	}
	for ii, in := range inputs {
		dir, done := impl.MkTemp(c.Scratch())
		g, err := in.create(dir)
		var raw []byte
		f := filepath.Join(dir, "export")
		if err == nil {
			err = glass.Export(f, g, nil)
		}
		if err == nil {
			raw, err = os.ReadFile(f)
		}
		done()
		if err != nil {
			err := err
			c.Case(func() string { return fmt.Sprintf("exporting input %d", ii) }, func() error { return err })
			continue
		}
		orig := view(&g, in.flags)
		targets := vw.Targets(in.bundles, in.uris)
		try := func(b []byte, same bool) error {
			if bytes.Equal(b, raw) != same {
				return nil
			}
			dir, done := impl.MkTemp(c.Scratch())
			defer done()
			f := filepath.Join(dir, "damaged")
			if err := os.WriteFile(f, b, 0o600); err != nil {
				return err
			}
			c.Trans(1)
			imp, err := glass.Import(f, nil)
			if err != nil {
				if same {
					return err
				}
				c.Add("refused", 1)
				return nil
			}
			c.Add("accepted", 1)
			return vw.Same(orig, view(&imp, in.flags), targets)
		}
		ii, raw := ii, raw
		name := func(what string) func() string {
			return func() string { return fmt.Sprintf("export %d (%d bytes), %s", ii, len(raw), what) }
		}
		c.Case(name("undamaged"), func() error { return try(raw, true) })
		// the length of an export varies with the order of maps
		const blocks = 400
		for n := 0; n < blocks; n++ {
			n := n
			every := func(f func(i int) error) func() error {
				return func() error {
					for i := n; i < len(raw); i += blocks {
						if err := f(i); err != nil {
							return fmt.Errorf("position %d: %v", i, err)
						}
					}
					return nil
				}
			}
			c.Case(name(fmt.Sprintf("cut at positions %d+%d*n", n, blocks)), every(func(i int) error {
				c.Nontrivial()
				dir, done := impl.MkTemp(c.Scratch())
				defer done()
				f := filepath.Join(dir, "cut")
				if err := os.WriteFile(f, raw[:i], 0o600); err != nil {
					return err
				}
				if _, err := glass.Import(f, nil); err == nil {
					return fmt.Errorf("imported")
				}
				return nil
			}))
			c.Case(name(fmt.Sprintf("bytes %d+%d*n changed", n, blocks)), every(func(i int) error {
				c.Nontrivial()
				n := 8
				if c.Deep() {
					n = 255
				}
				for x := 0; x < n; x++ {
					b := append([]byte{}, raw...)
					if c.Deep() {
						b[i] += byte(x + 1)
					} else {
						b[i] ^= 1 << x
					}
					if err := try(b, false); err != nil {
						return fmt.Errorf("%#x instead of %#x: %v", b[i], raw[i], err)
					}
				}
				return nil
			}))
			c.Case(name(fmt.Sprintf("sections at %d+%d*n", n, blocks)), every(func(i int) error {
				if !c.Deep() && i%4 != 1 && i > 20 && i < len(raw)-20 {
					return nil
				}
				for _, n := range kit.Pick(c, []int{1, 4, 64, 512}, []int{1, 2, 3, 4, 8, 16, 64, 256, 512, 1024}) {
					if i+n > len(raw) {
						break
					}
					c.Nontrivial()
					cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
					for how, b := range map[string][]byte{
						"removed":  cat(raw[:i], raw[i+n:]),
						"zeroed":   cat(raw[:i], make([]byte, n), raw[i+n:]),
						"repeated": cat(raw[:i+n], raw[i:i+n], raw[i+n:]),
						"inserted": cat(raw[:i], make([]byte, n), raw[i:]),
					} {
						if err := try(b, false); err != nil {
							return fmt.Errorf("%d bytes %s: %v", n, how, err)
						}
					}
				}
				return nil
			}))
		}
		for jj, other := range [][]byte{raw, []byte("x"), {0}, bytes.Repeat([]byte{0}, 1024), []byte("some text\n")} {
			other := other
			c.Case(name(fmt.Sprintf("with trailing bytes %d", jj)), func() error { return try(append(append([]byte{}, raw...), other...), false) })
			c.Case(name(fmt.Sprintf("with leading bytes %d", jj)), func() error { return try(append(append([]byte{}, other...), raw...), false) })
		}
	}
}

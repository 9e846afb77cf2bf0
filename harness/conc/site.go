package conc

import (
	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
)

const k = "http://x/"

// Site is data being displayed
type Site struct {
	Name    string
	World   ref.World
	Stmts   []ref.Stmt
	Flags   viewer.RenderFlags
	Targets []string

	Loaded impl.Loaded
	Alone  map[string]vw.Response
}

// Load loads the data.
func (s *Site) Load() error {
	if s.Alone != nil {
		return nil
	}
	var err error
	s.Loaded, err = impl.Load{PB: impl.Pathbuilder(s.World.PB), Stmts: s.Stmts, Same: s.World.Same, Inverse: s.World.Inverse}.Run()
	if err != nil {
		return err
	}
	s.Alone = map[string]vw.Response{}
	return nil
}

// copyOf copies entities
func copyOf(es []wisski.Entity) []wisski.Entity {
	out := append(make([]wisski.Entity, 0, len(es)), es...)
	for i, e := range out {
		f := map[string][]wisski.FieldValue{}
		for n, v := range e.Fields {
			f[n] = append(make([]wisski.FieldValue, 0, len(v)), v...)
		}
		c := map[string][]wisski.Entity{}
		for n, v := range e.Children {
			c[n] = copyOf(v)
		}
		out[i].Fields, out[i].Children = f, c
		out[i].Path = append(make([]impl.Label, 0, len(e.Path)), e.Path...)
		out[i].Triples = append(make([]igraph.Triple, 0, len(e.Triples)), e.Triples...)
	}
	return out
}

// Parts makes what a viewer displays, sharing nothing with others.
func (s *Site) Parts() (*sparkl.Cache, *pathbuilder.Pathbuilder, error) {
	bundles := map[string][]wisski.Entity{}
	for n, es := range s.Loaded.Bundles {
		bundles[n] = copyOf(es)
	}
	c, err := vw.Cache(bundles, s.Loaded.Identity)
	return c, impl.Pathbuilder(s.World.PB), err
}

// Viewer makes a fresh viewer which shares nothing with others.
func (s *Site) Viewer() (*viewer.Viewer, error) {
	c, pb, err := s.Parts()
	if err != nil {
		return nil, err
	}
	return vw.Viewer(c, pb, s.Flags), nil
}

// Answer is the answer to a request which is alone.
func (s *Site) Answer(t string) (vw.Response, error) {
	if r, ok := s.Alone[t]; ok {
		return r, nil
	}
	v, err := s.Viewer()
	if err != nil {
		return vw.Response{}, err
	}
	r := vw.Get(v, t)
	s.Alone[t] = r
	return r, nil
}

// Sites lists some small sites.
func Sites() (out []*Site) {
	for _, w := range ref.Worlds() {
		s := &Site{Name: w.PB.Name, World: w, Stmts: w.Subset(1<<len(w.Universe) - 1)}
		switch w.PB.Name {
		case "nested":
			s.Targets = vw.Targets([]string{"ba"}, []string{k + "a", k + "a2"})
			s.Flags = viewer.RenderFlags{HTMLRender: true, ImageRender: true, PublicURL: "http://x,http://y", TipsyURL: "https://tipsy.example"}
		case "same":
			s.Targets = vw.Targets([]string{"ba"}, []string{k + "a", k + "a2", k + "a3"})
			s.Flags = viewer.RenderFlags{PublicURL: "http://x", StrictCSP: true, Predicates: sparkl.Predicates{SameAs: impl.Labels(w.Same)}}
		case "siblings":
			s.Stmts = w.Subset(1<<12 - 1) // nothing in two bundles
			s.Targets = vw.Targets([]string{"ba", "bb"}, []string{k + "a", k + "b"})
		default:
			continue
		}
		if s.Name == "nested" {
			// images and links to be rewritten in a field
			s.Stmts = append(s.Stmts, ref.Stmt{S: k + "a", P: k + "w", O: `<p>see <a href="http://x/wisski/get?uri=http%3A%2F%2Fx%2Fa2">this</a></p><img src="http://y/i.png">`, Lit: true},
				ref.Stmt{S: k + "a2", P: k + "w", O: `<a href="https://y/wisski/navigate/2/view">that</a>`, Lit: true})
		}
		s.Targets = append(s.Targets, "/about", "/favicon.ico")
		out = append(out, s)
	}
	return
}

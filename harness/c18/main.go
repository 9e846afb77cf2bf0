// C18: downloads hold exactly the statements of an entity.
package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/rdfx"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
)

// key renders a statement in class representatives.
func key(g *ref.Graph, t rdfx.Triple) string {
	if t.Lit {
		return fmt.Sprintf("%q %q text %q@%q", g.Min(t.S), g.Min(t.P), t.O, t.Lang)
	}
	return fmt.Sprintf("%q %q %q", g.Min(t.S), g.Min(t.P), g.Min(t.O))
}

// behind collects the statements behind an entity, with the number of times
// each was stated.
func behind(g *ref.Graph, e *ref.Entity) map[string]int {
	out := map[string]int{}
	stated := map[string]map[ref.Stmt]bool{}
	for _, v := range g.Values {
		k := string(ref.ValueProv(v))
		if stated[k] == nil {
			stated[k] = map[ref.Stmt]bool{}
		}
		stated[k][v.Why] = true
	}
	add := func(ps []ref.Prov) {
		for _, p := range ps {
			k := string(p)
			if n := len(stated[k]); n > 0 {
				out[k] = n
				continue
			}
			k = k[:strings.LastIndex(k, " inferred=")]
			out[k] = 1
		}
	}
	var rec func(e *ref.Entity)
	rec = func(e *ref.Entity) {
		add(e.Prov)
		for _, vs := range e.Fields {
			for _, v := range vs {
				add(v.Prov)
			}
		}
		for _, cs := range e.Children {
			for _, c := range cs {
				rec(c)
			}
		}
	}
	rec(e)
	return out
}

func check(v *viewer.Viewer, g *ref.Graph, identity map[string]string, bundle string, e *ref.Entity, names []string) error {
	want := behind(g, e)
	for _, f := range []struct {
		route, ctype string
		parse        func(string) ([]rdfx.Triple, error)
	}{{"ntriples", "application/n-triples", rdfx.NTriples}, {"turtle", "text/turtle", rdfx.Turtle}} {
		for _, name := range names {
			res := vw.Get(v, "/api/v1/"+f.route+"/"+url.PathEscape(bundle)+"?uri="+url.QueryEscape(name))
			if res.Code != 200 {
				return fmt.Errorf("%s of %q answers %d", f.route, name, res.Code)
			}
			if ct := res.Header.Get("Content-Type"); !strings.HasPrefix(ct, f.ctype) {
				return fmt.Errorf("%s is served as %q", f.route, ct)
			}
			ts, err := f.parse(res.Body)
			if err != nil {
				return fmt.Errorf("%s of %q is not well-formed: %v\n%s", f.route, name, err, res.Body)
			}
			got := map[string]int{}
			for _, t := range ts {
				if t.Type != "" {
					return fmt.Errorf("%s of %q: value %q has the type %q", f.route, name, t.O, t.Type)
				}
				terms := []string{t.S, t.P}
				if !t.Lit {
					terms = append(terms, t.O)
				}
				for _, x := range terms {
					if c, ok := identity[x]; ok && c != x {
						return fmt.Errorf("%s of %q uses the name %q instead of the canonical %q", f.route, name, x, c)
					}
				}
				got[key(g, t)]++
			}
			for k, n := range got {
				m := want[k]
				if m == 0 {
					return fmt.Errorf("%s of %q holds the statement %s, which is not behind the entity\n%s", f.route, name, k, res.Body)
				}
				if n > m {
					return fmt.Errorf("%s of %q repeats the statement %s (%d times, stated %d times)\n%s", f.route, name, k, n, m, res.Body)
				}
			}
			for k := range want {
				if got[k] == 0 {
					return fmt.Errorf("%s of %q lacks the statement %s\n%s", f.route, name, k, res.Body)
				}
			}
		}
	}
	return nil
}

func world(c *kit.Ctx, pb ref.PB, same, inv []string, stmts []ref.Stmt) error {
	d := ref.Split(stmts, same, inv)
	g := ref.Build(d.Stmts, d.Same, d.Inverse)
	want, forest := ref.Extract(pb, g)
	if !forest {
		return kit.Skip
	}
	v, ld, err := vw.Load(impl.Load{PB: impl.Pathbuilder(pb), Mask: true, Same: same, Inverse: inv, Stmts: stmts}, viewer.RenderFlags{})
	if err != nil {
		return err
	}
	for b, es := range want {
		for _, e := range es {
			// the class may be known under any of its names
			names := []string{e.URI}
			for x := range ld.Identity {
				if g.Min(x) == e.URI && x != e.URI {
					names = append(names, x)
				}
			}
			sort.Strings(names)
			if err := check(v, g, ld.Identity, b, e, names); err != nil {
				return err
			}
			c.Trans(2)
			if len(e.Prov)+len(e.Fields) > 1 {
				c.Nontrivial()
			}
		}
	}
	c.StateOf(g.StateKey())
	return nil
}

const ex = "http://x/"

func main() {
	kit.Main(kit.Spec{
		Property: "C18", Level: "model_checking",
		Rule: "every entity of the datasets is downloaded in both formats under each of its names, read back with independent strict readers, and compared with the statements the reference extraction says are behind it: all subsets of bounded universes over a family of pathbuilders (identities, inverses, children), all texts over a critical alphabet up to a length with four language tags, all names over a critical alphabet in every position, all orders of statements over several namespaces",
	}, func(c *kit.Ctx) {
		for wi, w := range ref.Worlds() {
			n := ref.Min(len(w.Universe), kit.Pick(c, 9, 14))
			for mask := 0; mask < 1<<n; mask++ {
				for rev := 0; rev < 2; rev++ {
					w, wi, mask, rev := w, wi, mask, rev
					c.Case(func() string { return fmt.Sprintf("world %d %s, subset %b, reversed %d", wi, w.PB.Name, mask, rev) }, func() error {
						stmts := append([]ref.Stmt{}, w.Base...)
						for i, s := range w.Universe {
							if i >= n || mask>>i&1 == 1 {
								if i >= n && i%2 == 0 {
									continue
								}
								stmts = append(stmts, s)
							}
						}
						if rev == 1 {
							for i, j := 0, len(stmts)-1; i < j; i, j = i+1, j-1 {
								stmts[i], stmts[j] = stmts[j], stmts[i]
							}
						}
						return world(c, w.PB, w.Same, w.Inverse, stmts)
					})
				}
			}
		}
		texts(c)
		names(c)
		orders(c)
		special(c)
	})
}

var A, B, p, w = ex + "A", ex + "B", ex + "p", ex + "w"

func flat() ref.PB {
	return ref.PB{Name: "texts", Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "f", Path: []string{A}, Datatype: w}, {ID: "g", Path: []string{A, p, B}, Datatype: w}, {ID: "h", Path: []string{A, p, B}}},
		Children: []ref.Bundle{{ID: "bc", Path: []string{A, ex + "q", ex + "C"}, Fields: []ref.Field{{ID: "k", Path: []string{A, ex + "q", ex + "C"}, Datatype: w}}}}}}}
}

func typ(s, c string) ref.Stmt           { return ref.Stmt{S: s, P: ref.Type, O: c} }
func link(s, p, o string) ref.Stmt       { return ref.Stmt{S: s, P: p, O: o} }
func val(s, p, text, la string) ref.Stmt { return ref.Stmt{S: s, P: p, O: text, Lit: true, Lang: la} }

func texts(c *kit.Ctx) {
	alpha := []string{"a", "\"", "\\", "'", "\n", "\r", "\t", "@", "^", "<", ">", ".", ";", ",", " ", "#", ":", "u", "é", "😀", "\u0085", "\u2028", "\x01", "\x7f", "\ufeff", "0", "-"}
	var words []string
	var rec func(prefix string, n int)
	rec = func(prefix string, n int) {
		words = append(words, prefix)
		if n == 0 {
			return
		}
		for _, s := range alpha {
			rec(prefix+s, n-1)
		}
	}
	rec("", kit.Pick(c, 2, 3))
	words = append(words, "\"@en", "\"^^<http://x>", "\\u0041", "\\U00000041", "http://x/a", "<http://x/a>", "true", "false", "12", "-1.5e3", "\"\"\"", "'''", "_:b", " .\n<http://x/evil> <http://x/p> <http://x/o> ", "\x00", "\ufffd", "\u00a0", "&amp;", "@prefix a: <b> .")
	const per = 20
	for len(words) > 0 {
		n := ref.Min(per, len(words))
		part := words[:n]
		words = words[n:]
		for _, la := range []string{"", "en", "en-GB", "x-a1-B2"} {
			la := la
			c.Case(func() string { return fmt.Sprintf("texts %q in %q", part, la) }, func() error {
				stmts := []ref.Stmt{typ(ex+"a", A), link(ex+"a", p, ex+"b"), typ(ex+"b", B), link(ex+"a", ex+"q", ex+"c"), typ(ex+"c", ex+"C")}
				for i, t := range part {
					stmts = append(stmts, val(ex+[]string{"a", "b", "c"}[i%3], w, t, la), val(ex+[]string{"a", "b", "c"}[(i+1)%3], w, t, ""))
					one := fmt.Sprint(ex, "one", i)
					stmts = append(stmts, typ(one, A), val(one, w, t, la))
				}
				return world(c, flat(), nil, nil, stmts)
			})
		}
	}
}

func names(c *kit.Ctx) {
	alpha := []string{"a", "1", "_", "~", ".", "-", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", "/", "?", "#", "@", "%", ":", "[", "]", "%2", "%20", "é", "×", "÷", "\u00a0", "\u0085", "\u2013", "\u2028", "\u200b", "\u3000", "😀", "\u0301", "\u00b7", "\u037e", "\ufffd", "\ue000"}
	var words []string
	for _, x := range alpha {
		words = append(words, x)
		for _, y := range alpha {
			words = append(words, x+y)
			if c.Deep() {
				for _, z := range alpha {
					words = append(words, x+y+z)
				}
			}
		}
	}
	for i := range words {
		i := i
		word := words[i]
		for _, base := range []string{"http://n/", "urn:n", "http://n/d#"} {
			n, other := base+word, base+words[(i*7+1)%len(words)]
			for pos := 0; pos < 6; pos++ {
				pos := pos
				c.Case(func() string { return fmt.Sprintf("name %q in position %d", n, pos) }, func() error {
					a, A, p, b, w, C := ex+"a", A, p, ex+"b", w, ex+"C"
					switch pos {
					case 0:
						a = n
					case 1:
						A = n
					case 2:
						p = n
					case 3:
						b = n
					case 4:
						w = n
					case 5:
						a, b = n, other
					}
					if a == b {
						return kit.Skip
					}
					pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "f", Path: []string{A}, Datatype: w}, {ID: "h", Path: []string{A, p, C}}}}}}
					return world(c, pb, nil, nil, []ref.Stmt{typ(a, A), val(a, w, "x", ""), link(a, p, b), typ(b, C), link(a, p, ex+"b2"), typ(ex+"b2", C), val(a, w, "y", "en")})
				})
			}
		}
	}
}

// special explores names which no document can hold like other names.
func special(c *kit.Ctx) {
	pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "h", Path: []string{A, p, B}}}}}}
	c.Case(func() string { return "a link to rdf:type" }, func() error {
		return only("turtle-type-as-object", "name expected", world(c, pb, nil, nil, []ref.Stmt{typ(ex+"a", A), link(ex+"a", p, ref.Type), typ(ref.Type, B)}))
	})
	c.Case(func() string { return "a link to a blank node" }, func() error {
		return only("blank-node-as-iri", `relative IRI "b0"`, world(c, pb, nil, nil, []ref.Stmt{typ(ex+"a", A), link(ex+"a", p, "b0"), typ("b0", B)}))
	})
}

// only gives a particular failure an identity.
func only(key, text string, err error) error {
	if err != nil && strings.Contains(err.Error(), text) {
		return kit.Keyed(key, err)
	}
	return err
}

// orders explores all orders of statements over several namespaces.
func orders(c *kit.Ctx) {
	sets := [][]ref.Stmt{
		{typ("http://n1/a", "http://n2/A"), link("http://n1/a", "http://n3/p", "http://n4/b"), typ("http://n4/b", "http://n2/B"), val("http://n1/a", "http://n3/w", "x", ""), val("http://n1/a", "http://n3/w", "", "en"), link("http://n1/a", "http://n3/p", "http://n5/c"), typ("http://n5/c", "http://n2/B")},
		{typ("urn:a", "urn:A"), link("urn:a", "urn:p", "urn:b"), typ("urn:b", "urn:B"), val("urn:a", "urn:w", "x", ""), val("urn:b", "urn:w", "x", ""), link("urn:a", "urn:p", "http://n5/c"), typ("http://n5/c", "urn:B")},
		{typ("http://n1/a", "http://n1/A"), link("http://n1/a", "http://n1/p", "http://n1/b"), typ("http://n1/b", "http://n1/B"), val("http://n1/a", "http://n1/w", "x", "de"), val("http://n1/b", "http://n6#w", "", ""), link("http://n1/a", "http://n1/p", "http://n1/a"), typ("http://n1/a", "http://n1/B")},
	}
	for si, set := range sets {
		A, B, p, w := set[0].O, set[2].O, set[1].P, set[3].P
		pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "f", Path: []string{A}, Datatype: w}, {ID: "g", Path: []string{A, p, B}, Datatype: set[4].P}, {ID: "h", Path: []string{A, p, B}}}}}}
		var perm func(k int, s []ref.Stmt)
		perm = func(k int, s []ref.Stmt) {
			if k == len(s) {
				cp := append([]ref.Stmt{}, s...)
				c.Case(func() string { return fmt.Sprintf("set %d in order %v", si, cp) }, func() error { return world(c, pb, nil, nil, cp) })
				return
			}
			for i := k; i < len(s); i++ {
				s[k], s[i] = s[i], s[k]
				perm(k+1, s)
				s[k], s[i] = s[i], s[k]
			}
		}
		perm(0, append([]ref.Stmt{}, set...))
	}
}

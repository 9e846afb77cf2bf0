// Package impl drives the code under test through its exported interfaces and
// renders what it answers in the form of the reference models.
package impl

import (
	"fmt"
	"os"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

type Label = impl.Label

// AddStmt adds a statement to an index.
func AddStmt(index *igraph.Index, s ref.Stmt) error {
	switch {
	case !s.Lit:
		return index.AddTriple(Label(s.S), Label(s.P), Label(s.O))
	case s.Lang == "":
		return index.AddData(Label(s.S), Label(s.P), impl.Datum(s.O))
	default:
		return index.AddLangData(Label(s.S), Label(s.P), impl.Datum(s.O), impl.Language(s.Lang))
	}
}

// Engine returns a memory engine, or a disk engine in a fresh directory under dir.
func Engine(dir string) (igraph.Engine, func()) {
	if dir == "" {
		return sparkl.NewEngine(""), func() {}
	}
	p, err := os.MkdirTemp(dir, "e")
	if err != nil {
		panic(err)
	}
	return sparkl.NewEngine(p), func() { os.RemoveAll(p) }
}

// BuildIndex builds a finalised index. compactAfter lists statement counts after which Compact is called.
func BuildIndex(engine igraph.Engine, same, inverse [][2]string, stmts []ref.Stmt, compactAfter int) (*igraph.Index, error) {
	index := &igraph.Index{}
	if err := index.Reset(engine); err != nil {
		return nil, err
	}
	err := func() error {
		for _, s := range same {
			if err := index.MarkIdentical(Label(s[0]), Label(s[1])); err != nil {
				return err
			}
		}
		for _, i := range inverse {
			if err := index.MarkInverse(Label(i[0]), Label(i[1])); err != nil {
				return err
			}
		}
		for n, s := range stmts {
			if n == compactAfter {
				if err := index.Compact(); err != nil {
					return err
				}
			}
			if err := AddStmt(index, s); err != nil {
				return err
			}
		}
		return index.Finalize()
	}()
	if err != nil {
		index.Close()
		return nil, err
	}
	return index, nil
}

// ProvOf renders a provenance entry, and checks it against the reference graph.
func ProvOf(g *ref.Graph, t igraph.Triple) (ref.Prov, error) {
	lit := ref.Stmt{S: string(t.Subject), P: string(t.Predicate), O: string(t.Object)}
	if t.Role == igraph.Data {
		lit.Lit, lit.O, lit.Lang = true, string(t.Datum), string(t.Language)
		v := &ref.Value{S: g.Min(string(t.SSubject)), P: g.Min(string(t.SPredicate)), Text: string(t.Datum), Lang: string(t.Language)}
		if !g.HasValue(lit) {
			return "", fmt.Errorf("provenance names the statement %v, which was never stated", lit)
		}
		if !g.Same(lit.S, string(t.SSubject)) || !g.Same(lit.P, string(t.SPredicate)) {
			return "", fmt.Errorf("provenance of %v: canonical form %q %q", lit, t.SSubject, t.SPredicate)
		}
		return ref.ValueProv(v), nil
	}
	if t.Datum != "" || t.Language != "" {
		return "", fmt.Errorf("provenance of link %v carries the text %q@%q", lit, t.Datum, t.Language)
	}
	e := g.Edge(string(t.SSubject), string(t.SPredicate), string(t.SObject))
	if e == nil {
		return "", fmt.Errorf("provenance names the link %q %q %q, which does not exist", t.SSubject, t.SPredicate, t.SObject)
	}
	if !e.Justifies(lit) {
		return "", fmt.Errorf("provenance of the link %s: statement %v is not one of %v", ref.EdgeProv(e), lit, e.Why)
	}
	e2 := *e
	e2.Inferred = t.Inferred()
	return ref.EdgeProv(&e2), nil
}

// Query runs a query on the index.
func Query(g *ref.Graph, index *igraph.Index, steps []ref.Step, size bool) (keys []string, err error) {
	set, err := index.PathsStarting(Label(steps[0].P), Label(steps[0].O))
	if err != nil {
		return nil, err
	}
	for _, s := range steps[1:] {
		if s.End {
			err = set.Ending(Label(s.P), Label(s.O))
		} else {
			err = set.Connected(Label(s.P))
		}
		if err != nil {
			return nil, err
		}
	}
	n := -1
	if size {
		if n, err = set.Size(); err != nil {
			return nil, err
		}
	}
	it := set.Paths()
	defer it.Close()
	for it.Next() {
		p := it.Datum()
		var r ref.PathResult
		for _, n := range p.Nodes {
			r.Nodes = append(r.Nodes, g.Min(string(n)))
		}
		r.HasVal, r.Text, r.Lang = p.HasDatum, string(p.Datum), string(p.Language)
		for _, t := range p.Triples {
			pr, err := ProvOf(g, t)
			if err != nil {
				return nil, err
			}
			r.Prov = append(r.Prov, pr)
		}
		want := len(p.Nodes)
		if p.HasDatum {
			want++
			if string(p.Value()) != string(p.Datum) {
				return nil, fmt.Errorf("path value %q differs from its text %q", p.Value(), p.Datum)
			}
		} else if string(p.Value()) != string(p.Nodes[len(p.Nodes)-1]) {
			return nil, fmt.Errorf("path value %q is not its last node %q", p.Value(), p.Nodes)
		}
		if len(p.Edges) != want-1 {
			return nil, fmt.Errorf("path with %d nodes has %d edges", want, len(p.Edges))
		}
		i := 0
		for _, s := range steps[1:] {
			if !s.End {
				if !g.Same(string(p.Edges[i]), s.P) {
					return nil, fmt.Errorf("edge %d is %q, want %q", i, p.Edges[i], s.P)
				}
				i++
			}
		}
		if err := order(g, steps, p); err != nil {
			return nil, err
		}
		keys = append(keys, r.Key())
	}
	if err := it.Err(); err != nil {
		return nil, err
	}
	if n >= 0 && n != len(keys) {
		return nil, fmt.Errorf("size %d but %d paths", n, len(keys))
	}
	return keys, nil
}

// order checks that the triples of a path are in its order:
// each node is followed by those about it, and the link to the next comes before those about the next.
func order(g *ref.Graph, steps []ref.Step, p igraph.Path) error {
	var ends []string
	for _, n := range p.Nodes {
		ends = append(ends, string(n))
	}
	about := func(t igraph.Triple, s, pred, o string, datum bool) bool {
		if !g.Same(string(t.SSubject), s) || !g.Same(string(t.SPredicate), pred) {
			return false
		}
		if datum {
			return t.Role == igraph.Data && t.Datum == p.Datum && t.Language == p.Language
		}
		return t.Role != igraph.Data && g.Same(string(t.SObject), o)
	}
	rest, node, group := p.Triples, 0, []func(igraph.Triple) bool{}
	flush := func() error {
		if len(rest) < len(group) {
			return fmt.Errorf("path has %d triples, which are too few: %v", len(p.Triples), steps)
		}
		used := make([]bool, len(group))
	each:
		for _, want := range group {
			for i, t := range rest[:len(group)] {
				if !used[i] && want(t) {
					used[i] = true
					continue each
				}
			}
			return fmt.Errorf("the triples %v of the path with nodes %q are not in the order of the path", p.Triples, p.Nodes)
		}
		rest, group = rest[len(group):], nil
		return nil
	}
	for i, s := range steps {
		at := ""
		if node < len(ends) {
			at = ends[node]
		}
		s := s
		switch {
		case i == 0 || s.End:
			group = append(group, func(t igraph.Triple) bool { return about(t, at, s.P, s.O, false) })
		default:
			if err := flush(); err != nil {
				return err
			}
			node++
			to := ""
			if node < len(ends) {
				to = ends[node]
			}
			last := node == len(ends) && p.HasDatum
			group = append(group, func(t igraph.Triple) bool { return about(t, at, s.P, to, last) })
		}
	}
	return flush()
}

// CompareQuery checks one query against the reference.
func CompareQuery(g *ref.Graph, index *igraph.Index, steps []ref.Step, size bool) error {
	var want []string
	for _, r := range g.Query(steps) {
		want = append(want, r.Key())
	}
	got, err := Query(g, index, steps, size)
	if err != nil {
		return fmt.Errorf("query %v: %w", steps, err)
	}
	if w, h := ref.Multiset(want), ref.Multiset(got); w != h {
		return fmt.Errorf("query %v:\n  expected %d paths:\n%s\n  got %d paths:\n%s", steps, len(want), w, len(got), h)
	}
	return nil
}

// Queries enumerates all queries over the alphabets up to the given number of extensions.
func Queries(preds, objs []string, depth int) (out [][]ref.Step) {
	var ext []ref.Step
	for _, p := range preds {
		ext = append(ext, ref.Step{P: p})
		for _, o := range objs {
			ext = append(ext, ref.Step{End: true, P: p, O: o})
		}
	}
	var rec func(prefix []ref.Step, d int)
	rec = func(prefix []ref.Step, d int) {
		out = append(out, append([]ref.Step{}, prefix...))
		if d == 0 {
			return
		}
		for _, e := range ext {
			rec(append(prefix, e), d-1)
		}
	}
	for _, p := range preds {
		for _, o := range objs {
			rec([]ref.Step{{P: p, O: o}}, depth)
		}
	}
	return
}

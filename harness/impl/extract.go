package impl

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

// Pathbuilder loads a pathbuilder through the real reader.
func Pathbuilder(pb ref.PB) *pathbuilder.Pathbuilder {
	p, err := pbxml.Unmarshal([]byte(pb.XML()))
	if err != nil {
		panic(fmt.Sprintf("pathbuilder %s: %v", pb.Name, err))
	}
	return &p
}

// Tokens is a source of statements.
type Tokens struct {
	Stmts []ref.Stmt
	pos   int
}

func (t *Tokens) Open() error  { t.pos = 0; return nil }
func (t *Tokens) Close() error { return nil }

// Tok turns a statement into a token.
func Tok(s ref.Stmt) sparkl.Token {
	tok := sparkl.Token{Subject: Label(s.S), Predicate: Label(s.P)}
	if s.Lit {
		tok.HasDatum, tok.Datum, tok.Language = true, impl.Datum(s.O), impl.Language(s.Lang)
	} else {
		tok.Object = Label(s.O)
	}
	return tok
}

func (t *Tokens) Next() sparkl.Token {
	if t.pos >= len(t.Stmts) {
		return sparkl.Token{Err: io.EOF}
	}
	s := t.Stmts[t.pos]
	t.pos++
	return Tok(s)
}

// Load describes one way of loading data.
type Load struct {
	PB      *pathbuilder.Pathbuilder
	Mask    bool
	Compact int
	Dir     string // cache directory, "" for memory
	Same    []string
	Inverse []string
	File    string // read this file instead of Stmts
	Stmts   []ref.Stmt
}

func Labels(ss []string) (out []Label) {
	for _, s := range ss {
		out = append(out, Label(s))
	}
	return
}

// Loaded is the result of a load.
type Loaded struct {
	Bundles  map[string][]wisski.Entity
	Identity map[string]string
}

// Run loads the data as the application does.
func (l Load) Run() (out Loaded, err error) {
	engine := sparkl.NewEngine(l.Dir)
	bengine := storages.NewBundleEngine(l.Dir)
	opts := sparkl.IndexOptions{CompactInterval: l.Compact}
	if l.Mask {
		opts.Mask = l.PB
	}
	preds := sparkl.Predicates{SameAs: Labels(l.Same), InverseOf: Labels(l.Inverse)}
	var index *igraph.Index
	if l.File != "" {
		index, err = sparkl.LoadIndex(l.File, preds, engine, opts, nil)
	} else {
		index, err = sparkl.MakeIndex(&Tokens{Stmts: l.Stmts}, preds, engine, opts, nil)
	}
	if err != nil {
		return out, fmt.Errorf("index: %w", err)
	}
	defer index.Close()
	out.Bundles, err = sparkl.LoadPathbuilder(l.PB, index, bengine, nil)
	if err != nil {
		return out, fmt.Errorf("extract: %w", err)
	}
	ident := imap.MakeMemory[Label, Label](0)
	if err := index.IdentityMap(&ident); err != nil {
		return out, err
	}
	out.Identity = map[string]string{}
	err = ident.Iterate(func(a, b Label) error { out.Identity[string(a)] = string(b); return nil })
	return out, err
}

// Render turns extracted entities into the reference form, checking that
// every name of a class is reported under one spelling.
func Render(pb ref.PB, g *ref.Graph, bundles map[string][]wisski.Entity, identity map[string]string) (ref.Result, error) {
	canon := map[string]string{}
	label := func(l Label) (string, error) {
		m := g.Min(string(l))
		if c, ok := canon[m]; ok && c != string(l) {
			return "", fmt.Errorf("identical names are reported as %q and as %q", c, l)
		}
		canon[m] = string(l)
		if identity != nil {
			if c, ok := identity[string(l)]; ok && c != string(l) {
				return "", fmt.Errorf("%q is reported although its canonical name is %q", l, c)
			}
		}
		return m, nil
	}
	labels := func(ls []Label) (out []string, err error) {
		for _, l := range ls {
			m, err := label(l)
			if err != nil {
				return nil, err
			}
			out = append(out, m)
		}
		return out, nil
	}
	provs := func(ts []igraph.Triple) (out []ref.Prov, err error) {
		for _, t := range ts {
			p, err := ProvOf(g, t)
			if err != nil {
				return nil, err
			}
			out = append(out, p)
		}
		return
	}
	var rec func(b *ref.Bundle, e *wisski.Entity) (*ref.Entity, error)
	rec = func(b *ref.Bundle, e *wisski.Entity) (*ref.Entity, error) {
		out := &ref.Entity{Fields: map[string][]ref.Value2{}, Children: map[string][]*ref.Entity{}}
		var err error
		if out.URI, err = label(e.URI); err != nil {
			return nil, err
		}
		if out.Path, err = labels(e.Path); err != nil {
			return nil, err
		}
		if out.Prov, err = provs(e.Triples); err != nil {
			return nil, err
		}
		for name, values := range e.Fields {
			var f *ref.Field
			for i := range b.Fields {
				if b.Fields[i].ID == name {
					f = &b.Fields[i]
				}
			}
			if f == nil {
				if len(values) > 0 {
					return nil, fmt.Errorf("entity %q of %q has values for an unknown field %q", e.URI, b.ID, name)
				}
				continue
			}
			nodes := 0
			for _, s := range ref.PathSteps(f.Path, f.Datatype) {
				if !s.End {
					nodes++
				}
			}
			for _, v := range values {
				rv := ref.Value2{Link: len(v.Path) == nodes, Text: string(v.Value), Lang: string(v.Language)}
				if rv.Path, err = labels(v.Path); err != nil {
					return nil, err
				}
				if rv.Prov, err = provs(v.Triples); err != nil {
					return nil, err
				}
				if rv.Link {
					if string(v.Value) != string(v.Path[len(v.Path)-1]) {
						return nil, fmt.Errorf("entity %q field %q: link value %q is not the end of its path %q", e.URI, name, v.Value, v.Path)
					}
					if rv.Text, err = label(Label(v.Value)); err != nil {
						return nil, err
					}
				}
				out.Fields[name] = append(out.Fields[name], rv)
			}
		}
		for name, kids := range e.Children {
			var cb *ref.Bundle
			for i := range b.Children {
				if b.Children[i].ID == name {
					cb = &b.Children[i]
				}
			}
			if cb == nil {
				if len(kids) > 0 {
					return nil, fmt.Errorf("entity %q of %q has children in an unknown bundle %q", e.URI, b.ID, name)
				}
				continue
			}
			for i := range kids {
				k, err := rec(cb, &kids[i])
				if err != nil {
					return nil, err
				}
				out.Children[name] = append(out.Children[name], k)
			}
		}
		return out, nil
	}
	res := ref.Result{}
	for name, es := range bundles {
		var b *ref.Bundle
		for i := range pb.Bundles {
			if pb.Bundles[i].ID == name {
				b = &pb.Bundles[i]
			}
		}
		if b == nil {
			return nil, fmt.Errorf("result has an unknown bundle %q", name)
		}
		res[name] = []*ref.Entity{}
		for i := range es {
			e, err := rec(b, &es[i])
			if err != nil {
				return nil, err
			}
			res[name] = append(res[name], e)
		}
	}
	return res, nil
}

// Check loads and compares with the reference result.
func (l Load) Check(pb ref.PB, g *ref.Graph, want ref.Result, prov bool) (Loaded, error) {
	out, err := l.Run()
	if err != nil {
		return out, err
	}
	got, err := Render(pb, g, out.Bundles, out.Identity)
	if err != nil {
		return out, err
	}
	if w, h := want.Key(prov), got.Key(prov); w != h {
		return out, fmt.Errorf("expected:\n%s\ngot:\n%s", w, h)
	}
	for a, c := range out.Identity {
		if !g.Same(a, c) {
			return out, fmt.Errorf("alias table says %q is %q, which nothing declares", a, c)
		}
	}
	return out, nil
}

// MkTemp makes a fresh directory and returns a function to remove it.
func MkTemp(dir string) (string, func()) {
	p, err := os.MkdirTemp(dir, "d")
	if err != nil {
		panic(err)
	}
	return p, func() { os.RemoveAll(p) }
}

// WriteFile writes a file below dir.
func WriteFile(dir, name, content string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(err)
	}
	return p
}

// Lines shows statements one per line.
func Lines(ss []ref.Stmt) string {
	var b strings.Builder
	for _, s := range ss {
		fmt.Fprintf(&b, "%v; ", s)
	}
	return b.String()
}

// Dump renders an entity completely; order of values and children is ignored
// unless ordered is set.
func Dump(e *wisski.Entity, ordered bool) string {
	var b strings.Builder
	dump(&b, e, "", ordered)
	return b.String()
}

func list(ks []string, ordered bool) string {
	if !ordered {
		sort.Strings(ks)
	}
	return strings.Join(ks, "")
}

func dump(b *strings.Builder, e *wisski.Entity, ind string, ordered bool) {
	fmt.Fprintf(b, "%s%q %q %v\n", ind, e.URI, e.Path, triples(e.Triples))
	var names []string
	for n, vs := range e.Fields {
		if len(vs) > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		var ks []string
		for _, v := range e.Fields[n] {
			ks = append(ks, fmt.Sprintf("%s  %s = %q@%q %q %v\n", ind, n, v.Value, v.Language, v.Path, triples(v.Triples)))
		}
		b.WriteString(list(ks, ordered))
	}
	names = nil
	for n, vs := range e.Children {
		if len(vs) > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		var ks []string
		for i := range e.Children[n] {
			var cb strings.Builder
			dump(&cb, &e.Children[n][i], ind+"    ", ordered)
			ks = append(ks, fmt.Sprintf("%s  [%s]\n%s", ind, n, cb.String()))
		}
		b.WriteString(list(ks, ordered))
	}
}

func triples(ts []igraph.Triple) string {
	var ks []string
	for _, t := range ts {
		ks = append(ks, fmt.Sprintf("{%v %d %q %q %q | %q %q %q | %q@%q}", t.ID, t.Role, t.Subject, t.Predicate, t.Object, t.SSubject, t.SPredicate, t.SObject, t.Datum, t.Language))
	}
	return strings.Join(ks, " ")
}

// DumpAll renders a complete result.
func DumpAll(m map[string][]wisski.Entity) string {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		var ks []string
		for i := range m[n] {
			ks = append(ks, Dump(&m[n][i], false))
		}
		fmt.Fprintf(&b, "== %s (%d)\n%s", n, len(ks), list(ks, false))
	}
	return b.String()
}

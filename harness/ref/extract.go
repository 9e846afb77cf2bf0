package ref

import (
	"fmt"
	"html"
	"sort"
	"strings"
)

// Type is the predicate that states class membership.
const Type = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"

const (
	SameAs    = "http://www.w3.org/2002/07/owl#sameAs"
	InverseOf = "http://www.w3.org/2002/07/owl#inverseOf"
)

// Field is a field of a bundle.
type Field struct {
	ID       string
	Path     []string
	Datatype string // "" means: a link field
	Type     string // field type, "" means string
	Name     string // "" means a name made from the id
}

// Bundle is a bundle of a pathbuilder.
type Bundle struct {
	ID       string
	Path     []string
	Fields   []Field
	Children []Bundle
	Name     string // "" means a name made from the id
}

// PB is a pathbuilder: the list of its top-level bundles.
type PB struct {
	Name    string
	Bundles []Bundle
}

// XML renders the pathbuilder in the format of the original system.
func (pb PB) XML() string {
	var b strings.Builder
	b.WriteString("<pathbuilderinterface>")
	el := func(name, value string) { fmt.Fprintf(&b, "<%s>%s</%s>", name, html.EscapeString(value), name) }
	w := 0
	path := func(id, group, bundle, field, ftype, isGroup string, path []string, dt, name string) {
		b.WriteString("<path>")
		el("id", id)
		el("weight", fmt.Sprint(w))
		w++
		el("enabled", "1")
		el("group_id", group)
		el("bundle", bundle)
		el("field", field)
		el("fieldtype", ftype)
		el("displaywidget", "")
		el("formatterwidget", "")
		el("cardinality", "-1")
		el("field_type_informative", "")
		b.WriteString("<path_array>")
		for i, u := range path {
			if i%2 == 0 {
				el("x", u)
			} else {
				el("y", u)
			}
		}
		b.WriteString("</path_array>")
		el("datatype_property", dt)
		el("short_name", "")
		el("disamb", "0")
		el("description", "")
		el("uuid", "")
		el("is_group", isGroup)
		if name == "" {
			name = "Name of " + id
		}
		el("name", name)
		b.WriteString("</path>")
	}
	var rec func(bu Bundle, parent string)
	rec = func(bu Bundle, parent string) {
		path(bu.ID, parent, "b_"+bu.ID, "b_"+bu.ID, "", "1", bu.Path, "empty", bu.Name)
		for _, f := range bu.Fields {
			dt := f.Datatype
			if dt == "" {
				dt = "empty"
			}
			ft := f.Type
			if ft == "" {
				ft = "string"
			}
			path(f.ID, bu.ID, "b_"+bu.ID, "f_"+f.ID, ft, "0", f.Path, dt, f.Name)
		}
		for _, ch := range bu.Children {
			rec(ch, bu.ID)
		}
	}
	for _, bu := range pb.Bundles {
		rec(bu, "0")
	}
	b.WriteString("</pathbuilderinterface>")
	return b.String()
}

// Walk visits every bundle with its parent.
func (pb PB) Walk(f func(b, parent *Bundle)) {
	var rec func(b, p *Bundle)
	rec = func(b, p *Bundle) {
		f(b, p)
		for i := range b.Children {
			rec(&b.Children[i], b)
		}
	}
	for i := range pb.Bundles {
		rec(&pb.Bundles[i], nil)
	}
}

// Entity is an extracted entity, with all names as class representatives.
type Entity struct {
	URI      string
	Path     []string
	Prov     []Prov
	Fields   map[string][]Value2
	Children map[string][]*Entity
}

// Value2 is a field value.
type Value2 struct {
	Link  bool
	Text  string // text, or class representative of the target
	Lang  string
	Path  []string
	Prov  []Prov
	edges []*Edge
}

func provKey(ps []Prov) string {
	ss := make([]string, len(ps))
	for i, p := range ps {
		ss[i] = string(p)
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

// Key renders a value.
func (v Value2) Key(prov bool) string {
	s := fmt.Sprintf("%q@%q link=%v path=%q", v.Text, v.Lang, v.Link, v.Path)
	if prov {
		s += " because " + provKey(v.Prov)
	}
	return s
}

// Key renders an entity with everything below it; empty fields and children are left out.
func (e *Entity) Key(prov bool) string {
	var b strings.Builder
	e.key(&b, "", prov)
	return b.String()
}

func (e *Entity) key(b *strings.Builder, ind string, prov bool) {
	fmt.Fprintf(b, "%s%q path=%q", ind, e.URI, e.Path)
	if prov {
		fmt.Fprintf(b, " because %s", provKey(e.Prov))
	}
	b.WriteString("\n")
	var names []string
	for n, vs := range e.Fields {
		if len(vs) > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		var ks []string
		for _, v := range e.Fields[n] {
			ks = append(ks, v.Key(prov))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(b, "%s  %s = %s\n", ind, n, k)
		}
	}
	names = nil
	for n, cs := range e.Children {
		if len(cs) > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		var ks []string
		for _, c := range e.Children[n] {
			var cb strings.Builder
			c.key(&cb, ind+"    ", prov)
			ks = append(ks, cb.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "%s  [%s]\n%s", ind, n, strings.Join(ks, ""))
	}
}

// Data is what a data file says.
type Data struct {
	Stmts   []Stmt
	Same    [][2]string
	Inverse [][2]string
}

// Split separates the declarations from a list of statements, as the loader
// does: declarations are statements like any other as well.
func Split(stmts []Stmt, same, inverse []string) Data {
	d := Data{Stmts: stmts}
	has := func(l []string, p string) bool {
		for _, x := range l {
			if x == p {
				return true
			}
		}
		return false
	}
	for _, s := range stmts {
		if s.Lit {
			continue
		}
		if has(same, s.P) {
			d.Same = append(d.Same, [2]string{s.S, s.O})
		}
		if has(inverse, s.P) {
			d.Inverse = append(d.Inverse, [2]string{s.S, s.O})
		}
	}
	return d
}

// Result maps top-level bundles to their entities.
type Result map[string][]*Entity

// Key renders a result.
func (r Result) Key(prov bool) string {
	var names []string
	for n := range r {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		var ks []string
		for _, e := range r[n] {
			ks = append(ks, e.Key(prov))
		}
		sort.Strings(ks)
		fmt.Fprintf(&b, "== %s (%d)\n%s", n, len(ks), strings.Join(ks, ""))
	}
	return b.String()
}

// PathSteps turns a path array into a query.
func PathSteps(path []string, datatype string) []Step {
	steps := []Step{{P: Type, O: path[0]}}
	for i := 1; i < len(path); i++ {
		if i%2 == 1 {
			steps = append(steps, Step{P: path[i]})
		} else {
			steps = append(steps, Step{End: true, P: Type, O: path[i]})
		}
	}
	if datatype != "" {
		if len(path)%2 == 1 {
			steps = append(steps, Step{P: datatype})
		} else {
			steps = append(steps, Step{End: true, P: Type, O: datatype})
		}
	}
	return steps
}

// Extract computes what the pathbuilder describes. forest reports whether
// every resource is reached as an entity of a bundle in one way only.
func Extract(pb PB, g *Graph) (res Result, forest bool) {
	res = Result{}
	forest = true
	type node struct {
		e *Entity
	}
	var rec func(b *Bundle, parent *Bundle, above map[string]*Entity, pidx int) []*Entity
	rec = func(b *Bundle, parent *Bundle, above map[string]*Entity, pidx int) (out []*Entity) {
		idx := 0
		if parent != nil {
			idx = len(b.Path) / 2
		}
		mine := map[string]*Entity{}
		for _, r := range g.Query(PathSteps(b.Path, "")) {
			e := &Entity{URI: r.Nodes[idx], Path: r.Nodes, Prov: r.Prov, Fields: map[string][]Value2{}, Children: map[string][]*Entity{}}
			if mine[e.URI] != nil {
				forest = false
				continue
			}
			mine[e.URI] = e
			out = append(out, e)
			if parent != nil {
				if p := above[r.Nodes[pidx]]; p != nil {
					p.Children[b.ID] = append(p.Children[b.ID], e)
				}
			}
		}
		for _, f := range b.Fields {
			for _, r := range g.Query(PathSteps(f.Path, f.Datatype)) {
				e := mine[r.Nodes[idx]]
				if e == nil {
					continue
				}
				v := Value2{Link: !r.HasVal, Text: r.Text, Lang: r.Lang, Path: r.Nodes, Prov: r.Prov}
				if v.Link {
					v.Text = r.Nodes[len(r.Nodes)-1]
				}
				e.Fields[f.ID] = append(e.Fields[f.ID], v)
			}
		}
		for i := range b.Children {
			rec(&b.Children[i], b, mine, idx)
		}
		return out
	}
	for i := range pb.Bundles {
		b := &pb.Bundles[i]
		res[b.ID] = rec(b, nil, nil, 0)
		if res[b.ID] == nil {
			res[b.ID] = []*Entity{}
		}
	}
	return res, forest
}

// Escape writes text as the inside of an N-Quads literal.
func Escape(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// NQuad renders a statement as a line of a data file.
func NQuad(s Stmt) string {
	term := func(l string) string {
		if strings.HasPrefix(l, "_:") {
			return l
		}
		return "<" + l + ">"
	}
	if !s.Lit {
		return fmt.Sprintf("%s %s %s .\n", term(s.S), term(s.P), term(s.O))
	}
	if s.Lang != "" {
		return fmt.Sprintf("%s %s \"%s\"@%s .\n", term(s.S), term(s.P), Escape(s.O), s.Lang)
	}
	return fmt.Sprintf("%s %s \"%s\" .\n", term(s.S), term(s.P), Escape(s.O))
}

// NQuads renders a data file.
func NQuads(ss []Stmt) string {
	var b strings.Builder
	for _, s := range ss {
		b.WriteString(NQuad(s))
	}
	return b.String()
}

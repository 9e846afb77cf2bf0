// Package ref holds the reference models: plain, brute-force definitions of
// what the index, the extraction and the outputs should contain.
package ref

import (
	"fmt"
	"sort"
	"strings"
)

// Stmt is one statement: a link, or a text value if Lit is set (O is the text).
type Stmt struct {
	S, P, O string
	Lit     bool
	Lang    string
}

func (s Stmt) String() string {
	if !s.Lit {
		return fmt.Sprintf("%s %s %s", s.S, s.P, s.O)
	}
	if s.Lang != "" {
		return fmt.Sprintf("%s %s %q@%s", s.S, s.P, s.O, s.Lang)
	}
	return fmt.Sprintf("%s %s %q", s.S, s.P, s.O)
}

// Classes is a partition of labels.
type Classes struct{ parent map[string]string }

func NewClasses() *Classes { return &Classes{map[string]string{}} }

// Min returns the representative of the label used for comparisons: the
// smallest label of its class.
func (c *Classes) Min(l string) string {
	for {
		p, ok := c.parent[l]
		if !ok {
			return l
		}
		l = p
	}
}

// Union joins the classes of two labels.
func (c *Classes) Union(a, b string) {
	x, y := c.Min(a), c.Min(b)
	if x == y {
		return
	}
	if x > y {
		x, y = y, x
	}
	c.parent[y] = x
}

// Same reports if the two labels are identical.
func (c *Classes) Same(a, b string) bool { return c.Min(a) == c.Min(b) }

type edgeKey struct{ s, p, o string }

// Edge is a link of the graph in class representatives.
type Edge struct {
	S, P, O  string
	Inferred bool
	// statements that justify it
	Why []Stmt
}

// Value is a text value attached to a node.
type Value struct {
	S, P, Text, Lang string
	Why              Stmt
}

// Graph is the meaning of a set of statements.
type Graph struct {
	*Classes
	edges  map[edgeKey]*Edge
	byPS   map[[2]string][]*Edge
	byPO   map[[2]string][]*Edge
	Values []*Value
	valPS  map[[2]string][]*Value
}

// Build computes the graph: identities first, then inverses, then everything.
func Build(stmts []Stmt, same, inverse [][2]string) *Graph {
	g := &Graph{Classes: NewClasses(), edges: map[edgeKey]*Edge{},
		byPS: map[[2]string][]*Edge{}, byPO: map[[2]string][]*Edge{}, valPS: map[[2]string][]*Value{}}
	for _, s := range same {
		g.Union(s[0], s[1])
	}
	inv := map[string]string{}
	for _, i := range inverse {
		l, r := g.Min(i[0]), g.Min(i[1])
		if i[0] == i[1] {
			continue
		}
		inv[l], inv[r] = r, l
	}
	add := func(s, p, o string, inferred bool, why Stmt) {
		k := edgeKey{s, p, o}
		e := g.edges[k]
		if e == nil {
			e = &Edge{S: s, P: p, O: o, Inferred: inferred}
			g.edges[k] = e
			g.byPS[[2]string{p, s}] = append(g.byPS[[2]string{p, s}], e)
			g.byPO[[2]string{p, o}] = append(g.byPO[[2]string{p, o}], e)
		}
		if e.Inferred && !inferred {
			e.Inferred = false
			e.Why = nil
		}
		if e.Inferred == inferred {
			e.Why = append(e.Why, why)
		}
	}
	for _, s := range stmts {
		if s.Lit {
			v := &Value{S: g.Min(s.S), P: g.Min(s.P), Text: s.O, Lang: s.Lang, Why: s}
			g.Values = append(g.Values, v)
			k := [2]string{v.P, v.S}
			g.valPS[k] = append(g.valPS[k], v)
			continue
		}
		a, p, o := g.Min(s.S), g.Min(s.P), g.Min(s.O)
		add(a, p, o, false, s)
		if i, ok := inv[p]; ok {
			add(o, i, a, true, s)
		}
	}
	return g
}

// Edge returns the edge between class representatives, if any.
func (g *Graph) Edge(s, p, o string) *Edge { return g.edges[edgeKey{g.Min(s), g.Min(p), g.Min(o)}] }

// Step is one step of a query.
type Step struct {
	End  bool   // restrict the current node instead of moving on
	P, O string // O only for the first step and for End
}

// Prov is a provenance entry in class representatives.
type Prov string

// EdgeProv renders the provenance of an edge.
func EdgeProv(e *Edge) Prov {
	return Prov(fmt.Sprintf("%q %q %q inferred=%v", e.S, e.P, e.O, e.Inferred))
}

// ValueProv renders the provenance of a value.
func ValueProv(v *Value) Prov {
	return Prov(fmt.Sprintf("%q %q text %q@%q", v.S, v.P, v.Text, v.Lang))
}

// PathResult is one answer of a query.
type PathResult struct {
	Nodes  []string // in class representatives
	HasVal bool
	Text   string
	Lang   string
	Prov   []Prov // sorted
	edges  []*Edge
}

// Key is the textual form for comparison.
func (p PathResult) Key() string {
	var b strings.Builder
	for _, n := range p.Nodes {
		fmt.Fprintf(&b, "%q ", n)
	}
	if p.HasVal {
		fmt.Fprintf(&b, "= %q@%q ", p.Text, p.Lang)
	}
	ps := append([]Prov{}, p.Prov...)
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	for _, x := range ps {
		b.WriteString("\n    because ")
		b.WriteString(string(x))
	}
	return b.String()
}

// Query answers a query: the first step gives the start condition.
func (g *Graph) Query(steps []Step) (out []PathResult) {
	start := steps[0]
	var cur []PathResult
	for _, e := range g.byPO[[2]string{g.Min(start.P), g.Min(start.O)}] {
		cur = append(cur, PathResult{Nodes: []string{e.S}, Prov: []Prov{EdgeProv(e)}})
	}
	for _, st := range steps[1:] {
		var next []PathResult
		for _, r := range cur {
			if r.HasVal { // nothing starts at a text value
				continue
			}
			last := r.Nodes[len(r.Nodes)-1]
			if st.End {
				if e := g.Edge(last, st.P, st.O); e != nil {
					r.Prov = append(append([]Prov{}, r.Prov...), EdgeProv(e))
					next = append(next, r)
				}
				continue
			}
			for _, e := range g.byPS[[2]string{g.Min(st.P), last}] {
				n := r
				n.Nodes = append(append([]string{}, r.Nodes...), e.O)
				n.Prov = append(append([]Prov{}, r.Prov...), EdgeProv(e))
				next = append(next, n)
			}
			for _, v := range g.valPS[[2]string{g.Min(st.P), last}] {
				n := r
				n.HasVal, n.Text, n.Lang = true, v.Text, v.Lang
				n.Prov = append(append([]Prov{}, r.Prov...), ValueProv(v))
				next = append(next, n)
			}
		}
		cur = next
	}
	return cur
}

// Multiset renders keys as a sorted multiset.
func Multiset(keys []string) string {
	sort.Strings(keys)
	return strings.Join(keys, "\n")
}

// StateKey describes the graph for state counting.
func (g *Graph) StateKey() string {
	var ks []string
	for _, e := range g.edges {
		ks = append(ks, string(EdgeProv(e)))
	}
	for _, v := range g.Values {
		ks = append(ks, string(ValueProv(v)))
	}
	return Multiset(ks)
}

// Justifies reports if a statement is acceptable provenance of an edge.
func (e *Edge) Justifies(s Stmt) bool {
	for _, w := range e.Why {
		if w == s {
			return true
		}
	}
	return false
}

// HasValue reports whether the statement is one of the values of the graph.
func (g *Graph) HasValue(s Stmt) bool {
	for _, v := range g.Values {
		if v.Why == s {
			return true
		}
	}
	return false
}

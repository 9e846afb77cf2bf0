package ref

import "fmt"

// World is a pathbuilder with a universe of statements about it.
type World struct {
	PB       PB
	Universe []Stmt
	// Base statements are always present.
	Base          []Stmt
	Same, Inverse []string
}

func l(s, p, o string) Stmt         { return Stmt{S: s, P: p, O: o} }
func t(s, c string) Stmt            { return Stmt{S: s, P: Type, O: c} }
func v(s, p, text string) Stmt      { return Stmt{S: s, P: p, O: text, Lit: true} }
func vl(s, p, text, la string) Stmt { return Stmt{S: s, P: p, O: text, Lit: true, Lang: la} }

const ex = "http://x/"

// Worlds is the family of pathbuilders and statement universes.
func Worlds() []World {
	A, B, C, D, X, E := ex+"A", ex+"B", ex+"C", ex+"D", ex+"X", ex+"E"
	p, q, r := ex+"p", ex+"q", ex+"r"
	w, z := ex+"w", ex+"z"
	a, a2, b, b2, c, c2, d, x, x2, e := ex+"a", ex+"a2", ex+"b", ex+"b2", ex+"c", ex+"c2", ex+"d", ex+"x", ex+"x2", ex+"e"
	b3 := ex + "b3"
	both := []string{SameAs}
	inv := []string{InverseOf}
	return []World{
		{ // values and links directly and one step away
			PB: PB{"flat", []Bundle{{ID: "ba", Path: []string{A}, Fields: []Field{
				{ID: "f1", Path: []string{A}, Datatype: w},
				{ID: "f2", Path: []string{A, p, B}, Datatype: w},
				{ID: "f3", Path: []string{A, p, B}, Datatype: ""},
			}}}},
			Base: []Stmt{t(a, A)},
			Universe: []Stmt{t(b, B), t(a2, A), l(a, p, b), l(a2, p, b), l(a, p, b2), t(b2, B), v(a, w, "one"), vl(a, w, "one", "en"),
				vl(a, w, "un", "fr"), v(b, w, "two"), v(b2, w, "two"), l(a, w, b), v(a, p, "lit"), l(a, q, b)},
		},
		{ // children and grandchildren
			PB: PB{"nested", []Bundle{{ID: "ba", Path: []string{A}, Fields: []Field{{ID: "fa", Path: []string{A}, Datatype: w}}, Children: []Bundle{
				{ID: "bc", Path: []string{A, p, C}, Fields: []Field{{ID: "fc", Path: []string{A, p, C}, Datatype: w}, {ID: "fe", Path: []string{A, p, C, r, E}, Datatype: ""}}, Children: []Bundle{
					{ID: "bd", Path: []string{A, p, C, q, D}, Fields: []Field{{ID: "fd", Path: []string{A, p, C, q, D}, Datatype: w}}},
				}},
			}}}},
			Base: []Stmt{t(a, A), t(c, C)},
			Universe: []Stmt{l(a, p, c), t(a2, A), l(a2, p, c2), t(c2, C), l(c, q, d), l(c2, q, d), t(d, D), v(c, w, "c"), vl(c2, w, "c2", "de"), v(d, w, "d"),
				l(c, r, e), t(e, E), l(a, p, c2)},
		},
		{ // siblings over the same predicate, two top-level bundles, a field across
			PB: PB{"siblings", []Bundle{
				{ID: "ba", Path: []string{A}, Children: []Bundle{
					{ID: "c1", Path: []string{A, p, B}, Fields: []Field{{ID: "f1", Path: []string{A, p, B}, Datatype: w}}},
					{ID: "c2", Path: []string{A, p, C}, Fields: []Field{{ID: "f2", Path: []string{A, p, C}, Datatype: w}, {ID: "f3", Path: []string{A, p, C}, Datatype: z}}},
				}},
				{ID: "bb", Path: []string{B}, Fields: []Field{{ID: "f4", Path: []string{B}, Datatype: w}, {ID: "f5", Path: []string{B, q, A}, Datatype: ""}, {ID: "f6", Path: []string{B, q, A, p, C}, Datatype: w}}},
			}},
			Base:     []Stmt{t(a, A), t(b, B)},
			Universe: []Stmt{l(a, p, b), l(a, p, c), t(c, C), t(c, B), t(b, C), v(b, w, "b"), v(c, w, "c"), vl(c, z, "z", "en-GB"), l(b, q, a), t(b2, B), l(b2, q, a), v(a, w, "no"), t(b, A)},
		},
		{ // long steps between bundles
			PB: PB{"long", []Bundle{{ID: "ba", Path: []string{A}, Children: []Bundle{
				{ID: "bc", Path: []string{A, p, X, q, C}, Fields: []Field{{ID: "fc", Path: []string{A, p, X, q, C}, Datatype: w}, {ID: "fe", Path: []string{A, p, X, q, C, r, E}, Datatype: w}}, Children: []Bundle{
					{ID: "bd", Path: []string{A, p, X, q, C, r, X, r, D}, Fields: []Field{{ID: "fd", Path: []string{A, p, X, q, C, r, X, r, D}, Datatype: ""}}},
				}},
			}, Fields: []Field{{ID: "fx", Path: []string{A, p, X}, Datatype: w}}}}},
			Base:     []Stmt{t(a, A), t(x, X), t(c, C), l(a, p, x)},
			Universe: []Stmt{l(x, q, c), t(a2, A), l(a2, p, x2), t(x2, X), l(x2, q, c2), t(c2, C), v(c, w, "c"), l(c, r, e), t(e, E), v(e, w, "e"), l(c, r, x2), l(x2, r, d), t(d, D), v(x, w, "x")},
		},
		{ // identities
			PB: PB{"same", []Bundle{{ID: "ba", Path: []string{A}, Fields: []Field{{ID: "f1", Path: []string{A}, Datatype: w}, {ID: "f2", Path: []string{A, p, B}, Datatype: ""}}, Children: []Bundle{
				{ID: "bb", Path: []string{A, p, B}, Fields: []Field{{ID: "fb", Path: []string{A, p, B}, Datatype: w}}},
			}}}},
			Same: both, Inverse: inv,
			Base: []Stmt{t(a, A), l(a, p, b)},
			Universe: []Stmt{t(a2, A), l(a, SameAs, a2), l(a2, SameAs, ex+"a3"), v(a2, w, "w"), vl(ex+"a3", w, "w3", "en"), t(b, B), l(a2, p, b2), l(b, SameAs, b2), t(b2, B), v(b2, w, "b2"),
				l(r, SameAs, p), l(a, r, b3), t(b3, B), t(ex+"a3", A), l(a2, SameAs, a)},
		},
		{ // inverses
			PB: PB{"inverse", []Bundle{
				{ID: "ba", Path: []string{A}, Fields: []Field{{ID: "f1", Path: []string{A, p, B}, Datatype: w}}, Children: []Bundle{
					{ID: "bc", Path: []string{A, q, C}, Fields: []Field{{ID: "fc", Path: []string{A, q, C}, Datatype: w}}},
				}},
				{ID: "bb", Path: []string{B}, Fields: []Field{{ID: "f2", Path: []string{B, ex + "ip", A}, Datatype: ""}}},
			}},
			Same: both, Inverse: inv,
			Base: []Stmt{t(a, A), t(b, B), t(c, C)},
			Universe: []Stmt{l(p, InverseOf, ex+"ip"), l(ex+"iq", InverseOf, q), l(a, p, b), l(b, ex+"ip", a), l(c, ex+"iq", a), l(c, ex+"jq", a), l(ex+"jq", SameAs, ex+"iq"), v(b, w, "b"), v(c, w, "c"),
				t(b2, B), l(b2, ex+"ip", a), t(a2, A), l(a2, p, b2)},
		},
	}
}

// Subset picks statements by bit mask.
func (wo World) Subset(bits int) []Stmt {
	out := append([]Stmt{}, wo.Base...)
	for i, s := range wo.Universe {
		if bits>>i&1 == 1 {
			out = append(out, s)
		}
	}
	return out
}

// Graph builds the meaning of statements in this world.
func (wo World) Graph(ss []Stmt) *Graph {
	d := Split(ss, wo.Same, wo.Inverse)
	return Build(d.Stmts, d.Same, d.Inverse)
}

// SmallWorlds enumerates small pathbuilders systematically, over one universe.
func SmallWorlds(deep bool) (out []World) {
	A, B := ex+"A", ex+"B"
	p, q, w := ex+"p", ex+"q", ex+"w"
	a, b := ex+"a", ex+"b"
	universe := []Stmt{t(a, A), t(b, B), t(b, A), l(a, p, b), l(a, p, a), l(b, p, a), l(a, q, b), v(a, w, "va"), vl(b, w, "vb", "en"), v(b, p, "")}
	fieldTails := []Field{{Datatype: w}, {Path: []string{p, B}, Datatype: w}, {Path: []string{p, B}}, {Path: []string{p, A}, Datatype: w}, {Path: []string{p}}, {Path: []string{q, A, p, A}}}
	kidTails := [][]string{{p, B}, {p, A}, {q, B}, {p, A, p, B}}
	mk := func(id string, base []string, f Field) Field {
		return Field{ID: id, Path: append(append([]string{}, base...), f.Path...), Datatype: f.Datatype}
	}
	add := func(bs ...Bundle) {
		out = append(out, World{PB: PB{fmt.Sprintf("small%d", len(out)), bs}, Universe: universe})
	}
	base := []string{A}
	for i, f := range fieldTails {
		for j := i; j < len(fieldTails); j++ {
			add(Bundle{ID: "ba", Path: base, Fields: []Field{mk("f", base, f), mk("g", base, fieldTails[j])}})
		}
		for ki, k := range kidTails {
			kp := append(append([]string{}, base...), k...)
			for _, cf := range fieldTails[:Min(len(fieldTails), 5)] {
				kid := Bundle{ID: "kid", Path: kp, Fields: []Field{mk("kf", kp, cf)}}
				add(Bundle{ID: "ba", Path: base, Fields: []Field{mk("f", base, f)}, Children: []Bundle{kid}})
				if !deep && i > 0 {
					continue
				}
				for _, k2 := range kidTails {
					gp := append(append([]string{}, kp...), k2...)
					kid2 := kid
					kid2.Children = []Bundle{{ID: "grand", Path: gp, Fields: []Field{mk("gf", gp, f)}}}
					add(Bundle{ID: "ba", Path: base, Children: []Bundle{kid2}})
				}
				for _, k2 := range kidTails[ki:] {
					sp := append(append([]string{}, base...), k2...)
					add(Bundle{ID: "ba", Path: base, Children: []Bundle{kid, {ID: "sib", Path: sp, Fields: []Field{mk("sf", sp, f)}}}},
						Bundle{ID: "bb", Path: []string{B}, Fields: []Field{mk("bf", []string{B}, f)}})
				}
			}
		}
	}
	// children without fields, but with children
	for _, k := range kidTails {
		kp := append(append([]string{}, base...), k...)
		add(Bundle{ID: "ba", Path: base, Children: []Bundle{{ID: "kid", Path: kp}}})
		for _, k2 := range kidTails {
			gp := append(append([]string{}, kp...), k2...)
			grand := Bundle{ID: "grand", Path: gp, Fields: []Field{mk("gf", gp, fieldTails[0])}}
			add(Bundle{ID: "ba", Path: base, Children: []Bundle{{ID: "kid", Path: kp, Children: []Bundle{grand}}}})
		}
	}
	return
}

// Min is the smaller number.
func Min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// MaskWorlds has equivalent and inverse spellings of everything a pathbuilder mentions.
func MaskWorlds() []World {
	A, B, C := ex+"A", ex+"B", ex+"C"
	p, q, w := ex+"p", ex+"q", ex+"w"
	P, ip, IP, W, T := ex+"P", ex+"ip", ex+"IP", ex+"W", ex+"type"
	a, b, c := ex+"a", ex+"b", ex+"c"
	pb := PB{"masked", []Bundle{{ID: "ba", Path: []string{A}, Fields: []Field{{ID: "f1", Path: []string{A}, Datatype: w}, {ID: "f2", Path: []string{A, p, B}, Datatype: ""}, {ID: "f3", Path: []string{A, p, B}, Datatype: w}},
		Children: []Bundle{{ID: "bc", Path: []string{A, q, C}, Fields: []Field{{ID: "fc", Path: []string{A, q, C}, Datatype: w}}}}}}}
	same, inv := []string{SameAs, ex + "eq"}, []string{InverseOf}
	var out []World
	add := func(name string, base []Stmt, universe ...Stmt) {
		x := pb
		x.Name = name
		out = append(out, World{PB: x, Base: base, Universe: universe, Same: same, Inverse: inv})
	}
	base := []Stmt{t(a, A), t(b, B), t(c, C)}
	add("mask-same", base, l(p, SameAs, P), l(P, ex+"eq", p), l(W, SameAs, w), l(w, ex+"eq", ex+"W2"), l(Type, SameAs, T), l(ex+"b2", T, B), l(a, P, b), l(a, p, ex+"b2"), v(a, W, "W"), v(b, ex+"W2", "W2"), v(a, w, "w"), l(a, W, b), l(a, ex+"noise", b), v(a, ex+"noise", "noise"))
	add("mask-inverse", base, l(p, InverseOf, ip), l(ip, InverseOf, p), l(IP, SameAs, ip), l(P, SameAs, p), l(b, ip, a), l(b, IP, a), l(a, P, b), l(a, p, b), l(ex+"iq", InverseOf, q), l(c, ex+"iq", a), l(a, q, c), v(b, w, "b"), v(c, w, "c"))
	add("mask-inverse-value", base, l(w, InverseOf, ex+"iw"), l(b, ex+"iw", a), l(a, w, b), l(ex+"iw", SameAs, ex+"IW"), l(b, ex+"IW", a), l(Type, InverseOf, ex+"member"), l(B, ex+"member", ex+"b2"), l(a, p, ex+"b2"), l(a, p, b), v(ex+"b2", w, "x"), v(a, w, "y"))
	add("mask-names", base, l(A, SameAs, ex+"AA"), l(ex+"a2", Type, ex+"AA"), l(ex+"B2", SameAs, B), l(ex+"b2", Type, ex+"B2"), l(ex+"a2", p, ex+"b2"), l(a, SameAs, ex+"a3"), v(ex+"a3", w, "3"), l(ex+"a3", q, c), v(c, w, "c"), l(a, SameAs, ex+"a2"))
	return out
}

// ValidInverse reports if every property has at most one inverse, and none is its own.
func (wo World) ValidInverse(ss []Stmt) bool {
	d := Split(ss, wo.Same, wo.Inverse)
	cl := NewClasses()
	for _, s := range d.Same {
		cl.Union(s[0], s[1])
	}
	m := map[string]string{}
	for _, i := range d.Inverse {
		l, r := cl.Min(i[0]), cl.Min(i[1])
		if l == r || (m[l] != "" && m[l] != r) || (m[r] != "" && m[r] != l) {
			return false
		}
		m[l], m[r] = r, l
	}
	return true
}

// Interesting reports if leaving out any one statement changes the result.
func Interesting(wo World, ss []Stmt) bool {
	if !wo.ValidInverse(ss) {
		return false
	}
	full, forest := Extract(wo.PB, wo.Graph(ss))
	if !forest {
		return false
	}
	key := full.Key(true)
	for i := range ss {
		less := append(append([]Stmt{}, ss[:i]...), ss[i+1:]...)
		r, _ := Extract(wo.PB, wo.Graph(less))
		if r.Key(true) == key {
			return false
		}
	}
	return true
}

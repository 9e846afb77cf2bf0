// C26: a finished index accepts no more changes.
package main

import (
	"fmt"
	"strings"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

// the operations
const (
	same    = 's' // declare an identity
	same2   = 't' // declare an identity of new names
	inverse = 'i' // declare an inverse
	self    = 'j' // declare a name its own inverse
	mask    = 'm' // set masks
	reset   = 'R' // reset with the same engine
	fresh   = 'N' // reset with another engine
	closeIt = 'X'
	compact = 'C'
	final   = 'F'
)

var stmts = map[rune]ref.Stmt{
	'1': {S: "a", P: "p", O: "b"},
	'2': {S: "b", P: "q", O: "c"},
	'3': {S: "x", P: "p", O: "y"},
	'4': {S: "a", P: "w", O: "text", Lit: true},
	'5': {S: "c", P: "z", O: "text", Lit: true, Lang: "en"},
}

const ops = "stijm12345CFRNX"

// model is what the index should be.
type model struct {
	open, final   bool
	phase         int // of building: identities, inverses, masks, statements
	same, inverse [][2]string
	masked        bool
	stmts         []ref.Stmt
}

// allowed says if the outcome of an operation is specified.
func (m *model) allowed(op rune) bool {
	switch op {
	case reset, fresh, closeIt:
		return true
	}
	if !m.open {
		return false
	}
	if m.final {
		return op != mask
	}
	switch op {
	case same, same2:
		return m.phase == 0
	case inverse, self:
		return m.phase <= 1 && !(op == inverse && len(m.inverse) > 0)
	case mask:
		return m.phase <= 2
	}
	return true
}

func (m *model) step(op rune) (refused bool) {
	switch op {
	case reset, fresh:
		*m = model{open: true}
		return false
	case closeIt:
		*m = model{}
		return false
	}
	if m.final {
		return true
	}
	switch op {
	case final:
		m.final = true
	case same:
		m.same = append(m.same, [2]string{"a", "a2"})
	case same2:
		m.same = append(m.same, [2]string{"b", "b2"})
	case inverse:
		m.inverse = append(m.inverse, [2]string{"p", "ip"})
		m.phase = 1
	case self:
		m.phase = 1
	case mask:
		m.masked = true
		m.phase = 2
	case compact:
	default:
		s := stmts[op]
		if !m.masked || s.P == "p" || s.P == "w" {
			m.stmts = append(m.stmts, s)
		}
		m.phase = 3
	}
	return false
}

func apply(index *igraph.Index, engine *igraph.Engine, dir string, op rune, undo *[]func()) error {
	switch op {
	case reset:
		return index.Reset(*engine)
	case fresh:
		e, done := impl.Engine(dir)
		*undo = append(*undo, done)
		*engine = e
		return index.Reset(e)
	case closeIt:
		return index.Close()
	case same:
		return index.MarkIdentical("a", "a2")
	case same2:
		return index.MarkIdentical("b", "b2")
	case inverse:
		return index.MarkInverse("p", "ip")
	case self:
		return index.MarkInverse("p", "p")
	case mask:
		if err := index.SetPredicateMask(map[impl.Label]struct{}{"p": {}}); err != nil {
			return err
		}
		return index.SetDataMask(map[impl.Label]struct{}{"w": {}})
	case compact:
		return index.Compact()
	case final:
		return index.Finalize()
	default:
		return impl.AddStmt(index, stmts[op])
	}
}

var queries = func() (out [][]ref.Step) {
	for _, start := range []ref.Step{{P: "p", O: "b"}, {P: "p", O: "y"}, {P: "q", O: "c"}, {P: "ip", O: "a"}} {
		out = append(out, []ref.Step{start})
		for _, p := range []string{"p", "q", "w", "z", "ip"} {
			out = append(out, []ref.Step{start, {P: p}})
		}
	}
	return append(out,
		[]ref.Step{{P: "p", O: "b2"}, {P: "p"}, {P: "q"}, {P: "z"}},
		[]ref.Step{{P: "p", O: "b"}, {P: "p"}, {P: "ip"}, {P: "w"}},
		[]ref.Step{{P: "q", O: "c"}, {P: "q"}, {P: "z"}},
		[]ref.Step{{P: "p", O: "b"}, {End: true, P: "p", O: "b"}, {P: "w"}},
	)
}()

// observe collects what can be observed without the reference.
func observe(index *igraph.Index) (string, error) {
	n, err := index.TripleCount()
	if err != nil {
		return "", err
	}
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := index.IdentityMap(&ids); err != nil {
		return "", err
	}
	m := map[string]string{}
	ids.Iterate(func(a, b impl.Label) error { m[string(a)] = string(b); return nil })
	s := index.Stats()
	return fmt.Sprint(n, m, s), nil
}

func run(c *kit.Ctx, seq string, dir string) error {
	var undo []func()
	defer func() {
		for _, f := range undo {
			f()
		}
	}()
	index := &igraph.Index{}
	engine, done := impl.Engine(dir)
	undo = append(undo, done)
	var m model
	var frozen string
	for i, op := range seq {
		wasFinal := m.final
		err := apply(index, &engine, dir, op, &undo)
		refused := m.step(op)
		if refused && err == nil {
			return fmt.Errorf("operation %d (%c) was not refused", i, op)
		}
		if !refused && err != nil {
			return fmt.Errorf("operation %d (%c): %v", i, op, err)
		}
		if m.final && !wasFinal {
			if frozen, err = observe(index); err != nil {
				return fmt.Errorf("after operation %d: %v", i, err)
			}
		}
	}
	c.Trans(len(seq))
	if m.open && !m.final {
		if err := index.Finalize(); err != nil {
			return fmt.Errorf("finalising in the end: %v", err)
		}
	}
	if m.open {
		g := ref.Build(m.stmts, m.same, m.inverse)
		now, err := observe(index)
		if err != nil {
			return err
		}
		if m.final && now != frozen {
			return fmt.Errorf("counts and identities were %s, and are %s", frozen, now)
		}
		for _, q := range queries {
			if err := impl.CompareQuery(g, index, q, true); err != nil {
				return fmt.Errorf("query %v: %v", q, err)
			}
		}
		// no other names
		ids := imap.MakeMemory[impl.Label, impl.Label](0)
		if err := index.IdentityMap(&ids); err != nil {
			return err
		}
		got := map[string]bool{}
		ids.Iterate(func(a, b impl.Label) error {
			got[string(a)] = true
			if !g.Same(string(a), string(b)) {
				err = fmt.Errorf("%q and %q are identified", a, b)
			}
			return nil
		})
		if err != nil {
			return err
		}
		for _, s := range m.same {
			if !got[s[0]] && !got[s[1]] {
				return fmt.Errorf("%q and %q are not identified", s[0], s[1])
			}
		}
		c.StateOf(fmt.Sprint(m.final, g.StateKey(), m.same, m.inverse, m.masked))
	}
	for i := 0; i < 3; i++ {
		if err := index.Close(); err != nil {
			return fmt.Errorf("closing %d in the end: %v", i, err)
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C26", Level: "model_checking", Shards: 12, GC: 50,
		Rule: "all sequences of operations up to the stated length on an index of each backend which do not use a closed index and declare before they state are run; each operation on a finalised index must be refused, and in the end all path queries, identities and counts must be those of the reference graph of the statements before finalising (since the last reset)",
	}, func(c *kit.Ctx) {
		for _, dir := range []string{"", c.Scratch()} {
			name, depth, split := "memory", kit.Pick(c, 5, 6), 3
			if dir != "" {
				name, depth, split = "disk", kit.Pick(c, 3, 4), 2
			}
			var rec func(seq string, m model)
			rec = func(seq string, m model) {
				leaf := len(seq) == split+1
				if leaf {
					dir := dir
					c.Case(func() string {
						return fmt.Sprintf("%s, operations %s and all continuations up to %d", name, seq, depth+1)
					}, func() error {
						c.Nontrivial()
						return all(c, seq, m, depth+1, dir)
					})
					return
				}
				c.Case(func() string { return fmt.Sprintf("%s, operations %s", name, seq) }, func() error { return run(c, seq, dir) })
				for _, op := range ops {
					if m.allowed(op) {
						n := clone(m)
						n.step(op)
						rec(seq+string(op), n)
					}
				}
			}
			rec("R", model{open: true})
			rec("X", model{})
			// longer histories before and after finalising
			for _, pre := range []string{"Rst", "Rsi1", "Rstim1234C5", "R12345C", "R1N2", "R1F1R2", "R5FXXN4", "Rsi1FRsi1", "RsXR", "R1C2C3CF"} {
				for _, post := range []string{"F12345", "FCCF", "FstF", "Fij", "FR1F1", "FXXR12F", "FN345FF", "FsNtF", "F1X1"} {
					seq := pre + post
					if strings.HasSuffix(pre, "F") {
						seq = pre + post[1:]
					}
					m, ok := model{}, true
					for _, op := range seq {
						ok = ok && m.allowed(op)
						if ok {
							m.step(op)
						}
					}
					if !ok {
						continue
					}
					dir := dir
					c.Case(func() string { return fmt.Sprintf("%s, operations %s", name, seq) }, func() error { c.Nontrivial(); return run(c, seq, dir) })
				}
			}
		}
	})
}

func clone(m model) model {
	m.same = append([][2]string{}, m.same...)
	m.inverse = append([][2]string{}, m.inverse...)
	m.stmts = append([]ref.Stmt{}, m.stmts...)
	return m
}

func all(c *kit.Ctx, seq string, m model, depth int, dir string) error {
	if err := run(c, seq, dir); err != nil {
		return fmt.Errorf("%s: %v", seq, err)
	}
	if len(seq) == depth {
		return nil
	}
	for _, op := range ops {
		if !m.allowed(op) {
			continue
		}
		n := clone(m)
		n.step(op)
		if err := all(c, seq+string(op), n, depth, dir); err != nil {
			return err
		}
	}
	return nil
}

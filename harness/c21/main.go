// Command c21 checks the progress statistics: all sequences of operations against a model, and all
// interleavings of small concurrent programs for linearizability against the same model.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/zverif/vsched"
	"github.com/FAU-CDI/hangover/zverif/vsync"
)

// entry is a stage with its progress
type entry struct {
	stage          string
	current, total int
}

func (e entry) String() string { return fmt.Sprintf("%s:%d/%d", e.stage, e.current, e.total) }

func show(es []entry) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func of(ss stats.StageStats) entry {
	return entry{string(ss.Stage), ss.Current, ss.Total}
}

// model of the statistics
type model struct {
	absent bool
	cur    entry
	all    []entry
	done   bool
	index  int64
}

func (m *model) end() (prev entry) {
	if m.done {
		return
	}
	if m.cur.stage != "" {
		m.all = append(m.all[:len(m.all):len(m.all)], m.cur)
		prev = m.cur
	}
	m.cur = entry{}
	return
}

func (m *model) start(stage string) {
	if m.done {
		return
	}
	m.end()
	m.cur.stage = stage
}

// op is an operation: the steps of the model happen one after the other, the last results are its answer
type op struct {
	name  string
	do    func(st *stats.Stats) string
	steps []func(m *model) string
	write bool
}

var errStage = errors.New("stage failed")

func none(f func(m *model)) []func(m *model) string {
	return []func(m *model) string{func(m *model) string { f(m); return "" }}
}

func one(f func(m *model) string) []func(m *model) string { return []func(m *model) string{f} }

func start(s string) op {
	return op{"Start(" + s + ")", func(st *stats.Stats) string { st.Start(stats.Stage(s)); return "" }, none(func(m *model) { m.start(s) }), true}
}

func setct(a, b int) op {
	return op{fmt.Sprintf("SetCT(%d,%d)", a, b), func(st *stats.Stats) string { st.SetCT(a, b); return "" }, none(func(m *model) {
		if !m.done {
			m.cur.current, m.cur.total = a, b
		}
	}), true}
}

func dostage(s string, e error) op {
	return op{fmt.Sprintf("DoStage(%s,%v)", s, e), func(st *stats.Stats) string {
		n, in := 0, ""
		err := st.DoStage(stats.Stage(s), func() error { n++; in = of(st.Current()).String(); return e })
		return fmt.Sprintf("%d in %s -> %v", n, in, err)
	}, []func(m *model) string{
		func(m *model) string { m.start(s); return "" },
		func(m *model) string { return "1 in " + m.cur.String() },
		func(m *model) string { m.end(); return fmt.Sprintf(" -> %v", e) },
	}, true}
}

// keep is called with everything that is returned (in sequences)
var keep func(all []stats.StageStats, text string)

var ops = []op{
	start("a"), start("b"), setct(1, 2), setct(4, 3),
	{"End", func(st *stats.Stats) string { return of(st.End()).String() }, one(func(m *model) string { return m.end().String() }), true},
	{"Close", func(st *stats.Stats) string { st.Close(); return "" }, none(func(m *model) { m.end(); m.done = true }), true},
	dostage("c", nil), dostage("d", errStage),
	{"StoreIndexStats", func(st *stats.Stats) string { st.StoreIndexStats(igraph.Stats{DatumTriples: 7}); return "" }, none(func(m *model) {
		if !m.done {
			m.index = 7
		}
	}), true},
	{"Current", func(st *stats.Stats) string { return of(st.Current()).String() }, one(func(m *model) string { return m.cur.String() }), false},
	{"All", func(st *stats.Stats) string {
		var es []entry
		all := st.All()
		for _, s := range all {
			es = append(es, of(s))
		}
		if keep != nil {
			keep(all, show(es))
		}
		return show(es)
	}, one(func(m *model) string {
		es := m.all
		if m.cur.stage != "" {
			es = append(es[:len(es):len(es)], m.cur)
		}
		return show(es)
	}), false},
	{"Progress", func(st *stats.Stats) string {
		p := st.Progress()
		return fmt.Sprint(p.Done, entry{string(p.Stage), p.Current, p.Total})
	}, one(func(m *model) string {
		if m.done {
			return fmt.Sprint(true, entry{})
		}
		return fmt.Sprint(false, m.cur)
	}), false},
	{"IndexStats", func(st *stats.Stats) string { return fmt.Sprint(st.IndexStats().DatumTriples) }, one(func(m *model) string { return fmt.Sprint(m.index) }), false},
	{"Done", func(st *stats.Stats) string { return fmt.Sprint(st.Done()) }, one(func(m *model) string { return fmt.Sprint(m.done) }), false},
	{"Diff", func(st *stats.Stats) string { _ = st.Diff(); return "" }, none(func(m *model) {}), false},
	{"Log", func(st *stats.Stats) string { st.Log("message", "key", 1); st.LogDebug("debug"); return "" }, none(func(m *model) {}), false},
	{"LogError", func(st *stats.Stats) string { st.LogError("message", errStage, "key", 1); return "" }, none(func(m *model) {}), false},
}

func names(prog []int) string {
	var s []string
	for _, i := range prog {
		s = append(s, ops[i].name)
	}
	return strings.Join(s, "; ")
}

// kinds of statistics
const (
	absent = iota
	silent
	loud
	observed
	kinds
)

var kindNames = []string{"absent", "without output", "with output", "observed"}

func make_(kind int, out *bytes.Buffer, seen func(entry)) *stats.Stats {
	switch kind {
	case absent:
		return nil
	case silent:
		return stats.NewStats(nil)
	}
	st := stats.NewStats(out)
	st.Rewritable().FlushInterval = -1
	if kind == observed {
		st.OnUpdate = func(st *stats.Stats) {
			p := st.Progress()
			if !p.Done {
				seen(entry{string(p.Stage), p.Current, p.Total})
			}
			st.All()
			seen(of(st.Current()))
		}
	}
	return st
}

// valid reports if what was read can have been reported
func valid(e entry) bool {
	switch (entry{"", e.current, e.total}) {
	case entry{"", 0, 0}, entry{"", 1, 2}, entry{"", 4, 3}:
		return strings.Contains(" a b c d ", " "+e.stage+" ") || e.stage == ""
	}
	return false
}

// sequential runs a sequence of operations
func sequential(kind int, prog []int) error {
	var bad []entry
	var out bytes.Buffer
	st := make_(kind, &out, func(e entry) {
		if !valid(e) {
			bad = append(bad, e)
		}
	})
	type answer struct {
		all  []stats.StageStats
		text string
	}
	var kept []answer
	keep = func(all []stats.StageStats, text string) { kept = append(kept, answer{all, text}) }
	defer func() { keep = nil }()
	m := &model{done: kind == absent}
	for i, k := range append(append([]int{}, prog...), 9, 10, 11, 12, 13) {
		got, want := ops[k].do(st), ""
		for _, s := range ops[k].steps {
			want += s(m)
		}
		if got != want {
			return fmt.Errorf("statistics %s: %s: operation %d (%s) answers %q, expected %q", kindNames[kind], names(prog), i, ops[k].name, got, want)
		}
	}
	for _, k := range kept {
		var es []entry
		for _, s := range k.all {
			es = append(es, of(s))
		}
		if show(es) != k.text {
			return fmt.Errorf("statistics %s: %s: what All returned was %s, but later became %s", kindNames[kind], names(prog), k.text, show(es))
		}
	}
	if len(bad) > 0 {
		return fmt.Errorf("statistics %s: %s: the observer saw %v", kindNames[kind], names(prog), bad)
	}
	if kind == absent && (st.Rewritable() != nil || !st.Done()) {
		return errors.New("absent statistics have an output")
	}
	return nil
}

// event is one operation of a concurrent program
type event struct {
	thread, op int
	from, to   int
	result     string
}

var clock int

//go:norace
func tick() int { clock++; return clock }

// linearizable looks for an order of the steps that explains all the answers
func linearizable(m model, events []event) bool {
	pos := make([]int, len(events)) // steps done
	res := make([]string, len(events))
	var try func(m model, left int) bool
	seen := map[string]bool{}
	try = func(m model, left int) bool {
		if left == 0 {
			return true
		}
		key := fmt.Sprint(pos, res, m)
		if seen[key] {
			return false
		}
		for i := range events {
			steps := ops[events[i].op].steps
			if pos[i] == len(steps) {
				continue
			}
			// all that ended before this began are done
			ok := true
			if pos[i] == 0 {
				for j := range events {
					if events[j].to < events[i].from && pos[j] < len(ops[events[j].op].steps) {
						ok = false
						break
					}
				}
			}
			if !ok {
				continue
			}
			n := m
			r := steps[pos[i]](&n)
			old := res[i]
			res[i] += r
			pos[i]++
			if strings.HasPrefix(events[i].result, res[i]) && (pos[i] < len(steps) || events[i].result == res[i]) {
				l := left
				if pos[i] == len(steps) {
					l--
				}
				if try(n, l) {
					return true
				}
			}
			pos[i]--
			res[i] = old
		}
		seen[key] = true
		return false
	}
	return try(m, len(events))
}

// concurrent explores all schedules of a program
func concurrent(c *kit.Ctx, kind int, prefix []int, prog [][]int) error {
	var events [][]event
	var m model
	var bad []entry
	var badM vsync.Mutex
	finish := []int{10, 11, 9, 12, 13}
	name := func() string {
		var s []string
		for _, p := range prog {
			s = append(s, names(p))
		}
		return fmt.Sprintf("statistics %s, after [%s]: %s", kindNames[kind], names(prefix), strings.Join(s, " || "))
	}
	known := map[string]bool{}
	res, err := vsched.Explore(vsched.Options{Delays: -1, DPOR: true, Budget: 20 * time.Second}, func() {
		events = make([][]event, len(prog)+1)
		bad = nil
		m = model{}
		var out bytes.Buffer
		st := make_(kind, &out, func(e entry) {
			if !valid(e) {
				badM.Lock()
				bad = append(bad, e)
				badM.Unlock()
			}
		})
		for _, k := range prefix {
			ops[k].do(st)
			for _, s := range ops[k].steps {
				s(&m)
			}
		}
		run := func(i int, ks []int) {
			for _, k := range ks {
				e := event{thread: i, op: k, from: tick()}
				e.result = ops[k].do(st)
				e.to = tick()
				events[i] = append(events[i], e)
			}
		}
		var wg vsync.WaitGroup
		for i := range prog {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				defer wg.Done()
				run(i, prog[i])
			})
		}
		wg.Wait()
		run(len(prog), finish)
	}, func() error {
		var all []event
		for _, es := range events {
			all = append(all, es...)
		}
		if len(bad) > 0 {
			return fmt.Errorf("the observer saw %v", bad)
		}
		key := fmt.Sprint(all)
		if known[key] {
			return nil
		}
		if !linearizable(m, all) {
			return fmt.Errorf("no order of the operations explains the answers %v", describe(all))
		}
		known[key] = true
		c.StateOf(name() + key)
		return nil
	})
	c.Trans(res.Steps)
	c.Add("schedules", int64(res.Executions))
	c.Add("programs", 1)
	if err != nil {
		return fmt.Errorf("%s: %v", name(), err)
	}
	if !res.Complete {
		c.Trunc("not all schedules of a program were explored")
	}
	return nil
}

func describe(es []event) []string {
	var s []string
	for _, e := range es {
		s = append(s, fmt.Sprintf("thread %d [%d-%d] %s = %q", e.thread, e.from, e.to, ops[e.op].name, e.result))
	}
	return s
}

func main() {
	kit.Main(kit.Spec{
		Property: "C21",
		Level:    "model_checking",
		Rule:     "sequential cases are all sequences of operations on four kinds of statistics; concurrent ones all programs of two and three threads, each explored under all schedules up to equivalence (dynamic partial order reduction) with the race detector and checked for linearizability against the sequential model",
		Assumptions: []string{
			"between two synchronisation operations a thread is not interrupted (sound as long as there is no data race, which the race detector checks in every execution)",
			"the clock is not controlled",
		},
		HangAfter: 900 * time.Second,
	}, func(c *kit.Ctx) {
		// sequences
		depth := kit.Pick(c, 3, 4)
		for k := 0; k < kinds; k++ {
			for i := range ops {
				for j := range ops {
					k, i, j := k, i, j
					c.Case(func() string {
						return fmt.Sprintf("statistics %s: sequences from %s", kindNames[k], names([]int{i, j}))
					}, func() error {
						var rec func(prog []int) error
						rec = func(prog []int) error {
							if err := sequential(k, prog); err != nil {
								return err
							}
							c.Trans(len(prog))
							c.Add("sequences", 1)
							if len(prog) == depth {
								return nil
							}
							for n := range ops {
								if err := rec(append(prog[:len(prog):len(prog)], n)); err != nil {
									return err
								}
							}
							return nil
						}
						c.Nontrivial()
						return rec([]int{i, j})
					})
				}
			}
		}
		// programs
		prefixes := [][]int{nil, {0, 1, 0, 1, 2}} // the second has three stages that have ended, and room for one more
		for _, kind := range []int{silent, observed} {
			for pi, prefix := range prefixes {
				for i := range ops {
					for j := range ops {
						kind, prefix, i, j := kind, prefix, i, j
						// an observer makes for many more schedules
						if kind == observed && !c.Deep() {
							if pi == 1 {
								c.Case(func() string {
									return fmt.Sprintf("statistics %s after [%s]: %s || %s", kindNames[kind], names(prefix), ops[i].name, ops[j].name)
								}, func() error {
									c.Nontrivial()
									return concurrent(c, kind, prefix, [][]int{{i}, {j}})
								})
							}
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("statistics %s after [%s]: %s || one operation", kindNames[kind], names(prefix), names([]int{i, j}))
						}, func() error {
							c.Nontrivial()
							for k := range ops {
								if err := concurrent(c, kind, prefix, [][]int{{i, j}, {k}}); err != nil {
									return err
								}
							}
							return nil
						})
						if i <= j && (c.Deep() || pi == 1) {
							c.Case(func() string {
								return fmt.Sprintf("statistics %s after [%s]: %s || %s || one operation", kindNames[kind], names(prefix), names([]int{i}), names([]int{j}))
							}, func() error {
								c.Nontrivial()
								for k := j; k < len(ops); k++ {
									if err := concurrent(c, kind, prefix, [][]int{{i}, {j}, {k}}); err != nil {
										return err
									}
								}
								return nil
							})
						}
						if c.Deep() {
							c.Case(func() string {
								return fmt.Sprintf("statistics %s after [%s]: %s || two operations", kindNames[kind], names(prefix), names([]int{i, j}))
							}, func() error {
								for k := range ops {
									for l := range ops {
										if err := concurrent(c, kind, prefix, [][]int{{i, j}, {k, l}}); err != nil {
											return err
										}
										if c.Expired() {
											return nil
										}
									}
								}
								return nil
							})
						}
					}
				}
			}
		}
	})
}

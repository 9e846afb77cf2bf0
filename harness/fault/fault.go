// Package fault wraps everything a load makes use of, to observe all operations and let some of them fail.
package fault

import (
	"fmt"
	"io"
	"sort"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/tkw1536/pkglib/traversal"
)

// Obj is something that is opened and has to be closed.
type Obj struct {
	Kind   string
	closed int
	iters  int
}

// Op names an operation: the n-th of its name on all objects of a kind.
type Op struct {
	Kind, Name string
	N          int
}

func (o Op) String() string { return fmt.Sprintf("%s.%s #%d", o.Kind, o.Name, o.N) }

// Monitor sees all operations.
type Monitor struct {
	mu     sync.Mutex
	Hook   func(o Op, total int) error // called before every operation, never concurrently
	counts map[Op]int
	total  int
	Objs   []*Obj
	Misuse []string
	over   bool

	// Plain replaces everything else, if it is set: it is called before every operation,
	// and nothing is counted or synchronised.
	Plain func(kind, name string) error
}

// Over tells the monitor that no operations may follow.
func (m *Monitor) Over() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.over = true
}

// Total is the number of operations so far.
func (m *Monitor) Total() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.total
}

// Counts lists the kinds of operations with their numbers.
func (m *Monitor) Counts() (out []Op) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for o, n := range m.counts {
		o.N = n
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Kind != out[j].Kind {
			return out[i].Kind < out[j].Kind
		}
		return out[i].Name < out[j].Name
	})
	return
}

// Leaks says what was not closed, or used wrongly.
func (m *Monitor) Leaks() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, o := range m.Objs {
		if o.closed == 0 {
			return fmt.Errorf("%s was opened and never closed", o.Kind)
		}
		if o.iters > 0 {
			return fmt.Errorf("%d iterators over %s were not released", o.iters, o.Kind)
		}
	}
	if len(m.Misuse) > 0 {
		return fmt.Errorf("%v", m.Misuse)
	}
	return nil
}

func (m *Monitor) do(obj *Obj, kind, name string) error {
	if m.Plain != nil {
		return m.Plain(kind, name)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if obj != nil && name != "Close" {
		if obj.closed > 0 {
			m.Misuse = append(m.Misuse, fmt.Sprintf("%s.%s after it was closed", kind, name))
		}
	}
	if m.over && name != "Close" {
		m.Misuse = append(m.Misuse, fmt.Sprintf("%s.%s after everything was over", kind, name))
	}
	if obj != nil && name == "Close" {
		obj.closed++
	}
	k := Op{Kind: kind, Name: name}
	if m.counts == nil {
		m.counts = map[Op]int{}
	}
	n := m.counts[k]
	m.counts[k]++
	m.total++
	if m.Hook != nil {
		k.N = n
		return m.Hook(k, m.total-1)
	}
	return nil
}

// Do reports an operation, see the Hook.
func (m *Monitor) Do(obj *Obj, kind, name string) error { return m.do(obj, kind, name) }

// Open reports that something was opened.
func (m *Monitor) Open(kind string) *Obj { return m.open(kind) }

// Iterator reports that n iterators over obj were made.
func (m *Monitor) Iterator(obj *Obj, n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	obj.iters += n
	if obj.closed > 0 {
		m.Misuse = append(m.Misuse, fmt.Sprintf("an iterator over %s was made or released after it was closed", obj.Kind))
	}
}

func (m *Monitor) open(kind string) *Obj {
	if m.Plain != nil {
		return &Obj{Kind: kind}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	o := &Obj{Kind: kind}
	m.Objs = append(m.Objs, o)
	return o
}

// Engine wraps an engine.
func (m *Monitor) Engine(e igraph.Engine) igraph.Engine { return engine{m, e} }

type engine struct {
	m *Monitor
	e igraph.Engine
}

func openMap[K comparable, V any](m *Monitor, kind string, f func() (imap.HashMap[K, V], error)) (imap.HashMap[K, V], error) {
	if err := m.do(nil, kind, "Open"); err != nil {
		return nil, err
	}
	h, err := f()
	if err != nil {
		return h, err
	}
	return &hashMap[K, V]{m, m.open(kind), h}, nil
}

func (e engine) Forward() (imap.HashMap[impl.Label, imap.TripleID], error) {
	return openMap(e.m, "forward", e.e.Forward)
}
func (e engine) Reverse() (imap.HashMap[impl.ID, impl.Label], error) {
	return openMap(e.m, "reverse", e.e.Reverse)
}
func (e engine) Data() (imap.HashMap[impl.ID, impl.Datum], error) {
	return openMap(e.m, "data", e.e.Data)
}
func (e engine) Language() (imap.HashMap[impl.ID, impl.Language], error) {
	return openMap(e.m, "language", e.e.Language)
}
func (e engine) Triples() (imap.HashMap[impl.ID, igraph.IndexTriple], error) {
	return openMap(e.m, "triples", e.e.Triples)
}
func (e engine) Inverses() (imap.HashMap[impl.ID, impl.ID], error) {
	return openMap(e.m, "inverses", e.e.Inverses)
}
func (e engine) three(kind string, f func() (igraph.ThreeStorage, error)) (igraph.ThreeStorage, error) {
	if err := e.m.do(nil, kind, "Open"); err != nil {
		return nil, err
	}
	s, err := f()
	if err != nil {
		return s, err
	}
	return &three{e.m, e.m.open(kind), s}, nil
}
func (e engine) PSOIndex() (igraph.ThreeStorage, error) { return e.three("pso", e.e.PSOIndex) }
func (e engine) POSIndex() (igraph.ThreeStorage, error) { return e.three("pos", e.e.POSIndex) }

// Map wraps a map.
func Map[K comparable, V any](m *Monitor, kind string, h imap.HashMap[K, V]) imap.HashMap[K, V] {
	return &hashMap[K, V]{m, &Obj{Kind: kind}, h}
}

type hashMap[K comparable, V any] struct {
	m *Monitor
	o *Obj
	h imap.HashMap[K, V]
}

func (h *hashMap[K, V]) do(name string) error { return h.m.do(h.o, h.o.Kind, name) }

func (h *hashMap[K, V]) Close() error {
	e := h.do("Close")
	err := h.h.Close()
	if e != nil {
		return e
	}
	return err
}
func (h *hashMap[K, V]) Compact() error {
	if err := h.do("Compact"); err != nil {
		return err
	}
	return h.h.Compact()
}
func (h *hashMap[K, V]) Finalize() error {
	if err := h.do("Finalize"); err != nil {
		return err
	}
	return h.h.Finalize()
}
func (h *hashMap[K, V]) Set(key K, value V) error {
	if err := h.do("Set"); err != nil {
		return err
	}
	return h.h.Set(key, value)
}
func (h *hashMap[K, V]) Get(key K) (v V, ok bool, err error) {
	if err := h.do("Get"); err != nil {
		return v, false, err
	}
	return h.h.Get(key)
}
func (h *hashMap[K, V]) GetZero(key K) (v V, err error) {
	if err := h.do("GetZero"); err != nil {
		return v, err
	}
	return h.h.GetZero(key)
}
func (h *hashMap[K, V]) Has(key K) (bool, error) {
	if err := h.do("Has"); err != nil {
		return false, err
	}
	return h.h.Has(key)
}
func (h *hashMap[K, V]) Delete(key K) error {
	if err := h.do("Delete"); err != nil {
		return err
	}
	return h.h.Delete(key)
}
func (h *hashMap[K, V]) Iterate(f func(K, V) error) error {
	if err := h.do("Iterate"); err != nil {
		return err
	}
	err := h.h.Iterate(func(k K, v V) error {
		if err := h.do("Iterate item"); err != nil {
			return err
		}
		return f(k, v)
	})
	if err != nil {
		return err
	}
	return h.do("Iterate end")
}
func (h *hashMap[K, V]) Count() (uint64, error) {
	if err := h.do("Count"); err != nil {
		return 0, err
	}
	return h.h.Count()
}

type three struct {
	m *Monitor
	o *Obj
	s igraph.ThreeStorage
}

func (s *three) do(name string) error { return s.m.do(s.o, s.o.Kind, name) }

func (s *three) Close() error {
	e := s.do("Close")
	err := s.s.Close()
	if e != nil {
		return e
	}
	return err
}
func (s *three) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new impl.ID) (impl.ID, error)) (bool, error) {
	if err := s.do("Add"); err != nil {
		return false, err
	}
	return s.s.Add(a, b, c, l, conflict)
}
func (s *three) Count() (int64, error) {
	if err := s.do("Count"); err != nil {
		return 0, err
	}
	return s.s.Count()
}
func (s *three) Compact() error {
	if err := s.do("Compact"); err != nil {
		return err
	}
	return s.s.Compact()
}
func (s *three) Finalize() error {
	if err := s.do("Finalize"); err != nil {
		return err
	}
	return s.s.Finalize()
}
func (s *three) Fetch(a, b impl.ID, f func(c impl.ID, l impl.ID) error) error {
	if err := s.do("Fetch"); err != nil {
		return err
	}
	err := s.s.Fetch(a, b, func(c, l impl.ID) error {
		if err := s.do("Fetch item"); err != nil {
			return err
		}
		return f(c, l)
	})
	if err != nil {
		return err
	}
	return s.do("Fetch end")
}
func (s *three) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error) {
	if err := s.do("Has"); err != nil {
		return id, false, err
	}
	return s.s.Has(a, b, c)
}

// Bundles wraps a bundle engine.
func (m *Monitor) Bundles(e storages.BundleEngine) storages.BundleEngine { return bundles{m, e} }

type bundles struct {
	m *Monitor
	e storages.BundleEngine
}

func (b bundles) NewStorage(bundle *pathbuilder.Bundle) (storages.BundleStorage, error) {
	kind := "bundle " + bundle.MachineName()
	if err := b.m.do(nil, kind, "Open"); err != nil {
		return nil, err
	}
	s, err := b.e.NewStorage(bundle)
	if err != nil {
		return s, err
	}
	return &storage{b.m, b.m.open(kind), s}, nil
}

type storage struct {
	m *Monitor
	o *Obj
	s storages.BundleStorage
}

func (s *storage) do(name string) error { return s.m.do(s.o, s.o.Kind, name) }

func (s *storage) Close() error {
	e := s.do("Close")
	err := s.s.Close()
	if e != nil {
		return e
	}
	return err
}
func (s *storage) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
	if err := s.do("Add"); err != nil {
		return err
	}
	return s.s.Add(uri, path, triples)
}
func (s *storage) AddFieldValue(uri impl.Label, field string, value impl.Datum, lang impl.Language, path []impl.Label, triples []igraph.Triple) error {
	if err := s.do("AddFieldValue " + field); err != nil {
		return err
	}
	return s.s.AddFieldValue(uri, field, value, lang, path, triples)
}
func (s *storage) RegisterChildStorage(bundle string, child storages.BundleStorage) error {
	if err := s.do("RegisterChildStorage " + bundle); err != nil {
		return err
	}
	return s.s.RegisterChildStorage(bundle, child)
}
func (s *storage) AddChild(parent impl.Label, bundle string, child impl.Label) error {
	if err := s.do("AddChild " + bundle); err != nil {
		return err
	}
	return s.s.AddChild(parent, bundle, child)
}
func (s *storage) Finalize() error {
	if err := s.do("Finalize"); err != nil {
		return err
	}
	return s.s.Finalize()
}
func (s *storage) Get(parentPathIndex int) traversal.Iterator[storages.LabelWithParent] {
	name := "Get"
	if parentPathIndex >= 0 {
		name = "Get children"
	}
	if err := s.do(name); err != nil {
		return traversal.Empty[storages.LabelWithParent](err)
	}
	return &iterator{it: s.s.Get(parentPathIndex), s: s, name: name}
}
func (s *storage) Count() (int64, error) {
	if err := s.do("Count"); err != nil {
		return 0, err
	}
	return s.s.Count()
}
func (s *storage) Load(uri impl.Label) (wisski.Entity, error) {
	if err := s.do("Load"); err != nil {
		return wisski.Entity{}, err
	}
	return s.s.Load(uri)
}

type iterator struct {
	it   traversal.Iterator[storages.LabelWithParent]
	s    *storage
	name string
	err  error
}

func (i *iterator) Next() bool {
	if i.err != nil {
		return false
	}
	if i.err = i.s.do(i.name + " next"); i.err != nil {
		return false
	}
	return i.it.Next()
}
func (i *iterator) Datum() storages.LabelWithParent { return i.it.Datum() }
func (i *iterator) Err() error {
	if i.err != nil {
		return i.err
	}
	return i.it.Err()
}
func (i *iterator) Close() error { return i.it.Close() }

// Source wraps a source.
func (m *Monitor) Source(s sparkl.Source) sparkl.Source { return &source{m, s} }

type source struct {
	m *Monitor
	s sparkl.Source
}

func (s *source) Open() error {
	if err := s.m.do(nil, "source", "Open"); err != nil {
		return err
	}
	return s.s.Open()
}
func (s *source) Close() error {
	e := s.m.do(nil, "source", "Close")
	err := s.s.Close()
	if e != nil {
		return e
	}
	return err
}
func (s *source) Next() sparkl.Token {
	if err := s.m.do(nil, "source", "Next"); err != nil {
		return sparkl.Token{Err: err}
	}
	return s.s.Next()
}

// Exporter wraps an exporter.
func (m *Monitor) Exporter(e exporter.Exporter) exporter.Exporter { return &exporting{m, e} }

type exporting struct {
	m *Monitor
	e exporter.Exporter
}

func (e *exporting) do(name string) error { return e.m.do(nil, "exporter", name) }

func (e *exporting) Begin(bundle *pathbuilder.Bundle, count int64) error {
	if err := e.do("Begin " + bundle.MachineName()); err != nil {
		return err
	}
	return e.e.Begin(bundle, count)
}
func (e *exporting) Add(bundle *pathbuilder.Bundle, entity *wisski.Entity) error {
	if err := e.do("Add " + bundle.MachineName()); err != nil {
		return err
	}
	return e.e.Add(bundle, entity)
}
func (e *exporting) End(bundle *pathbuilder.Bundle) error {
	if err := e.do("End " + bundle.MachineName()); err != nil {
		return err
	}
	return e.e.End(bundle)
}
func (e *exporting) Close() error {
	x := e.do("Close")
	err := e.e.Close()
	if x != nil {
		return x
	}
	return err
}

// Reader wraps a reader.
func (m *Monitor) Reader(r io.ReadSeeker, short bool) io.ReadSeeker { return &reader{m, r, short} }

type reader struct {
	m     *Monitor
	r     io.ReadSeeker
	short bool
}

func (r *reader) Read(p []byte) (int, error) {
	if err := r.m.do(nil, "reader", "Read"); err != nil {
		return 0, err
	}
	if r.short && len(p) > 1 {
		p = p[:1]
	}
	return r.r.Read(p)
}
func (r *reader) Seek(offset int64, whence int) (int64, error) {
	if err := r.m.do(nil, "reader", "Seek"); err != nil {
		return 0, err
	}
	return r.r.Seek(offset, whence)
}

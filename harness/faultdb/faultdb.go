// Package faultdb lets a monitor see all operations on leveldb databases.
// It has to be built with -ldb.
package faultdb

import (
	"path/filepath"

	"github.com/FAU-CDI/hangover/internal/zverif/fault"
	"github.com/syndtr/goleveldb/leveldb"
)

type hook struct{ m *fault.Monitor }

// Observe makes m see all operations on databases opened from now on.
// The monitor may be nil.
func Observe(m *fault.Monitor) {
	if m == nil {
		leveldb.ZHook = nil
	} else {
		leveldb.ZHook = hook{m}
	}
}

func kind(path string) string { return "database " + filepath.Base(path) }

func (h hook) Opening(path string) error { return h.m.Do(nil, kind(path), "Open") }
func (h hook) Opened(path string) any    { return h.m.Open(kind(path)) }

func (h hook) Op(db any, name string) error {
	o := db.(*fault.Obj)
	return h.m.Do(o, o.Kind, name)
}

func (h hook) Iterator(db any, n int) { h.m.Iterator(db.(*fault.Obj), n) }

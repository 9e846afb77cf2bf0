package fault

import (
	"fmt"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	timpl "github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

// Load is a load of which everything is observed.
type Load struct {
	PB            *pathbuilder.Pathbuilder
	Mask          bool
	Compact       int
	Dir           string // cache directory
	Same, Inverse []string
	Stmts         []ref.Stmt
	NQ            string // read these lines instead of statements
	Short         bool   // in single bytes
}

// Run loads, and closes everything.
// m is told when it is over.
func (l Load) Run(m *Monitor) (result string, err error) {
	defer m.Over()
	opts := sparkl.IndexOptions{CompactInterval: l.Compact}
	if l.Mask {
		opts.Mask = l.PB
	}
	preds := sparkl.Predicates{SameAs: impl.Labels(l.Same), InverseOf: impl.Labels(l.Inverse)}
	var source sparkl.Source = &impl.Tokens{Stmts: l.Stmts}
	if l.NQ != "" {
		source = &sparkl.QuadSource{Reader: m.Reader(strings.NewReader(l.NQ), l.Short)}
	} else {
		source = m.Source(source)
	}
	index, err := sparkl.MakeIndex(source, preds, m.Engine(sparkl.NewEngine(l.Dir)), opts, nil)
	if err != nil {
		return "", err
	}
	defer func() {
		for i := 0; i < 2; i++ { // closing twice is fine
			if cErr := index.Close(); err == nil {
				err = cErr
			}
		}
	}()

	mp := exporter.Map{Data: map[string][]wisski.Entity{}}
	if err := sparkl.Export(l.PB, index, m.Bundles(storages.NewBundleEngine(l.Dir)), m.Exporter(&mp), nil); err != nil {
		return "", err
	}

	ident := imap.MakeMemory[timpl.Label, timpl.Label](0)
	identities := Map[timpl.Label, timpl.Label](m, "identities", &ident)
	if err := index.IdentityMap(identities); err != nil {
		return "", err
	}
	cache, err := sparkl.NewCache(mp.Data, identities, nil)
	if err != nil {
		return "", err
	}
	defer func() {
		if cErr := cache.Close(); err == nil {
			err = cErr
		}
	}()
	ids := map[string]string{}
	if err := ident.Iterate(func(a, b timpl.Label) error { ids[string(a)] = string(b); return nil }); err != nil {
		return "", err
	}
	return fmt.Sprint(impl.DumpAll(mp.Data), ids, index.Stats()), nil
}

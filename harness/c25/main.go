// C25: stale cache contents never influence a run, and nothing else is touched.
package main

import (
	"errors"
	"fmt"
	"io/fs"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/fault"
	timpl "github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

var flags = viewer.RenderFlags{Predicates: sparkl.Predicates{SameAs: []impl.Label{ref.SameAs}, InverseOf: []impl.Label{ref.InverseOf}}}

// place is a directory tree with a cache directory deep inside.
type place struct {
	base, cache string
	before      string
	done        func()
}

// around are the files next to and above the cache directory.
var around = []string{"keep", "x/keep", "a/keep", "b", "data.leveldb/CURRENT", "bundle-a/CURRENT", "bundles/bundle-a/CURRENT", "bundle-ba/CURRENT", "bundle-..", "bundles/bundle-ba"}

func newPlace(c *kit.Ctx) place {
	base, done := timpl.MkTemp(c.Scratch())
	p := place{base: base, done: done, cache: filepath.Join(base, "o1/o2/o3/cache")}
	for _, d := range []string{"", "o1", "o1/o2", "o1/o2/o3"} {
		for _, f := range around {
			path := filepath.Join(base, d, f)
			if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(path, []byte("something else in "+d), 0o644); err != nil {
				panic(err)
			}
		}
	}
	return p
}

// seal remembers everything outside of the cache.
func (p *place) seal() { p.before = p.outside() }

func (p *place) outside() string {
	var b strings.Builder
	filepath.WalkDir(p.base, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintln(&b, path, err)
			return nil
		}
		if path == p.cache {
			return fs.SkipDir
		}
		content := ""
		if d.Type().IsRegular() {
			data, err := os.ReadFile(path)
			content = fmt.Sprint(string(data), err)
		}
		st, err := os.Lstat(path)
		if err != nil {
			fmt.Fprintln(&b, path, err)
			return nil
		}
		fmt.Fprintf(&b, "%s %v %q\n", strings.TrimPrefix(path, p.base), st.Mode(), content)
		return nil
	})
	return b.String()
}

func (p *place) check() error {
	if now := p.outside(); now != p.before {
		return fmt.Errorf("something outside of the cache directory changed:\n%s", diff(p.before, now))
	}
	return nil
}

func diff(a, b string) string {
	in := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, l := range strings.Split(s, "\n") {
			m[l] = true
		}
		return m
	}
	x, y := in(a), in(b)
	var out []string
	for l := range x {
		if !y[l] {
			out = append(out, "- "+l)
		}
	}
	for l := range y {
		if !x[l] {
			out = append(out, "+ "+l)
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// dataset is something to be loaded.
type dataset struct {
	pb            ref.PB
	same, inverse []string
	stmts         []ref.Stmt
	broken        string
}

func dump(g *glass.Glass) string {
	all := map[string][]wisski.Entity{}
	var ids []string
	for _, b := range g.Cache.BundleNames() {
		all[b] = g.Cache.Entities(b)
		for _, e := range all[b] {
			var as []string
			for _, a := range g.Cache.Aliases(e.URI) {
				as = append(as, string(a))
			}
			sort.Strings(as)
			ids = append(ids, fmt.Sprintf("%q = %q %q", e.URI, g.Cache.Canonical(e.URI), as))
		}
	}
	sort.Strings(ids)
	return timpl.DumpAll(all) + strings.Join(ids, "\n")
}

// create loads a dataset as the application does.
func (d dataset) create(in, cache string) (string, error) {
	xml := timpl.WriteFile(in, "pb.xml", d.pb.XML())
	nq := timpl.WriteFile(in, "data.nq", ref.NQuads(d.stmts)+d.broken)
	g, err := glass.Create(xml, nq, cache, flags, nil)
	if err != nil {
		return "", err
	}
	out := dump(&g)
	return out, g.Close()
}

func (d dataset) clean(c *kit.Ctx) (string, error) {
	dir, done := timpl.MkTemp(c.Scratch())
	defer done()
	return d.create(dir, filepath.Join(dir, "cache"))
}

// again loads the dataset with the cache directory of p, and compares with the clean result.
func (d dataset) again(c *kit.Ctx, p *place, want string) error {
	in, done := timpl.MkTemp(c.Scratch())
	defer done()
	p.seal()
	got, err := d.create(in, p.cache)
	c.Trans(1)
	if d.broken != "" {
		if err == nil {
			return errors.New("broken data was loaded")
		}
		return p.check()
	}
	if err != nil {
		return fmt.Errorf("with the old cache: %v", err)
	}
	if got != want {
		return fmt.Errorf("the result differs from the one with an empty cache:\n%s", diff(want, got))
	}
	return p.check()
}

func datasets() (out []dataset) {
	worlds := ref.Worlds()
	nested, same, sib := worlds[1], worlds[4], worlds[2]
	full := nested.Subset(1<<len(nested.Universe) - 1)
	add := func(wo ref.World, stmts []ref.Stmt, broken string) {
		out = append(out, dataset{wo.PB, wo.Same, wo.Inverse, stmts, broken})
	}
	add(nested, full[:11], "")
	add(nested, append(append([]ref.Stmt{}, nested.Base...), nested.Universe[1], nested.Universe[2], nested.Universe[3]), "")
	add(same, same.Subset(1<<len(same.Universe)-1), "")
	add(sib, sib.Base, "")
	add(nested, full[:9], "broken")
	return
}

// copyTree copies a directory.
func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil // just deleted
			}
			return err
		}
		dest := filepath.Join(to, strings.TrimPrefix(path, from))
		if d.IsDir() {
			return os.MkdirAll(dest, 0o755)
		}
		data, err := os.ReadFile(path)
		if os.IsNotExist(err) {
			return nil
		}
		if err != nil {
			return err
		}
		return os.WriteFile(dest, data, 0o644)
	})
}

func mutating(name string) bool {
	for _, p := range []string{"Open", "Set", "Add", "Delete", "Compact", "Finalize", "Close", "Register"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// image runs a load of d and copies the cache directory right before the k-th operation that may change it, as if the process was killed there.
// k < 0 means the end. It returns how many operations there were.
func image(c *kit.Ctx, d dataset, k int, to string) (n int, err error) {
	dir, done := timpl.MkTemp(c.Scratch())
	defer done()
	var copyErr error
	m := fault.Monitor{Hook: func(o fault.Op, _ int) error {
		if !mutating(o.Name) || o.Kind == "source" || o.Kind == "exporter" || o.Kind == "identities" {
			return nil
		}
		if n == k {
			copyErr = copyTree(dir, to)
		}
		n++
		return nil
	}}
	if _, err := (fault.Load{PB: timpl.Pathbuilder(d.pb), Mask: true, Dir: dir, Same: d.same, Inverse: d.inverse, Stmts: d.stmts}).Run(&m); err != nil {
		return n, fmt.Errorf("the earlier run: %v", err)
	}
	if k < 0 {
		copyErr = copyTree(dir, to)
	}
	return n, copyErr
}

func main() {
	kit.Main(kit.Spec{
		Property: "C25", Level: "model_checking", Shards: 12, GC: 50, Drop: true,
		Rule: "an earlier load is stopped before each operation that changes a storage, and the files it leaves, as they are and damaged in all listed ways, are the cache directory of a later load of the same or other data, whose result must be the one with an empty directory; all short sequences of loads in one directory; all bundle names and pairs of names from a critical list; files around the cache directory must stay as they are",
	}, func(c *kit.Ctx) {
		ds := datasets()
		var want []string
		for _, d := range ds {
			w := ""
			if d.broken == "" {
				var err error
				w, err = d.clean(c)
				if err != nil || w == "" {
					c.Case(func() string { return "an empty cache directory" }, func() error { _, err := d.clean(c); return err })
				}
			}
			want = append(want, w)
		}
		crashes(c, ds, want)
		histories(c, ds, want)
		damages(c, ds, want)
		names(c)
		pairs(c)
	})
}

func crashes(c *kit.Ctx, ds []dataset, want []string) {
	for _, xy := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {2, 0}, {0, 2}} {
		x, y := xy[0], xy[1]
		for k := 0; k < kit.Pick(c, 220, 600); k++ {
			k := k
			if !c.Deep() && x != y && k%5 != 0 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("dataset %d stopped before change %d, then dataset %d", x, k, y) }, func() error {
				p := newPlace(c)
				defer p.done()
				n, err := image(c, ds[x], k, p.cache)
				if err != nil {
					return err
				}
				if k >= n {
					return kit.Skip
				}
				c.Nontrivial()
				c.StateOf(fmt.Sprint("crash", x, k))
				for i := 0; i < 2; i++ { // the second time with what the later one left
					if err := ds[y].again(c, &p, want[y]); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

func histories(c *kit.Ctx, ds []dataset, want []string) {
	var rec func(seq []int, n int)
	rec = func(seq []int, n int) {
		if n == 0 {
			seq := append([]int{}, seq...)
			c.Case(func() string { return fmt.Sprintf("datasets %v one after the other", seq) }, func() error {
				p := newPlace(c)
				defer p.done()
				c.Nontrivial()
				for _, i := range seq {
					if err := ds[i].again(c, &p, want[i]); err != nil {
						return fmt.Errorf("dataset %d: %v", i, err)
					}
				}
				c.StateOf(fmt.Sprint(seq))
				return nil
			})
			return
		}
		for i := range ds {
			rec(append(seq, i), n-1)
		}
	}
	rec(nil, kit.Pick(c, 3, 4))
}

// harm is a way to damage a file or a directory.
type harm struct {
	name string
	do   func(p *place, path string, data []byte) error
}

var fileHarms = []harm{
	{"removed", func(_ *place, path string, _ []byte) error { return os.Remove(path) }},
	{"emptied", func(_ *place, path string, _ []byte) error { return os.WriteFile(path, nil, 0o644) }},
	{"cut in half", func(_ *place, path string, data []byte) error { return os.Truncate(path, int64(len(data)/2)) }},
	{"cut by one byte", func(_ *place, path string, data []byte) error { return os.Truncate(path, int64(max(0, len(data)-1))) }},
	{"changed", func(_ *place, path string, data []byte) error {
		if len(data) == 0 {
			return nil
		}
		data = append([]byte{}, data...)
		data[len(data)/2] ^= 0x55
		return os.WriteFile(path, data, 0o644)
	}},
	{"garbage", func(_ *place, path string, _ []byte) error {
		return os.WriteFile(path, []byte(strings.Repeat("garbage\n", 1000)), 0o644)
	}},
	{"a directory", func(_ *place, path string, _ []byte) error {
		if err := os.Remove(path); err != nil {
			return err
		}
		return os.MkdirAll(filepath.Join(path, "x"), 0o755)
	}},
	{"not writable", func(_ *place, path string, _ []byte) error { return os.Chmod(path, 0o400) }},
}

var dirHarms = []harm{
	{"removed", func(_ *place, path string, _ []byte) error { return os.RemoveAll(path) }},
	{"emptied", func(_ *place, path string, _ []byte) error {
		if err := os.RemoveAll(path); err != nil {
			return err
		}
		return os.Mkdir(path, 0o755)
	}},
	{"a file", func(_ *place, path string, _ []byte) error {
		if err := os.RemoveAll(path); err != nil {
			return err
		}
		return os.WriteFile(path, []byte("file"), 0o644)
	}},
	{"with more", func(_ *place, path string, _ []byte) error {
		return errors.Join(os.WriteFile(filepath.Join(path, "999999.ldb"), []byte("x"), 0o644), os.WriteFile(filepath.Join(path, "000999.log"), []byte("x"), 0o644), os.Mkdir(filepath.Join(path, "d"), 0o755))
	}},
	{"a link to another place", func(p *place, path string, _ []byte) error {
		if err := os.Rename(path, filepath.Join(p.base, "o1", "moved")); err != nil {
			return err
		}
		return os.Symlink(filepath.Join(p.base, "o1", "moved"), path)
	}},
}

// databases lists the directories below dir that contain files, and these files.
func databases(dir string) (dirs, files []string) {
	seen := map[string]bool{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			files = append(files, path)
			if in := filepath.Dir(path); !seen[in] && in != dir {
				seen[in] = true
				dirs = append(dirs, in)
			}
		}
		return nil
	})
	sort.Strings(files)
	sort.Strings(dirs)
	return
}

func damages(c *kit.Ctx, ds []dataset, want []string) {
	points := kit.Pick(c, []int{-1, 90}, []int{-1, 20, 60, 90, 120, 160})
	sizes := map[[2]int]int{} // the number of files or databases, about
	for _, k := range points {
		for h, harm := range append(append([]harm{}, fileHarms...), dirHarms...) {
			for i := 0; i < 120; i++ {
				h, harm, i, k := h, harm, i, k
				isFile := h < len(fileHarms)
				c.Case(func() string {
					return fmt.Sprintf("dataset 0 stopped at %d, entry %d (file: %v) is %s", k, i, isFile, harm.name)
				}, func() error {
					if n, ok := sizes[[2]int{k, h}]; ok && i > n+5 {
						return kit.Skip
					}
					p := newPlace(c)
					defer p.done()
					if _, err := image(c, ds[0], k, p.cache); err != nil {
						return err
					}
					list, files := databases(p.cache)
					if isFile {
						list = files
					}
					sizes[[2]int{k, h}] = len(list)
					if i >= len(list) {
						return kit.Skip
					}
					var data []byte
					if isFile {
						data, _ = os.ReadFile(list[i])
					}
					if err := harm.do(&p, list[i], data); err != nil {
						return fmt.Errorf("preparing: %v", err)
					}
					c.Nontrivial()
					c.StateOf(fmt.Sprint("damage", k, h, i))
					return ds[0].again(c, &p, want[0])
				})
			}
		}
		// databases in the wrong place
		for i := 0; i < 12; i++ {
			i, k := i, k
			c.Case(func() string { return fmt.Sprintf("dataset 0 stopped at %d, databases rotated by %d", k, i) }, func() error {
				p := newPlace(c)
				defer p.done()
				if _, err := image(c, ds[0], k, p.cache); err != nil {
					return err
				}
				dirs, _ := databases(p.cache)
				if len(dirs) <= i {
					return kit.Skip
				}
				for j, d := range dirs {
					if err := os.Rename(d, fmt.Sprintf("%s/t%d", p.base, j)); err != nil {
						return err
					}
				}
				for j := range dirs {
					if err := os.Rename(fmt.Sprintf("%s/t%d", p.base, j), dirs[(j+i)%len(dirs)]); err != nil {
						return err
					}
				}
				c.Nontrivial()
				for _, y := range []int{0, 1} {
					if err := ds[y].again(c, &p, want[y]); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

// critical lists bundle names. BASE stands for the directory of the case.
var critical = []string{
	"a", "A", "b", ".", "..", "...", "../x", "../../x", "../../../x", "../../../../x", "../keep", "../../a", "a/b", "a/../b", "/x", "a/", "/", "//", "BASE/x", "BASE/o1/keep", "BASE/o1/o2/o3/a",
	"a\\b", "..\\x", "a%2Fb", "a%2fb", "%2e%2e", "%2E%2E%2Fx", "%", "%%", "%25", "a b", "a+b", "a%20b", "a?b", "a#b", "a:b", "ü", "日本", "é", "é", "~", "$HOME", "*", "[a]", "bundle-a", "bundles", "data.leveldb", "pos.leveldb",
	"../data.leveldb", "../../data.leveldb", "../bundles", "../bundles/bundle-a", "../bundle-a", "../../bundle-a", "x/../../data.leveldb", "LOCK", "CURRENT", "a.", "a..", ".a", "-", "--", "1", "00", "a;b", "a&b", "a<b", "a'b", "a\"b", "a|b", "a,b", "a=b", "a@b", "a\u2028b", "a\u00a0b",
	strings.Repeat("x", 200), strings.Repeat("ü", 60), strings.Repeat("x", 300), strings.Repeat("../", 30) + "x", "x" + strings.Repeat("/..", 3) + "/keep",
}

func tooLong(name string) bool { return len(url.PathEscape(name)) > 200 || strings.Count(name, "/") > 20 }

func (p *place) name(n string) string { return strings.ReplaceAll(n, "BASE", p.base) }

func bundlesOf(names ...string) ref.PB {
	pb := ref.PB{Name: "names"}
	for i, n := range names {
		class := fmt.Sprintf("http://e.org/C%d", i)
		pb.Bundles = append(pb.Bundles, ref.Bundle{ID: n, Path: []string{class}, Fields: []ref.Field{{ID: fmt.Sprintf("field%d", i), Path: []string{class}, Datatype: "http://e.org/w"}}})
	}
	return pb
}

// names loads pathbuilders with critical names, at the top and as a child.
func names(c *kit.Ctx) {
	for _, n := range critical {
		for _, child := range []bool{false, true} {
			n, child := n, child
			c.Case(func() string { return fmt.Sprintf("a bundle %q, as a child: %v", n, child) }, func() error {
				p := newPlace(c)
				defer p.done()
				name := p.name(n)
				pb := bundlesOf(name, "other")
				if child {
					pb = bundlesOf("parent", "other")
					pb.Bundles[0].Children = []ref.Bundle{{ID: name, Path: []string{"http://e.org/C0", "http://e.org/p", "http://e.org/C1"},
						Fields: []ref.Field{{ID: "field2", Path: []string{"http://e.org/C0", "http://e.org/p", "http://e.org/C1"}, Datatype: "http://e.org/w"}}}}
				}
				t := func(s, class string) ref.Stmt { return ref.Stmt{S: s, P: ref.Type, O: class} }
				d := dataset{pb: pb, stmts: []ref.Stmt{t("http://e.org/a", "http://e.org/C0"), t("http://e.org/b", "http://e.org/C1"),
					{S: "http://e.org/a", P: "http://e.org/p", O: "http://e.org/b"}, {S: "http://e.org/a", P: "http://e.org/w", O: "one", Lit: true}, {S: "http://e.org/b", P: "http://e.org/w", O: "two", Lit: true}}}
				in, done := timpl.MkTemp(c.Scratch())
				defer done()
				want, err := d.create(in, "")
				if err != nil {
					return fmt.Errorf("in memory: %v", err)
				}
				c.Nontrivial()
				c.StateOf(n)
				for i := 0; i < 3; i++ {
					err := d.again(c, &p, want)
					if err != nil && tooLong(name) && p.check() == nil {
						return nil // refused by the file system
					}
					if err != nil {
						return fmt.Errorf("run %d: %v", i, err)
					}
				}
				// the rest of what it left cannot matter to others either
				d.pb = bundlesOf("a", "other")
				want, err = d.create(in, "")
				if err != nil {
					return err
				}
				return d.again(c, &p, want)
			})
		}
	}
}

// inodes lists the files below a directory.
func inodes(dir string) map[string]uint64 {
	out := map[string]uint64{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			if st, err := os.Lstat(path); err == nil {
				out[path] = st.Sys().(*syscall.Stat_t).Ino
			}
		}
		return nil
	})
	return out
}

// pairs opens the storages of two bundles.
func pairs(c *kit.Ctx) {
	for i, n := range critical {
		for j, m := range critical {
			if i == j || !c.Deep() && (i+j)%4 != 0 && (i > 24 || j > 24) {
				continue
			}
			n, m := n, m
			c.Case(func() string { return fmt.Sprintf("storages of bundles %q and %q", n, m) }, func() error {
				p := newPlace(c)
				defer p.done()
				p.seal()
				pb := timpl.Pathbuilder(bundlesOf(p.name(n), p.name(m)))
				engine := storages.NewBundleEngine(p.cache)
				var open []storages.BundleStorage
				defer func() {
					for _, s := range open {
						s.Close()
					}
				}()
				var first map[string]uint64
				for k, b := range pb.Bundles() {
					s, err := engine.NewStorage(b)
					if err != nil {
						if tooLong(b.MachineName()) {
							return p.check()
						}
						return fmt.Errorf("opening %q: %v", b.MachineName(), err)
					}
					open = append(open, s)
					now := inodes(p.cache)
					if k == 0 {
						first = now
						continue
					}
					for path, ino := range first {
						if now[path] != ino {
							return fmt.Errorf("opening %q replaces %s of %q", m, strings.TrimPrefix(path, p.cache), n)
						}
					}
				}
				for k, s := range open {
					if err := s.Add("u", []impl.Label{impl.Label(fmt.Sprint(k))}, nil); err != nil {
						return err
					}
					if k == 1 {
						if err := s.Add("v", []impl.Label{"v"}, nil); err != nil {
							return err
						}
					}
					if err := s.AddFieldValue("u", "f", impl.Datum(fmt.Sprint("text", k)), "", nil, nil); err != nil {
						return err
					}
				}
				c.Trans(6)
				for k, s := range open {
					if err := s.Finalize(); err != nil {
						return err
					}
					e, err := s.Load("u")
					if err != nil {
						return err
					}
					if len(e.Path) != 1 || string(e.Path[0]) != fmt.Sprint(k) || len(e.Fields["f"]) != 1 || string(e.Fields["f"][0].Value) != fmt.Sprint("text", k) {
						return fmt.Errorf("storage %d holds %v", k, timpl.Dump(&e, false))
					}
					if _, err := s.Load("v"); (err == nil) != (k == 1) {
						return fmt.Errorf("storage %d has the entity of the other: %v", k, err)
					}
				}
				c.Nontrivial()
				return p.check()
			})
		}
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

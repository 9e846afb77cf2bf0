// C28: input selection picks exactly the given sources or fails.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	hangover "github.com/FAU-CDI/hangover"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
)

// kinds of things a name can stand for
const (
	regular = iota
	empty
	dir
	fileLink
	dirLink
	dangling
	fifo
	missing
	kinds
)

var kindNames = [...]string{"file", "empty file", "directory", "link to a file", "link to a directory", "dangling link", "pipe", "nothing"}

func isFile(kind int) bool { return kind == regular || kind == empty || kind == fileLink }

// place creates a thing of the given kind.
func place(path string, kind int, target string) error {
	switch kind {
	case regular:
		return os.WriteFile(path, []byte("content of "+path), 0o600)
	case empty:
		return os.WriteFile(path, nil, 0o600)
	case dir:
		return os.Mkdir(path, 0o700)
	case fileLink:
		return os.Symlink(filepath.Join(target, "file"), path)
	case dirLink:
		return os.Symlink(filepath.Join(target, "dir"), path)
	case dangling:
		return os.Symlink(filepath.Join(target, "none"), path)
	case fifo:
		return syscall.Mkfifo(path, 0o600)
	}
	return nil
}

func find(allow bool, argv ...string) (nq, xml, index string, err error) {
	nq, xml, index, err = hangover.FindSource(allow, argv...)
	if err != nil && nq+xml+index != "" {
		err = nil
		return nq, xml, index, fmt.Errorf("%w: error and sources %q %q %q", errBoth, nq, xml, index)
	}
	return
}

var errBoth = fmt.Errorf("both returned")

func same(got, want string) bool {
	a, err := os.Stat(got)
	if err != nil {
		return false
	}
	b, err := os.Stat(want)
	return err == nil && os.SameFile(a, b) && filepath.Base(got) == filepath.Base(want)
}

// what is expected of a call
const (
	refuse = iota
	sources
	export
	either = 8 // or refuse
)

func expect(what int, nq, xml, index string, allow bool, argv ...string) error {
	n, x, i, err := find(allow, argv...)
	if err != nil {
		if strings.HasPrefix(err.Error(), errBoth.Error()) {
			return err
		}
		if what&either == 0 && what != refuse {
			return fmt.Errorf("refused: %v", err)
		}
		return nil
	}
	switch what &^ either {
	case sources:
		if i != "" || !same(n, nq) || !same(x, xml) {
			return fmt.Errorf("expected data %q and pathbuilder %q, got %q, %q and export %q", nq, xml, n, x, i)
		}
	case export:
		if n != "" || x != "" || !same(i, index) {
			return fmt.Errorf("expected export %q, got %q, data %q and pathbuilder %q", index, i, n, x)
		}
	default:
		return fmt.Errorf("not refused: got data %q, pathbuilder %q, export %q", n, x, i)
	}
	return nil
}

type entry struct {
	name string
	kind int
}

var dirNames = []string{
	"plain", "[a]", "[", "]", "a*b", "*", "a?b", "a\\b", "a[", "[^a]", "{a,b}", "with blank", " lead", "trail ", "-x", "--", "~", "$HOME", "%41", "%", "a%2Fb",
	"dir.xml", "dir.nq", "x.xml.nq", ".hidden", "...", "ümläut", "日本", "a\nb", "a\tb", "\xff", "a'b", "a\"b", "a;b", "a#b", "a:b", "c:", "[a-z]*", "\\*", "nqxml",
	strings.Repeat("l", 200),
}

var extras = []string{"a.XML", "a.NQ", "a.xml.bak", "a.nq.gz", "axml", "anq", "a.nqx", "a.xmlx", "readme", "a.nq ", "a.xm", "a.n", "xml", "nq", "a.nq~", "a.xml,v"}

var xmlNames = []string{"a.xml", "b.xml", "data.nq.xml", ".xml", "[a].xml", " .xml", "-.xml"}
var nqNames = []string{"a.nq", "b.nq", "a.xml.nq", ".nq", "[a].nq", " .nq", "-.nq"}

// scene creates a directory with entries, and checks all ways to name it.
func scene(c *kit.Ctx, name string, entries []entry) error {
	root, err := os.MkdirTemp(c.Scratch(), "s")
	if err != nil {
		return err
	}
	defer os.RemoveAll(root)
	target := filepath.Join(root, "target")
	for _, d := range []string{target, filepath.Join(target, "dir")} {
		if err := os.Mkdir(d, 0o700); err != nil {
			return err
		}
	}
	// the linked directory, and those next to the tested one, would be sources
	for _, f := range []string{"file", "dir/l.xml", "dir/l.nq", "../a.xml", "../a.nq", "../ab", "../a/"} {
		if strings.HasSuffix(f, "/") {
			if err := os.Mkdir(filepath.Join(target, f), 0o700); err != nil {
				return err
			}
			f += "s.xml"
			if err := os.WriteFile(filepath.Join(target, "../a/s.nq"), nil, 0o600); err != nil {
				return err
			}
		}
		if err := os.WriteFile(filepath.Join(target, f), []byte(f), 0o600); err != nil {
			return err
		}
	}
	base := filepath.Join(root, name)
	if err := os.Mkdir(base, 0o700); err != nil {
		return err
	}
	what, nq, xml := sources, "", ""
	var nqs, xmls, odd int
	for _, e := range entries {
		p := filepath.Join(base, e.name)
		if err := place(p, e.kind, target); err != nil {
			return err
		}
		isX, isN := strings.HasSuffix(e.name, ".xml"), strings.HasSuffix(e.name, ".nq")
		switch {
		case e.kind == missing || !isX && !isN:
		case !isFile(e.kind):
			odd++
		case isX:
			xmls++
			xml = p
		default:
			nqs++
			nq = p
		}
	}
	switch {
	case nqs != 1 || xmls != 1:
		what = refuse
	case odd > 0: // not files, but may be confusing
		what |= either
	}
	cwd, err := os.Getwd()
	if err != nil {
		return err
	}
	defer os.Chdir(cwd)
	for _, way := range []struct{ from, arg string }{
		{root, base}, {root, base + "/"}, {root, "./" + name}, {base, "."}, {base, "./"}, {filepath.Join(root, "target"), "../" + name}, {root, name}, {root, name + "//."},
	} {
		if err := os.Chdir(way.from); err != nil {
			return err
		}
		for _, allow := range []bool{false, true} {
			if err := expect(what, nq, xml, "", allow, way.arg); err != nil {
				return fmt.Errorf("argument %q, exports %v: %v", way.arg, allow, err)
			}
			c.Trans(1)
		}
	}
	c.Nontrivial()
	c.StateOf(name + describe(entries))
	return nil
}

func arguments(c *kit.Ctx, kindsOf []int) error {
	root, err := os.MkdirTemp(c.Scratch(), "s")
	if err != nil {
		return err
	}
	defer os.RemoveAll(root)
	target := filepath.Join(root, "target")
	for _, d := range []string{target, filepath.Join(target, "dir")} {
		if err := os.Mkdir(d, 0o700); err != nil {
			return err
		}
	}
	for _, f := range []string{"file", "dir/l.xml", "dir/l.nq"} {
		if err := os.WriteFile(filepath.Join(target, f), []byte(f), 0o600); err != nil {
			return err
		}
	}
	files := true
	for i, k := range kindsOf {
		p := filepath.Join(root, fmt.Sprintf("arg%d", i))
		if err := place(p, k, target); err != nil {
			return err
		}
		files = files && isFile(k)
	}
	cwd, err := os.Getwd()
	if err != nil {
		return err
	}
	defer os.Chdir(cwd)
	if err := os.Chdir(root); err != nil {
		return err
	}
	for _, names := range [][2]string{{"arg%d", ""}, {root + "/arg%d", ""}, {"./arg%d", ""}, {"arg%d", ".nq"}, {"arg%d", ".xml"}} {
		var argv []string
		for i := range kindsOf {
			arg := fmt.Sprintf(names[0], i)
			if names[1] != "" {
				link := arg + names[1]
				os.Remove(link)
				if kindsOf[i] != missing {
					if err := os.Rename(arg, link); err != nil {
						return err
					}
					defer os.Rename(link, arg)
				}
				arg = link
			}
			argv = append(argv, arg)
		}
		for _, allow := range []bool{false, true} {
			what, nq, xml, index := refuse, "", "", ""
			switch {
			case len(kindsOf) == 2 && files:
				what, xml, nq = sources, argv[0], argv[1]
			case len(kindsOf) == 1:
				switch {
				case kindsOf[0] == dirLink:
					what, xml, nq = sources, filepath.Join(argv[0], "l.xml"), filepath.Join(argv[0], "l.nq")
				case files && allow:
					what, index = export, argv[0]
				case kindsOf[0] == fifo && allow:
					what, index = export|either, argv[0]
				}
			}
			if err := expect(what, nq, xml, index, allow, argv...); err != nil {
				return fmt.Errorf("arguments %q, exports %v: %v", argv, allow, err)
			}
			c.Trans(1)
		}
		if names[1] != "" {
			for i := range kindsOf {
				arg := fmt.Sprintf("arg%d", i)
				os.Rename(arg+names[1], arg)
			}
		}
	}
	c.Nontrivial()
	c.StateOf(fmt.Sprint(kindsOf))
	return nil
}

func describe(entries []entry) string {
	s := ""
	for _, e := range entries {
		s += fmt.Sprintf(", %q (%s)", e.name, kindNames[e.kind])
	}
	return s
}

func main() {
	kit.Main(kit.Spec{
		Property: "C28", Level: "model_checking", Shards: 8,
		Rule: "all lists of arguments up to the stated length over all kinds of files, and all combinations of entries of a directory over the stated names and kinds, under all listed directory names and ways to name it; the selected sources must be exactly the ones the rule names, or an error with no source",
	}, func(c *kit.Ctx) {
		// argument lists
		var rec func(ks []int, n int)
		rec = func(ks []int, n int) {
			own := append([]int{}, ks...)
			c.Case(func() string {
				s := "arguments"
				for _, k := range own {
					s += ", " + kindNames[k]
				}
				return s
			}, func() error { return arguments(c, own) })
			if n == 0 {
				return
			}
			for k := 0; k < kinds; k++ {
				rec(append(ks, k), n-1)
			}
		}
		rec(nil, kit.Pick(c, 3, 4))
		for _, argv := range [][]string{{""}, {"", ""}, {"\x00"}, {"a\x00b", "c"}, {"/dev/null"}, {"/dev/null", "/dev/null"}} {
			argv := argv
			c.Case(func() string { return fmt.Sprintf("arguments %q", argv) }, func() error {
				for _, allow := range []bool{false, true} {
					what, index := refuse, ""
					if len(argv) == 1 && argv[0] == "/dev/null" && allow {
						what, index = export|either, argv[0]
					}
					if err := expect(what, "", "", index, allow, argv...); err != nil {
						return err
					}
				}
				return nil
			})
		}
		dirScene := func(name string, entries []entry) {
			entries = append([]entry{}, entries...)
			c.Case(func() string { return fmt.Sprintf("directory %q%s", name, describe(entries)) }, func() error { return scene(c, name, entries) })
		}
		// contents: each pair of names for either extension with each kind, and something else
		for x := range xmlNames {
			for n := range nqNames {
				dirScene("plain", []entry{{xmlNames[x], regular}, {nqNames[n], regular}})
				dirScene("plain", []entry{{xmlNames[x], regular}, {nqNames[n], regular}, {"c.xml", regular}})
				dirScene("plain", []entry{{xmlNames[x], regular}, {nqNames[n], regular}, {"c.nq", regular}})
			}
		}
		for a := 0; a < kinds; a++ {
			for b := 0; b < kinds; b++ {
				for x := 0; x < kinds; x++ {
					for y := 0; y < kinds; y++ {
						if !c.Deep() && a != missing && b != missing && x != missing && y != missing && (a+b+x+y)%4 != 0 {
							continue
						}
						dirScene("plain", []entry{{"a.xml", a}, {"b.xml", x}, {"a.nq", b}, {"b.nq", y}})
					}
				}
			}
		}
		for _, name := range dirNames {
			for mask := 0; mask < 16; mask++ {
				var es []entry
				for i, e := range []string{"a.xml", "b.xml", "a.nq", "b.nq"} {
					if mask>>i&1 == 1 {
						es = append(es, entry{e, regular})
					}
				}
				dirScene(name, es)
			}
		}
		// other files never matter, and never stand in
		for _, name := range []string{"plain", "[a]"} {
			for i, e := range extras {
				for _, kind := range []int{regular, dir} {
					dirScene(name, []entry{{"o.xml", regular}, {"o.nq", regular}, {e, kind}})
					dirScene(name, []entry{{"o.xml", regular}, {e, kind}})
					dirScene(name, []entry{{"o.nq", regular}, {e, kind}})
					for _, f := range extras[:i] {
						dirScene(name, []entry{{f, kind}, {e, kind}})
					}
				}
			}
		}
		// numbers of files
		for x := 0; x <= 4; x++ {
			for n := 0; n <= 4; n++ {
				var es []entry
				for i := 0; i < x; i++ {
					es = append(es, entry{fmt.Sprintf("%d.xml", i), regular})
				}
				for i := 0; i < n; i++ {
					es = append(es, entry{fmt.Sprintf("%d.nq", i), regular})
				}
				dirScene("plain", es)
			}
		}
	})
}

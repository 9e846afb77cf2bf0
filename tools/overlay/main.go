// Command overlay writes the build overlay that puts the harness packages into
// the module and (optionally) instruments the code under test.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

var (
	gcRe   = regexp.MustCompile(`\bruntime\.GC\(\)`)
	freeRe = regexp.MustCompile(`\bdebug\.FreeOSMemory\(\)`)
)

func main() {
	repo := flag.String("repo", "/repo", "")
	harness := flag.String("harness", "", "")
	out := flag.String("out", "", "")
	sched := flag.Bool("sched", false, "instrument for the controlled scheduler")
	ldb := flag.Bool("ldb", false, "let every operation on a leveldb database be observed, and fail")
	fyne := flag.Bool("fyne", false, "let windows of the headless driver of fyne be closed by a user")
	flag.Parse()

	replace := map[string]string{}

	// harness packages
	err := filepath.Walk(*harness, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*harness, path)
		replace[filepath.Join(*repo, "internal", "zverif", rel)] = path
		return nil
	})
	if err != nil {
		fatal(err)
	}

	// forced garbage collections have no effect on results but dominate the
	// cost of an execution; leave them out
	instr := filepath.Join(*out, "instr")
	os.RemoveAll(instr)
	for _, top := range []string{"internal", "pkg"} {
		filepath.Walk(filepath.Join(*repo, top), func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			dst := gcRe.ReplaceAll(src, []byte("func() { _ = runtime.GC }()"))
			dst = freeRe.ReplaceAll(dst, []byte("func() { _ = debug.FreeOSMemory }()"))
			if string(dst) == string(src) {
				return nil
			}
			rel, _ := filepath.Rel(*repo, path)
			to := filepath.Join(instr, rel)
			os.MkdirAll(filepath.Dir(to), 0o755)
			if err := os.WriteFile(to, dst, 0o644); err != nil {
				fatal(err)
			}
			replace[path] = to
			return nil
		})
	}

	// measuring memory sleeps up to a second per stage, which is of no interest here
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "github.com/tkw1536/pkglib/perf")
	cmd.Dir = *repo
	if dir, err := cmd.Output(); err == nil {
		file := filepath.Join(strings.TrimSpace(string(dir)), "perf.go")
		if src, err := os.ReadFile(file); err == nil {
			dst := strings.Replace(string(src), "int(time.Second / measureHeapSleep)", "1 + 0*int(time.Second/measureHeapSleep)", 1)
			if *sched { // do not measure at all
				dst = strings.Replace(dst, "1 + 0*int(", "0*int(", 1)
			}
			dst = strings.Replace(dst, "time.Sleep(measureHeapSleep)", "", 1)
			dst = strings.Replace(dst, "runtime.GC()", "", 1)
			to := filepath.Join(*out, "perf.go")
			if err := os.WriteFile(to, []byte(dst), 0o644); err == nil {
				replace[file] = to
			}
		}
	}

	if *ldb {
		if err := hookLevelDB(*repo, *harness, *out, replace); err != nil {
			fatal(err)
		}
	}

	if *fyne {
		if err := hookFyne(*repo, *harness, *out, replace); err != nil {
			fatal(err)
		}
	}

	if *sched {
		if err := instrument(*repo, filepath.Join(filepath.Dir(*harness), "sched"), instr, replace); err != nil {
			fatal(err)
		}
	}

	data, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0o644); err != nil {
		fatal(err)
	}
}

// hookLevelDB renames the operations of leveldb.DB, and adds ones that ask a hook first (see ldb/zverif.go.txt).
func hookLevelDB(repo, harness, out string, replace map[string]string) error {
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "github.com/syndtr/goleveldb/leveldb")
	cmd.Dir = repo
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("leveldb: %w", err)
	}
	dir := strings.TrimSpace(string(data))
	left := map[string]bool{}
	for _, name := range []string{"func (db *DB) Get(", "func (db *DB) Has(", "func (db *DB) NewIterator(", "func (db *DB) Close(",
		"func (db *DB) Put(", "func (db *DB) Delete(", "func (db *DB) Write(", "func (db *DB) CompactRange(", "func (db *DB) SetReadOnly(", "func OpenFile("} {
		left[name] = true
	}
	for _, file := range []string{"db.go", "db_write.go"} {
		path := filepath.Join(dir, file)
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		src := string(data)
		for name := range left {
			i := strings.LastIndexAny(name, " )") + 1
			if at := strings.Index(src, "\n"+name); at >= 0 {
				src = src[:at+1+i] + "z" + src[at+1+i:]
				delete(left, name)
			}
		}
		src = strings.ReplaceAll(src, "(*DB).Close)", "(*DB).zClose)")
		to := filepath.Join(out, "ldb_"+file)
		if err := os.WriteFile(to, []byte(src), 0o644); err != nil {
			return err
		}
		replace[path] = to
	}
	if len(left) > 0 {
		return fmt.Errorf("leveldb: not found: %v", left)
	}
	replace[filepath.Join(dir, "zverif.go")] = filepath.Join(filepath.Dir(harness), "tools", "overlay", "zverif_leveldb.go.txt")
	return nil
}

// hookFyne replaces some methods of the windows of the headless driver (see zverif_fyne.go.txt).
func hookFyne(repo, harness, out string, replace map[string]string) error {
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "fyne.io/fyne/v2/test")
	cmd.Dir = repo
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("fyne: %w", err)
	}
	dir := strings.TrimSpace(string(data))
	path := filepath.Join(dir, "testwindow.go")
	data, err = os.ReadFile(path)
	if err != nil {
		return err
	}
	src := string(data)
	for _, name := range []string{"Close()", "ShowAndRun()", "SetCloseIntercept("} {
		if !strings.Contains(src, "func (w *testWindow) "+name) {
			return fmt.Errorf("fyne: no %s", name)
		}
		src = strings.Replace(src, "func (w *testWindow) "+name, "func (w *testWindow) z"+name, 1)
	}
	to := filepath.Join(out, "fyne_testwindow.go")
	if err := os.WriteFile(to, []byte(src), 0o644); err != nil {
		return err
	}
	replace[path] = to
	replace[filepath.Join(dir, "zverif.go")] = filepath.Join(filepath.Dir(harness), "tools", "overlay", "zverif_fyne.go.txt")

	// a refresh may come before there is a window
	path = filepath.Join(dir, "testdriver.go")
	if data, err = os.ReadFile(path); err != nil {
		return err
	}
	to = filepath.Join(out, "fyne_testdriver.go")
	src = strings.Replace(string(data), "	// cheating: ", "	if len(d.windows) == 0 {\n\t\treturn nil\n\t}\n\t// cheating: ", 1)
	if err := os.WriteFile(to, []byte(src), 0o644); err != nil {
		return err
	}
	replace[path] = to

	// do not watch the settings of the desktop: there are not enough watches for hundreds of applications
	path = filepath.Join(filepath.Dir(dir), "app", "settings_desktop.go")
	if data, err = os.ReadFile(path); err != nil {
		return err
	}
	to = filepath.Join(out, "fyne_settings_desktop.go")
	src = strings.Replace(string(data), "func (s *settings) watchSettings() {\n", "func (s *settings) watchSettings() {\n\tif s != nil {\n\t\treturn\n\t}\n", 1)
	src = strings.Replace(src, "callback func()) *fsnotify.Watcher {\n", "callback func()) *fsnotify.Watcher {\n\tif callback != nil {\n\t\treturn nil\n\t}\n", 1)
	if err := os.WriteFile(to, []byte(src), 0o644); err != nil {
		return err
	}
	replace[path] = to
	return nil
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "overlay:", err)
	os.Exit(2)
}

// C14: n2j writes the selected output completely or fails.
package main

import (
	"bytes"
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/wisski"
	zimpl "github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/sqlref"
	_ "github.com/glebarez/go-sqlite"
)

const ex = "http://x/"

var n2j string

type run struct {
	code           int
	stdout, stderr []byte
	timeout        bool
}

// limit (in KiB) bounds the size of files; < 0 means no limit.
func runN2J(dir string, limit int, stdout string, args ...string) run {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n2j, args...)
	if limit >= 0 {
		cmd = exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", fmt.Sprintf(`ulimit -c 0; ulimit -f %d; exec "$0" "$@"`, limit), n2j}, args...)...)
	}
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if stdout != "" {
		f, err := os.OpenFile(stdout, os.O_CREATE|os.O_WRONLY, 0o600)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	// the limit must not apply to the diagnostics
	err := cmd.Run()
	r := run{stdout: out.Bytes(), stderr: errb.Bytes(), timeout: ctx.Err() != nil}
	if err != nil {
		r.code = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.code = e.ExitCode()
		}
	}
	return r
}

type data struct {
	name   string
	world  ref.World
	stmts  []ref.Stmt
	pb     *pathbuilder.Pathbuilder
	want   ref.Result
	g      *ref.Graph
	pbFile string
	nqFile string
	dir    string // directory with the two files
}

func newData(scratch, name string, w ref.World, stmts []ref.Stmt) *data {
	d := &data{name: name, world: w, stmts: stmts, pb: zimpl.Pathbuilder(w.PB), g: w.Graph(stmts)}
	var forest bool
	d.want, forest = ref.Extract(w.PB, d.g)
	if !forest {
		return nil
	}
	d.dir, _ = zimpl.MkTemp(scratch)
	d.pbFile = zimpl.WriteFile(d.dir, "pb.xml", w.PB.XML())
	d.nqFile = zimpl.WriteFile(d.dir, "data.nq", ref.NQuads(stmts))
	return d
}

func (d *data) flags() []string {
	return []string{"-sameas", strings.Join(d.world.Same, ","), "-inverseof", strings.Join(d.world.Inverse, ",")}
}

func (d *data) decode(b []byte) (map[string][]wisski.Entity, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	var out map[string][]wisski.Entity
	if err := dec.Decode(&out); err != nil {
		return nil, fmt.Errorf("output is not json: %w", err)
	}
	if dec.More() {
		return nil, fmt.Errorf("more output after the json document")
	}
	got, err := zimpl.Render(d.world.PB, d.g, out, nil)
	if err != nil {
		return nil, err
	}
	if got.Key(false) != d.want.Key(false) {
		return nil, fmt.Errorf("json holds\n%s\nexpected\n%s", got.Key(false), d.want.Key(false))
	}
	return out, nil
}

// parseCSV is a strict RFC 4180 parser that keeps line breaks in values.
func parseCSV(s string) (out [][]string, err error) {
	for len(s) > 0 {
		var row []string
		for {
			var f strings.Builder
			if strings.HasPrefix(s, `"`) {
				s = s[1:]
				for {
					i := strings.IndexByte(s, '"')
					if i < 0 {
						return nil, fmt.Errorf("unterminated quote")
					}
					f.WriteString(s[:i])
					s = s[i+1:]
					if !strings.HasPrefix(s, `"`) {
						break
					}
					f.WriteByte('"')
					s = s[1:]
				}
			} else {
				i := strings.IndexAny(s, ",\n")
				if i < 0 {
					i = len(s)
				}
				f.WriteString(s[:i])
				s = s[i:]
			}
			row = append(row, f.String())
			if strings.HasPrefix(s, ",") {
				s = s[1:]
				continue
			}
			if s == "" {
				return nil, fmt.Errorf("incomplete last line")
			}
			if s[0] != '\n' {
				return nil, fmt.Errorf("text after quote")
			}
			s = s[1:]
			break
		}
		out = append(out, row)
	}
	return
}

func readCSV(dir string) (sqlref.DB, error) {
	out := sqlref.DB{}
	files, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			return nil, err
		}
		rows, err := parseCSV(string(b))
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.Name(), err)
		}
		t := strings.TrimSuffix(f.Name(), ".csv")
		if len(rows) == 0 {
			return nil, fmt.Errorf("%s is empty", f.Name())
		}
		out[t] = []string{}
		for _, r := range rows[1:] {
			if len(r) != len(rows[0]) {
				return nil, fmt.Errorf("%s: row of %d columns", f.Name(), len(r))
			}
			s := ""
			for i, c := range rows[0] {
				s += sqlref.Cell(c, r[i])
			}
			out[t] = append(out[t], s)
		}
		sort.Strings(out[t])
	}
	return out, nil
}

// noNull is the database as csv files show it.
func noNull(d sqlref.DB) sqlref.DB {
	out := sqlref.DB{}
	for t, rows := range d {
		out[t] = []string{}
		for _, r := range rows {
			out[t] = append(out[t], strings.ReplaceAll(r, "=NULL;", `="";`))
		}
		sort.Strings(out[t])
	}
	return out
}

func exact(got, want sqlref.DB) error {
	if err := sqlref.Same(got, want); err != nil {
		return err
	}
	for t := range want {
		if got[t] == nil {
			return fmt.Errorf("no table %s", t)
		}
	}
	for t := range got {
		if want[t] == nil {
			return fmt.Errorf("unexpected table %s", t)
		}
	}
	return nil
}

func readSQLite(file string, want sqlref.DB) (sqlref.DB, error) {
	if _, err := os.Stat(file); err != nil {
		return nil, err
	}
	db, err := sql.Open("sqlite", file)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	got, err := sqlref.Content(db, want)
	if err != nil {
		return nil, err
	}
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table'")
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	for rows.Next() {
		var t string
		if err := rows.Scan(&t); err != nil {
			return nil, err
		}
		if got[t] == nil {
			return nil, fmt.Errorf("unexpected table %s", t)
		}
	}
	return got, rows.Err()
}

func main() {
	exe, _ := os.Executable()
	n2j = filepath.Join(filepath.Dir(exe), "n2j")
	kit.Main(kit.Spec{
		Property: "C14", Level: "model_checking",
		Rule: "the n2j command with every combination of output options, field tables, separators, cache and kinds of input arguments on a family of datasets; every output compared with the reference extraction and the other outputs; conflicting options, every kind of missing or malformed input, the pathbuilder cut at every byte and the data file at every byte, every file size limit and every full output file and every failing MySQL statement must give a failure status",
		Assumptions: []string{
			"MySQL is a stand-in speaking the wire protocol, which understands the statements an export consists of",
		},
		HangAfter: 120 * time.Second,
	}, func(c *kit.Ctx) {
		dir, done := zimpl.MkTemp(c.Scratch())
		defer done()
		ds := datasets(c, dir)
		options(c, dir, ds)
		inputs(c, dir, ds)
		cuts(c, dir, ds)
		full(c, dir, ds)
	})
}

func datasets(c *kit.Ctx, scratch string) (out []*data) {
	for _, w := range ref.Worlds() {
		n := len(w.Universe)
		for _, bits := range []int{0, 1<<n - 1, 0x5555 & (1<<n - 1), 0xaaaa & (1<<n - 1)} {
			stmts := w.Subset(bits)
			if !w.ValidInverse(stmts) {
				continue
			}
			if d := newData(scratch, fmt.Sprintf("%s/%b", w.PB.Name, bits), w, stmts); d != nil {
				out = append(out, d)
			}
		}
	}
	// special texts, and more entities than one batch
	A := ex + "A"
	w := ref.World{PB: ref.PB{Name: "texts", Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "f", Path: []string{A}, Datatype: ex + "w"}, {ID: "g", Path: []string{A}, Datatype: ex + "v"}}}}}}
	var stmts []ref.Stmt
	for i, t := range []string{"", ",", "\"", "a\nb", "\r\n", "\r", " lead", "\\.", "=1", "é😀", "\x00", "<b>&", "\t", "#", "'", ";", "\u2028", "a\"\"b", "1", "01"} {
		s := fmt.Sprintf("%se%d", ex, i)
		stmts = append(stmts, ref.Stmt{S: s, P: ref.Type, O: A}, ref.Stmt{S: s, P: ex + "w", O: t, Lit: true}, ref.Stmt{S: s, P: ex + "v", O: t + "x", Lit: true, Lang: "en"})
	}
	out = append(out, newData(scratch, "texts", w, stmts))
	for _, n := range []int{999, 1000, 1001, 2000, 2001, 3333} {
		var many []ref.Stmt
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("%sm%d", ex, i)
			many = append(many, ref.Stmt{S: s, P: ref.Type, O: A}, ref.Stmt{S: s, P: ex + "w", O: fmt.Sprint(i), Lit: true})
		}
		out = append(out, newData(scratch, fmt.Sprintf("many%d", n), w, many))
	}
	return
}

func options(c *kit.Ctx, scratch string, ds []*data) {
	for _, d := range ds {
		for mask := 0; mask < 8; mask++ {
			for _, tables := range []bool{false, true} {
				for _, sep := range []string{"", ",", " | "} {
					for _, form := range []string{"dir", "files"} {
						for _, cache := range []bool{false, true} {
							d, mask, tables, sep, form, cache := d, mask, tables, sep, form, cache
							if mask == 0 && (tables || sep != ",") {
								continue
							}
							big := strings.HasPrefix(d.name, "many")
							if big && (sep != "," || form == "dir" || cache && d.name != "many1001") {
								continue
							}
							c.Case(func() string {
								return fmt.Sprintf("%s outputs=%b fieldtables=%v sep=%q args=%s cache=%v", d.name, mask, tables, sep, form, cache)
							}, func() error {
								tmp, done := zimpl.MkTemp(c.Scratch())
								defer done()
								return one(c, d, tmp, mask, tables, sep, form, cache)
							})
						}
					}
				}
			}
		}
	}
}

// one runs one combination; outputs: 1 sqlite, 2 csv, 4 mysql.
func one(c *kit.Ctx, d *data, tmp string, mask int, tables bool, sep, form string, cache bool) error {
	c.StateOf(fmt.Sprint(d.name, mask, tables, sep, form, cache))
	c.Trans(1)
	args := d.flags()
	file, csvDir := filepath.Join(tmp, "out.db"), filepath.Join(tmp, "csv")
	if err := os.Mkdir(csvDir, 0o700); err != nil {
		return err
	}
	m, err := startMySQL()
	if err != nil {
		return err
	}
	defer m.Close()
	if mask&1 != 0 {
		args = append(args, "-sqlite", file)
	}
	if mask&2 != 0 {
		args = append(args, "-csv", csvDir)
	}
	if mask&4 != 0 {
		args = append(args, "-mysql", m.DSN())
	}
	if tables {
		args = append(args, "-sql-field-tables")
	}
	if sep != "," {
		args = append(args, "-sql-seperator", sep)
	}
	if cache {
		args = append(args, "-cache", filepath.Join(tmp, "cache"))
	}
	if form == "dir" {
		args = append(args, d.dir)
	} else {
		args = append(args, d.pbFile, d.nqFile)
	}
	r := runN2J(tmp, -1, "", args...)
	if r.timeout {
		return fmt.Errorf("does not terminate")
	}
	if mask&(mask-1) != 0 {
		if r.code == 0 {
			return fmt.Errorf("conflicting options, but exit status 0")
		}
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("exit status %d: %s", r.code, tail(r.stderr))
	}
	if mask == 0 {
		_, err := d.decode(r.stdout)
		return err
	}
	if len(r.stdout) != 0 {
		return fmt.Errorf("unexpected standard output %q", r.stdout)
	}
	bundles, err := d.memo()
	if err != nil {
		return err
	}
	cfg := sqlref.Config{Batch: 1000, Vars: 32766, Sep: sep, Tables: tables}
	want, _ := sqlref.Expect(d.pb, bundles, cfg)
	check := func() error {
		switch mask {
		case 1:
			got, err := readSQLite(file, want)
			if err != nil {
				return err
			}
			return exact(got, want)
		case 2:
			got, err := readCSV(csvDir)
			if err != nil {
				return err
			}
			return exact(got, noNull(want))
		default:
			got, err := m.content()
			if err != nil {
				return err
			}
			return sqlref.Same(got, want)
		}
	}
	if err := check(); err != nil {
		return err
	}
	for _, f := range []struct {
		path string
		bit  int
	}{{file, 1}, {m.DSN(), 4}} {
		if mask&f.bit == 0 {
			if _, err := os.Stat(filepath.Join(tmp, filepath.Base(f.path))); err == nil {
				return fmt.Errorf("wrote %s, which is not the selected output", f.path)
			}
		}
	}
	// again to the same place
	if !cache {
		if r := runN2J(tmp, -1, "", args...); r.code != 0 {
			return fmt.Errorf("second run: exit status %d: %s", r.code, tail(r.stderr))
		}
		if err := check(); err != nil {
			return fmt.Errorf("second run: %w", err)
		}
	}
	return nil
}

// memo loads the dataset in this process; it is compared with the reference too.
func (d *data) memo() (map[string][]wisski.Entity, error) {
	l := zimpl.Load{PB: d.pb, Mask: true, Same: d.world.Same, Inverse: d.world.Inverse, File: d.nqFile}
	out, err := l.Check(d.world.PB, d.g, d.want, false)
	return out.Bundles, err
}

func tail(b []byte) string {
	if len(b) > 400 {
		b = b[len(b)-400:]
	}
	return string(b)
}

func mustFail(c *kit.Ctx, dir, what string, args ...string) error {
	c.StateOf(what)
	c.Trans(1)
	r := runN2J(dir, -1, "", args...)
	if r.timeout {
		return fmt.Errorf("%s: does not terminate", what)
	}
	if r.code == 0 {
		return fmt.Errorf("%s: exit status 0, output %q", what, tail(r.stdout))
	}
	return nil
}

func inputs(c *kit.Ctx, scratch string, ds []*data) {
	d := ds[1]
	outputs := func(tmp string) [][]string {
		return [][]string{{}, {"-sqlite", filepath.Join(tmp, "o.db")}, {"-csv", tmp}, {"-cache", filepath.Join(tmp, "cache")}}
	}
	add := func(what string, setup func(tmp string) []string) {
		for i := 0; i < 4; i++ {
			i := i
			c.Case(func() string { return fmt.Sprintf("%s, output %d", what, i) }, func() error {
				tmp, done := zimpl.MkTemp(c.Scratch())
				defer done()
				args := append(append(d.flags(), outputs(tmp)[i]...), setup(tmp)...)
				return mustFail(c, tmp, what, args...)
			})
		}
	}
	xml, nq := d.world.PB.XML(), ref.NQuads(d.stmts)
	add("no arguments", func(string) []string { return nil })
	add("three arguments", func(string) []string { return []string{d.pbFile, d.nqFile, d.nqFile} })
	add("only a file", func(string) []string { return []string{d.nqFile} })
	add("missing pathbuilder", func(tmp string) []string { return []string{filepath.Join(tmp, "x.xml"), d.nqFile} })
	add("missing data", func(tmp string) []string { return []string{d.pbFile, filepath.Join(tmp, "x.nq")} })
	add("missing directory", func(tmp string) []string { return []string{filepath.Join(tmp, "x")} })
	add("directory as data", func(tmp string) []string { return []string{d.pbFile, tmp} })
	add("directory as pathbuilder", func(tmp string) []string { return []string{tmp, d.nqFile} })
	add("swapped files", func(tmp string) []string { return []string{d.nqFile, d.pbFile} })
	add("empty pathbuilder", func(tmp string) []string { return []string{zimpl.WriteFile(tmp, "x.xml", ""), d.nqFile} })
	add("unknown option", func(tmp string) []string { return []string{"-nosuch", d.dir} })
	for _, bad := range []string{"<a> <b> .", "<a> <b> <c>", "garbage", "<a> \"b\" <c> .", "<a> <b> \"c .", "<a> <b> <c> . <d>", "<a b> <b> <c> .", "\"a\" <b> <c> .", "<a> <b> <c> <d> <e> ."} {
		for _, pos := range []string{"first", "last", "middle"} {
			bad, pos := bad, pos
			add(fmt.Sprintf("malformed line %q %s", bad, pos), func(tmp string) []string {
				ls := strings.SplitAfter(nq, "\n")
				s := bad + "\n" + nq
				if pos == "last" {
					s = nq + bad
				} else if pos == "middle" {
					s = strings.Join(ls[:len(ls)/2], "") + bad + "\n" + strings.Join(ls[len(ls)/2:], "")
				}
				return []string{d.pbFile, zimpl.WriteFile(tmp, "x.nq", s)}
			})
		}
	}
	for nx := 0; nx <= 2; nx++ {
		for nn := 0; nn <= 2; nn++ {
			nx, nn := nx, nn
			if nx == 1 && nn == 1 {
				continue
			}
			add(fmt.Sprintf("directory with %d pathbuilders and %d data files", nx, nn), func(tmp string) []string {
				in := filepath.Join(tmp, "in")
				os.Mkdir(in, 0o700)
				for i := 0; i < nx; i++ {
					zimpl.WriteFile(in, fmt.Sprintf("p%d.xml", i), xml)
				}
				for i := 0; i < nn; i++ {
					zimpl.WriteFile(in, fmt.Sprintf("d%d.nq", i), nq)
				}
				return []string{in}
			})
		}
	}
	// outputs that cannot be written
	un := func(what string, setup func(tmp string) []string) {
		c.Case(func() string { return what }, func() error {
			tmp, done := zimpl.MkTemp(c.Scratch())
			defer done()
			return mustFail(c, tmp, what, append(append(d.flags(), setup(tmp)...), d.dir)...)
		})
	}
	un("csv into a missing directory", func(tmp string) []string { return []string{"-csv", filepath.Join(tmp, "x")} })
	un("csv into a file", func(tmp string) []string { return []string{"-csv", zimpl.WriteFile(tmp, "f", "")} })
	un("sqlite in a missing directory", func(tmp string) []string { return []string{"-sqlite", filepath.Join(tmp, "x", "y.db")} })
	un("sqlite is a directory", func(tmp string) []string { return []string{"-sqlite", tmp} })
	un("sqlite is no database", func(tmp string) []string {
		return []string{"-sqlite", zimpl.WriteFile(tmp, "f", strings.Repeat("no database at all ", 100))}
	})
	un("mysql server missing", func(tmp string) []string {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		defer l.Close()
		return []string{"-mysql", "u:p@tcp(" + l.Addr().String() + ")/db"}
	})
	un("mysql address malformed", func(tmp string) []string { return []string{"-mysql", "no address"} })
	for at := 1; at <= 12; at++ {
		for _, tables := range []bool{false, true} {
			at, tables := at, tables
			c.Case(func() string { return fmt.Sprintf("mysql statement %d fails, fieldtables=%v", at, tables) }, func() error {
				m, err := startMySQL()
				if err != nil {
					return err
				}
				defer m.Close()
				m.failAt = at
				args := append(d.flags(), "-mysql", m.DSN())
				if tables {
					args = append(args, "-sql-field-tables")
				}
				r := runN2J(scratch, -1, "", append(args, d.dir)...)
				m.mu.Lock()
				defer m.mu.Unlock()
				c.StateOf(fmt.Sprint("mysql", at, tables))
				c.Trans(m.n)
				if (r.code == 0) != (m.n < at) {
					return fmt.Errorf("exit status %d after %d statements", r.code, m.n)
				}
				return nil
			})
		}
	}
}

// cuts truncates the inputs at every byte.
func cuts(c *kit.Ctx, scratch string, ds []*data) {
	d := ds[1]
	xml, nq := d.world.PB.XML(), ref.NQuads(d.stmts)
	end := strings.LastIndex(xml, ">")
	step := kit.Pick(c, 7, 1)
	for i := 0; i < end; i += step {
		i := i
		if strings.TrimSpace(xml[i:end+1]) == "" {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("pathbuilder cut at %d", i) }, func() error {
			tmp, done := zimpl.MkTemp(c.Scratch())
			defer done()
			return mustFail(c, tmp, fmt.Sprintf("pathbuilder cut at %d", i), append(d.flags(), zimpl.WriteFile(tmp, "x.xml", xml[:i]), d.nqFile)...)
		})
	}
	step = kit.Pick(c, 3, 1)
	for i := 0; i < len(nq); i += step {
		i := i
		c.Case(func() string { return fmt.Sprintf("data cut at %d", i) }, func() error {
			tmp, done := zimpl.MkTemp(c.Scratch())
			defer done()
			last := nq[:i][strings.LastIndex(nq[:i], "\n")+1:]
			f := zimpl.WriteFile(tmp, "x.nq", nq[:i])
			if strings.TrimSpace(last) != "" && !strings.HasSuffix(last, ".") {
				return mustFail(c, tmp, fmt.Sprintf("data cut at %d", i), append(d.flags(), d.pbFile, f)...)
			}
			n := strings.Count(nq[:i], "\n")
			if strings.TrimSpace(last) != "" {
				n++
			}
			g := d.world.Graph(d.stmts[:n])
			want, _ := ref.Extract(d.world.PB, g)
			cut := *d
			cut.g, cut.want = g, want
			r := runN2J(tmp, -1, "", append(d.flags(), d.pbFile, f)...)
			if r.code != 0 {
				return fmt.Errorf("complete lines only, but exit status %d: %s", r.code, tail(r.stderr))
			}
			c.StateOf(fmt.Sprint("data", i))
			c.Trans(1)
			_, err := cut.decode(r.stdout)
			return err
		})
	}
}

// full lets the output fill up.
func full(c *kit.Ctx, scratch string, ds []*data) {
	type cfg struct {
		name string
		args func(tmp string) []string
		out  func(tmp string) string
		size func(tmp string) int64
	}
	kinds := []cfg{
		{"json", func(string) []string { return nil }, func(tmp string) string { return filepath.Join(tmp, "out.json") }, nil},
		{"sqlite", func(tmp string) []string { return []string{"-sqlite", filepath.Join(tmp, "out.db")} }, func(string) string { return "" }, nil},
		{"csv", func(tmp string) []string { return []string{"-csv", tmp} }, func(string) string { return "" }, nil},
	}
	for _, d := range ds {
		if d.name != "many999" && d.name != "texts" && d != ds[1] {
			continue
		}
		for _, k := range kinds {
			for _, tables := range []bool{false, true} {
				d, k, tables := d, k, tables
				if k.name == "json" && tables {
					continue
				}
				// the largest output file without a limit
				max := 0
				lims := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 24, 28, 32, 40, 48, 56, 64, 96, 128, 160, 192, 256, 320, 384, 448, 512, 640, 768, 1024}
				_ = max
				for _, lim := range lims {
					lim := lim
					c.Case(func() string {
						return fmt.Sprintf("%s to %s fieldtables=%v, files limited to %d KiB", d.name, k.name, tables, lim)
					}, func() error {
						args := func(tmp string) []string {
							a := append(d.flags(), k.args(tmp)...)
							if tables {
								a = append(a, "-sql-field-tables")
							}
							return append(a, d.dir)
						}
						tmp, done := zimpl.MkTemp(c.Scratch())
						defer done()
						r := runN2J(tmp, lim, k.out(tmp), args(tmp)...)
						tmp2, done2 := zimpl.MkTemp(c.Scratch())
						defer done2()
						w := runN2J(tmp2, -1, k.out(tmp2), args(tmp2)...)
						if w.code != 0 {
							return fmt.Errorf("without a limit: exit status %d: %s", w.code, tail(w.stderr))
						}
						c.StateOf(fmt.Sprint("limit", d.name, k.name, tables, lim))
						c.Trans(2)
						if r.code != 0 {
							return nil
						}
						// success: everything must be there
						ents, _ := os.ReadDir(tmp2)
						for _, e := range ents {
							a, err := os.ReadFile(filepath.Join(tmp, e.Name()))
							if err != nil {
								return fmt.Errorf("exit status 0, but %w", err)
							}
							b, _ := os.ReadFile(filepath.Join(tmp2, e.Name()))
							if k.name == "sqlite" {
								bundles, err := d.memo()
								if err != nil {
									return err
								}
								want, _ := sqlref.Expect(d.pb, bundles, sqlref.Config{Sep: ",", Tables: tables})
								got, err := readSQLite(filepath.Join(tmp, "out.db"), want)
								if err == nil {
									err = exact(got, want)
								}
								if err != nil {
									return fmt.Errorf("exit status 0, but %w", err)
								}
							} else if k.name == "json" {
								if _, err := d.decode(a); err != nil {
									return fmt.Errorf("exit status 0, but %w", err)
								}
							} else if len(a) != len(b) {
								return fmt.Errorf("exit status 0, but %s holds %d of %d bytes", e.Name(), len(a), len(b))
							}
						}
						return nil
					})
				}
			}
		}
		d := d
		c.Case(func() string { return d.name + " to a full standard output" }, func() error {
			r := runN2J(scratch, -1, "/dev/full", append(d.flags(), d.dir)...)
			c.Trans(1)
			c.StateOf("full" + d.name)
			if r.code == 0 {
				return fmt.Errorf("exit status 0")
			}
			return nil
		})
		for _, tables := range []bool{false, true} {
			bundles, err := d.memo()
			if err != nil {
				continue
			}
			want, _ := sqlref.Expect(d.pb, bundles, sqlref.Config{Sep: ",", Tables: tables})
			for t := range want {
				t, tables := t, tables
				c.Case(func() string { return fmt.Sprintf("%s to csv fieldtables=%v, %s is full", d.name, tables, t) }, func() error {
					tmp, done := zimpl.MkTemp(c.Scratch())
					defer done()
					if err := os.Symlink("/dev/full", filepath.Join(tmp, t+".csv")); err != nil {
						return err
					}
					args := append(d.flags(), "-csv", tmp)
					if tables {
						args = append(args, "-sql-field-tables")
					}
					c.Trans(1)
					c.StateOf(fmt.Sprint("fullcsv", d.name, t, tables))
					return mustFail(c, tmp, "full csv file", append(args, d.dir)...)
				})
			}
		}
	}
}

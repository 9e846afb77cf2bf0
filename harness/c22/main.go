// C22: counting readers and writers.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/pkg/progress"
)

// terminal shows what was written to it.
type terminal struct {
	line    []byte
	col     int
	fail    int // 0: works, 1: reports errors, 2: takes everything but one byte
	writes  int
	newline bool
}

func (t *terminal) Write(b []byte) (int, error) {
	t.writes++
	for _, c := range b {
		switch c {
		case '\r':
			t.col = 0
		case '\n':
			t.line, t.col = nil, 0
			t.newline = true
		default:
			for len(t.line) <= t.col {
				t.line = append(t.line, ' ')
			}
			t.line[t.col] = c
			t.col++
		}
	}
	switch t.fail {
	case 1:
		return 0, errors.New("terminal failed")
	case 2:
		if len(b) > 0 {
			return len(b) - 1, nil
		}
	}
	return len(b), nil
}

func (t *terminal) String() string { return strings.TrimRight(string(t.line), " ") }

// step is one operation and what the underlying stream answers.
type step struct {
	size, n int
	err     error
}

var errCustom = errors.New("custom")

func (s step) String() string { return fmt.Sprintf("%d:%d,%v", s.size, s.n, s.err) }

func steps(deep bool) (out []step) {
	sizes := []int{0, 1, 3, 999, 70000}
	if deep {
		sizes = append(sizes, 2, 1000, 12345)
	}
	for _, size := range sizes {
		seen := map[int]bool{}
		for _, n := range []int{0, 1, size - 1, size} {
			if n < 0 || n > size || seen[n] {
				continue
			}
			seen[n] = true
			for _, err := range []error{nil, io.EOF, errCustom} {
				out = append(out, step{size, n, err})
			}
		}
	}
	return
}

// under is the wrapped stream, which follows the script.
type under struct {
	script []step
	at     int
	seed   byte
	got    [][]byte
	data   []byte
}

func fill(b []byte, seed int) {
	for i := range b {
		b[i] = byte(seed*31 + i*7)
	}
}

func (u *under) Read(b []byte) (int, error) {
	s := u.script[u.at%len(u.script)]
	n := s.n
	if n > len(b) {
		n = len(b)
	}
	fill(b[:n], u.at)
	u.at++
	return n, s.err
}

func (u *under) Write(b []byte) (int, error) {
	s := u.script[u.at%len(u.script)]
	n := s.n
	if n > len(b) {
		n = len(b)
	}
	u.data = append(u.data, b[:n]...)
	u.got = append(u.got, append([]byte{}, b...))
	u.at++
	return n, s.err
}

// shows checks that a line shows a number of bytes.
func shows(line string, total int64) error {
	words := strings.Fields(line)
	if len(words) < 2 {
		return fmt.Errorf("the line %q shows no size", line)
	}
	num, err := strconv.ParseFloat(words[len(words)-2], 64)
	if err != nil {
		return fmt.Errorf("the line %q shows no size", line)
	}
	units := map[string]float64{"B": 1, "kB": 1e3, "KB": 1e3, "MB": 1e6, "GB": 1e9, "TB": 1e12, "KiB": 1 << 10, "MiB": 1 << 20, "GiB": 1 << 30, "TiB": 1 << 40}
	f, ok := units[words[len(words)-1]]
	if !ok {
		return fmt.Errorf("the line %q shows no size", line)
	}
	if d := math.Abs(num*f - float64(total)); d > 0.051*f*math.Max(1, num/10) && d > 0.06*float64(total) || f == 1 && d > 0 {
		return fmt.Errorf("the line %q is shown after %d bytes", line, total)
	}
	return nil
}

type config struct {
	every  bool
	term   int // -1: no output
	forced bool
}

func main() {
	kit.Main(kit.Spec{
		Property: "C22", Level: "model_checking", GC: 200,
		Rule: "all scripts of the stated length of reads and writes of all listed sizes with all listed short and failing results, with and without intermediate output, with a working, a failing, a short and no terminal: every call is compared with the same call on the wrapped stream, the total with the bytes transferred, and the line shown by an emulated terminal after every flush with the total; likewise all sequences of operations of the line printer",
	}, func(c *kit.Ctx) {
		all := steps(c.Deep())
		var script []step
		var rec func(depth int)
		configs := []config{}
		for _, every := range []bool{true, false} {
			for term := -1; term < 3; term++ {
				for _, forced := range []bool{false, true} {
					configs = append(configs, config{every, term, forced})
				}
			}
		}
		group := func(prefix []step) {
			p := append([]step{}, prefix...)
			c.Case(func() string { return fmt.Sprintf("script %v and all continuations by one step", p) }, func() error {
				for _, last := range all {
					s := append(append([]step{}, p...), last)
					for _, cfg := range configs {
						if err := read(s, cfg); err != nil {
							return fmt.Errorf("reading, script %v, %+v: %v", s, cfg, err)
						}
						if err := write(s, cfg); err != nil {
							return fmt.Errorf("writing, script %v, %+v: %v", s, cfg, err)
						}
					}
					c.Trans(2 * len(configs) * len(s))
					c.StateOf(fmt.Sprint(s))
				}
				c.Nontrivial()
				return nil
			})
		}
		max := 2
		rec = func(depth int) {
			group(script)
			if depth == max {
				return
			}
			for i, s := range all {
				if depth > 0 && !c.Deep() && i%3 != depth {
					continue
				}
				script = append(script, s)
				rec(depth + 1)
				script = script[:len(script)-1]
			}
		}
		rec(0)
		printer(c)
		c.Case(func() string { return "more than 2^32 bytes" }, func() error {
			buf := make([]byte, 1<<26)
			t := &terminal{}
			r := &progress.Reader{Reader: big{}, Rewritable: progress.Rewritable{Writer: t}}
			w := &progress.Writer{Writer: big{}, Rewritable: progress.Rewritable{Writer: t, FlushInterval: time.Hour}}
			for i := int64(1); i <= 80; i++ {
				if n, err := r.Read(buf); n != len(buf) || err != nil {
					return fmt.Errorf("read %d %v", n, err)
				}
				if n, err := w.Write(buf); n != len(buf) || err != nil {
					return fmt.Errorf("wrote %d %v", n, err)
				}
				if r.Bytes != i<<26 || w.Bytes != i<<26 {
					return fmt.Errorf("after %d bytes the totals are %d and %d", i<<26, r.Bytes, w.Bytes)
				}
			}
			r.Flush(true)
			if err := shows(t.String(), r.Bytes); err != nil {
				return err
			}
			w.Flush(true)
			return shows(t.String(), w.Bytes)
		})
		// copying through them
		for n := 0; n < 40; n++ {
			n := n
			c.Case(func() string { return fmt.Sprintf("copying %d bytes", n*n*n*7) }, func() error {
				data := make([]byte, n*n*n*7)
				fill(data, n)
				var dst bytes.Buffer
				t := &terminal{}
				r := &progress.Reader{Reader: bytes.NewReader(data), Rewritable: progress.Rewritable{Writer: t}}
				w := &progress.Writer{Writer: &dst, Rewritable: progress.Rewritable{Writer: t}}
				m, err := io.Copy(w, r)
				if err != nil || m != int64(len(data)) || !bytes.Equal(dst.Bytes(), data) || r.Bytes != m || w.Bytes != m {
					return fmt.Errorf("copied %d, read %d, wrote %d, %v", m, r.Bytes, w.Bytes, err)
				}
				return nil
			})
		}
	})
}

type big struct{}

func (big) Read(b []byte) (int, error)  { return len(b), nil }
func (big) Write(b []byte) (int, error) { return len(b), nil }

func rewritable(cfg config) (progress.Rewritable, *terminal) {
	rw := progress.Rewritable{FlushInterval: time.Hour}
	if cfg.every {
		rw.FlushInterval = -1
	}
	t := &terminal{}
	if cfg.term >= 0 {
		t.fail = cfg.term
		rw.Writer = t
	}
	return rw, t
}

func read(script []step, cfg config) error {
	rw, t := rewritable(cfg)
	u := &under{script: script}
	r := &progress.Reader{Reader: u, Rewritable: rw}
	direct := &under{script: script}
	var total int64
	for i, s := range script {
		a, b := buffer(0, s.size), buffer(1, s.size)
		n, err := r.Read(a)
		wn, werr := direct.Read(b)
		if n != wn || err != werr {
			return fmt.Errorf("read %d returned %d, %v", i, n, err)
		}
		if !bytes.Equal(a[:n], b[:wn]) {
			return fmt.Errorf("read %d returned other bytes", i)
		}
		if u.at != direct.at {
			return fmt.Errorf("read %d lead to %d reads of the stream", i, u.at-direct.at)
		}
		total += int64(wn)
		if err := progressed(cfg, t, i, r.Bytes, total, func() { r.Flush(true) }); err != nil {
			return fmt.Errorf("after read %d: %v", i, err)
		}
	}
	return finish(cfg, t, total, func() { r.Flush(true) }, func() { r.Close() })
}

var buffers [2][70001]byte

func buffer(i, size int) []byte {
	b := buffers[i][:size]
	for j := range b {
		b[j] = 0
	}
	return b
}

func write(script []step, cfg config) error {
	rw, t := rewritable(cfg)
	u := &under{script: script}
	w := &progress.Writer{Writer: u, Rewritable: rw}
	var total int64
	for i, s := range script {
		a := buffer(0, s.size)
		fill(a, i)
		n, err := w.Write(a)
		if n != s.n || err != s.err {
			return fmt.Errorf("write %d returned %d, %v", i, n, err)
		}
		if len(u.got) != i+1 || !bytes.Equal(u.got[i], a) {
			return fmt.Errorf("write %d was not passed on as it is", i)
		}
		b := buffer(1, s.size)
		fill(b, i)
		if !bytes.Equal(a, b) {
			return fmt.Errorf("write %d changed the data", i)
		}
		total += int64(s.n)
		if err := progressed(cfg, t, i, w.Bytes, total, func() { w.Flush(true) }); err != nil {
			return fmt.Errorf("after write %d: %v", i, err)
		}
	}
	return finish(cfg, t, total, func() { w.Flush(true) }, func() { w.Close() })
}

func progressed(cfg config, t *terminal, i int, bytes, total int64, flush func()) error {
	if bytes != total {
		return fmt.Errorf("the total is %d instead of %d", bytes, total)
	}
	if cfg.forced && i%2 == 0 {
		flush()
	} else if !cfg.every {
		return nil
	}
	if cfg.term < 0 {
		return nil
	}
	return shows(t.String(), total)
}

func finish(cfg config, t *terminal, total int64, flush, end func()) error {
	flush()
	if cfg.term >= 0 {
		if err := shows(t.String(), total); err != nil {
			return fmt.Errorf("in the end: %v", err)
		}
	}
	if cfg.term < 0 && t.writes > 0 {
		return fmt.Errorf("something was printed")
	}
	end()
	if cfg.term >= 0 && (t.String() != "" || t.col != 0) {
		return fmt.Errorf("%q is still shown after the end, in column %d", t.String(), t.col)
	}
	if t.newline {
		return fmt.Errorf("more than one line was printed")
	}
	return nil
}

// printer checks the line printer.
func printer(c *kit.Ctx) {
	type op struct {
		what  byte // w: write, f: flush, F: forced flush, c: close
		value string
	}
	ops := []op{{'f', ""}, {'F', ""}, {'c', ""}, {'w', ""}}
	for _, v := range []string{"a", "bb", "c c", "dddddddd", strings.Repeat("e", 100)} {
		ops = append(ops, op{'w', v})
	}
	depth := kit.Pick(c, 4, 6)
	var rec func(seq []op)
	rec = func(seq []op) {
		if len(seq) == depth-2 {
			s := append([]op{}, seq...)
			c.Case(func() string { return fmt.Sprintf("line printer, operations %v and continuations", s) }, func() error {
				var inner func(seq []op) error
				inner = func(seq []op) error {
					for _, cfg := range []config{{every: true}, {every: false}, {every: true, term: -1}} {
						rw, t := rewritable(cfg)
						content := ""
						for i, o := range seq {
							printed := cfg.every
							switch o.what {
							case 'w':
								rw.Write(o.value)
								content = o.value
							case 'f':
								rw.Flush(false)
							case 'F':
								rw.Flush(true)
								printed = true
							case 'c':
								rw.Close()
								content, printed = "", true
								if t.col != 0 {
									return fmt.Errorf("%v, %+v: after operation %d the position is %d", seq, cfg, i, t.col)
								}
							}
							if cfg.term >= 0 && printed && t.String() != content {
								return fmt.Errorf("%v, %+v: after operation %d the line is %q", seq, cfg, i, t.String())
							}
						}
						if t.newline {
							return fmt.Errorf("%v: more than one line was printed", seq)
						}
						if cfg.term < 0 && t.writes > 0 {
							return fmt.Errorf("%v: something was printed", seq)
						}
						c.Trans(len(seq))
					}
					c.StateOf(fmt.Sprint(seq))
					if len(seq) == depth {
						return nil
					}
					for _, o := range ops {
						if err := inner(append(append([]op{}, seq...), o)); err != nil {
							return err
						}
					}
					return nil
				}
				c.Nontrivial()
				return inner(s)
			})
			return
		}
		for _, o := range ops {
			rec(append(append([]op{}, seq...), o))
		}
	}
	rec(nil)
	// the progress line
	for _, total := range []int{0, 1, 9, 10, 99, 100, 1000, 123456} {
		total := total
		c.Case(func() string { return fmt.Sprintf("counting to %d", total) }, func() error {
			rw, t := rewritable(config{every: true})
			p := &progress.Progress{Rewritable: rw}
			step := 1 + total/200
			for _, down := range []bool{false, true} {
				for n := 0; n <= total; n += step {
					v := n
					if down {
						v = total - n
					}
					p.Set("pre", v, total)
					c.Trans(1)
					var got, of int
					line := strings.NewReplacer("/", " ", ":", " ").Replace(t.String())
					f := strings.Fields(line)
					if len(f) < 2 || f[0] != "pre" {
						return fmt.Errorf("%d is shown as %q", v, t.String())
					}
					got, _ = strconv.Atoi(f[1])
					if len(f) > 2 {
						of, _ = strconv.Atoi(f[2])
					} else if v == total {
						of = total
					}
					if got != v || len(f) > 3 || of != total {
						return fmt.Errorf("%d of %d is shown as %q", v, total, t.String())
					}
				}
			}
			return nil
		})
	}
}

// C12: an export that could not be written completely is reported.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
)

const k = "http://x/"

type input struct {
	name    string
	pb      ref.PB
	stmts   []ref.Stmt
	flags   viewer.RenderFlags
	targets []string
}

func view(g *glass.Glass, flags viewer.RenderFlags) *viewer.Viewer {
	v := viewer.NewViewer(new(bytes.Buffer))
	v.RenderFlags = flags
	v.Prepare(g.Cache, &g.Pathbuilder)
	return v
}

func inputs() (out []input) {
	w := ref.Worlds()[1]
	// all of the data, except for what would give an entity two parents
	full := input{name: "nested", pb: w.PB, stmts: w.Subset(1<<len(w.Universe) - 1 - 1<<5 - 1<<12), targets: vw.Targets([]string{"ba", "bc"}, []string{k + "a", k + "a2", k + "c"})}
	full.flags.Predicates = sparkl.Predicates{SameAs: impl.Labels(w.Same), InverseOf: impl.Labels(w.Inverse)}
	out = append(out, input{name: "nothing", targets: vw.Targets(nil, nil)}, full)
	// many writes: texts which can not be compressed
	for _, n := range []int{60, 1500} {
		r := rand.New(rand.NewSource(1))
		A := k + "A"
		in := input{name: fmt.Sprintf("%d random texts", n), pb: ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "fl", Path: []string{A}, Datatype: k + "w"}}}}}}
		in.stmts = []ref.Stmt{{S: k + "a", P: ref.Type, O: A}}
		for i := 0; i < n; i++ {
			var b strings.Builder
			for j := 0; j < 100; j++ {
				b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-"[r.Intn(64)])
			}
			in.stmts = append(in.stmts, ref.Stmt{S: k + "a", P: k + "w", O: b.String(), Lit: true})
		}
		in.targets = vw.Targets([]string{"ba"}, []string{k + "a"})
		out = append(out, in)
	}
	return
}

type ready struct {
	input
	dir    string
	pb, nq string
	g      glass.Glass
	v      *viewer.Viewer
	size   int64
}

func prepare(c *kit.Ctx, in input) (*ready, error) {
	dir, _ := impl.MkTemp(c.Scratch())
	r := &ready{input: in, dir: dir}
	r.pb, r.nq = impl.WriteFile(dir, "pb.xml", in.pb.XML()), impl.WriteFile(dir, "data.nq", ref.NQuads(in.stmts))
	var err error
	if r.g, err = glass.Create(r.pb, r.nq, "", in.flags, nil); err != nil {
		return nil, err
	}
	r.v = view(&r.g, in.flags)
	f := filepath.Join(dir, "export")
	if err := glass.Export(f, r.g, nil); err != nil {
		return nil, err
	}
	st, err := os.Stat(f)
	if err != nil {
		return nil, err
	}
	r.size = st.Size()
	return r, nil
}

// complete checks that a file is a complete export.
func (r *ready) complete(file string) error {
	imp, err := glass.Import(file, nil)
	if err != nil {
		return fmt.Errorf("the export was reported to be successful, but can not be imported: %v", err)
	}
	if err := vw.SameUnordered(r.v, view(&imp, r.flags), r.targets); err != nil {
		return fmt.Errorf("the export was reported to be successful, but differs: %v", err)
	}
	return nil
}

// limited runs a function with a maximal size of files.
func limited(size int64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := syscall.Rlimit{Cur: uint64(size), Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

var hangover string

type run struct {
	code    int
	stderr  []byte
	timeout bool
}

func command(dir string, args ...string) run {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stderr, cmd.Stdout = &b, &b
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	r := run{stderr: b.Bytes(), timeout: ctx.Err() != nil}
	if err != nil {
		r.code = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.code = e.ExitCode()
		}
	}
	return r
}

func tail(b []byte) string {
	if len(b) > 300 {
		b = b[len(b)-300:]
	}
	return string(b)
}

func main() {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	hangover = filepath.Join(filepath.Dir(exe), "hangover")
	signal.Ignore(syscall.SIGXFSZ)
	kit.Main(kit.Spec{
		Property: "C12", Level: "model_checking", GC: 200,
		Rule: "for every dataset the export is written with every limit of the file size from nothing to more than needed, to a full device, and (through the command) with every single write and the close of the file failing; success is accepted only if the file can be imported and serves the same content, failure only if the export could not be written; every run of the command must terminate by itself",
	}, func(c *kit.Ctx) {
		for _, in := range inputs() {
			r, err := prepare(c, in)
			if err != nil {
				c.Case(func() string { return in.name + " without any fault" }, func() error { return err })
				continue
			}
			operation(c, r)
			commands(c, r)
		}
	})
}

// operation exports in this process.
func operation(c *kit.Ctx, r *ready) {
	for _, noisy := range []bool{false, true} {
		const blocks = 256
		// the exact size varies a little; every limit belongs to exactly one block
		max := r.size + 64
		step := int64(1)
		if max > 20000 && !c.Deep() {
			step = 37
		}
		if max > 100000 {
			step = kit.Pick[int64](c, 997, 13)
		}
		var limits []int64
		for n := int64(0); n < max; n++ {
			if n%step == 0 || n > r.size-128 || n%4096 < 2 || n%4096 == 4095 || n < 64 {
				limits = append(limits, n)
			}
		}
		for b := 0; b < blocks; b++ {
			b, noisy := b, noisy
			c.Case(func() string {
				return fmt.Sprintf("exporting %s (%d bytes), size limited to the %d.+%d*n. of %d limits, with progress %v", r.name, r.size, b, blocks, len(limits), noisy)
			}, func() error {
				dir, done := impl.MkTemp(c.Scratch())
				defer done()
				for i := b; i < len(limits); i += blocks {
					n := limits[i]
					f := filepath.Join(dir, fmt.Sprint("export", n))
					var st *stats.Stats
					if noisy {
						st = stats.NewStats(new(bytes.Buffer))
					}
					if i%2 == 1 { // over an older file
						if err := os.WriteFile(f, bytes.Repeat([]byte("old"), int(r.size)), 0o600); err != nil {
							return err
						}
					}
					var err error
					limited(n, func() { err = glass.Export(f, r.g, st) })
					c.Trans(1)
					c.Nontrivial()
					if err == nil {
						if err := r.complete(f); err != nil {
							return fmt.Errorf("limit %d: %v", n, err)
						}
						c.Add("complete", 1)
					} else {
						if n > r.size+32 {
							return fmt.Errorf("limit %d: %v", n, err)
						}
						c.Add("reported", 1)
					}
					os.Remove(f)
				}
				c.StateOf(fmt.Sprint(r.name, b, noisy))
				return nil
			})
		}
		for _, target := range []string{"/dev/full", "nosuch/export", "", "."} {
			target, noisy := target, noisy
			c.Case(func() string { return fmt.Sprintf("exporting %s to %q", r.name, target) }, func() error {
				dir, done := impl.MkTemp(c.Scratch())
				defer done()
				if target != "" && !filepath.IsAbs(target) {
					target = filepath.Join(dir, target)
				}
				var st *stats.Stats
				if noisy {
					st = stats.NewStats(new(bytes.Buffer))
				}
				c.Trans(1)
				if err := glass.Export(target, r.g, st); err == nil {
					return fmt.Errorf("reported to be successful")
				}
				return nil
			})
		}
	}
}

// commands exports with the command.
func commands(c *kit.Ctx, r *ready) {
	good := func(res run, file string) error {
		if res.timeout {
			return fmt.Errorf("the command did not terminate: %s", tail(res.stderr))
		}
		if res.code != 0 {
			return fmt.Errorf("exit status %d: %s", res.code, tail(res.stderr))
		}
		return r.complete(file)
	}
	bad := func(res run) error {
		if res.timeout {
			return fmt.Errorf("the command did not terminate: %s", tail(res.stderr))
		}
		if res.code == 0 {
			return fmt.Errorf("exit status 0: %s", tail(res.stderr))
		}
		return nil
	}
	same := "-sameas=" + ref.SameAs
	for _, args := range [][]string{
		nil, {"-html", "-images"}, {"-cache", "cachedir"}, {"-strict-csp", "-public", "http://h"}, {"-bench"}, {"-addr", "nosuchhost.invalid:99999"},
	} {
		args := args
		c.Case(func() string { return fmt.Sprintf("command: %s, options %v", r.name, args) }, func() error {
			dir, done := impl.MkTemp(c.Scratch())
			defer done()
			os.Mkdir(filepath.Join(dir, "cachedir"), 0o700)
			c.Trans(2)
			c.Nontrivial()
			a := append(append([]string{hangover, same, "-export", "out"}, args...), r.pb, r.nq)
			if err := good(command(dir, a...), filepath.Join(dir, "out")); err != nil {
				return err
			}
			// export an export
			return good(command(dir, append(append([]string{hangover, same, "-export", "out2"}, args...), "out")...), filepath.Join(dir, "out2"))
		})
	}
	for _, target := range []string{"/dev/full", "nosuch/export", "."} {
		target := target
		c.Case(func() string { return fmt.Sprintf("command: %s, to %q", r.name, target) }, func() error {
			dir, done := impl.MkTemp(c.Scratch())
			defer done()
			c.Trans(1)
			return bad(command(dir, hangover, same, "-export", target, r.pb, r.nq))
		})
	}
	for _, in := range [][]string{{"nosuch"}, {"."}, {"broken"}, {r.pb}, {r.nq}, {r.nq, r.pb}, {r.pb, "nosuch"}, {"", ""}, {}, {r.pb, r.nq, r.nq}} {
		in := in
		c.Case(func() string { return fmt.Sprintf("command: %s, loading %q", r.name, in) }, func() error {
			if r.name == "nothing" && len(in) == 2 && in[0] == r.nq {
				return kit.Skip // an empty file
			}
			dir, done := impl.MkTemp(c.Scratch())
			defer done()
			impl.WriteFile(dir, "broken", "broken")
			c.Trans(1)
			return bad(command(dir, append([]string{hangover, same, "-export", "out"}, in...)...))
		})
	}
	// limits of the size
	for _, n := range []int64{0, 1, 2, 9, 10, 11, 100, 512, 1024, 4096, 8192, r.size / 2, r.size - 100, r.size + 100} {
		if n < 0 || n > r.size+100 {
			continue
		}
		n := n
		c.Case(func() string { return fmt.Sprintf("command: %s (%d bytes), size limited to %d", r.name, r.size, n) }, func() error {
			dir, done := impl.MkTemp(c.Scratch())
			defer done()
			var res run
			limited(n, func() { res = command(dir, hangover, same, "-export", "out", r.pb, r.nq) })
			c.Trans(1)
			c.Nontrivial()
			if n > r.size {
				return good(res, filepath.Join(dir, "out"))
			}
			if n < r.size-32 {
				return bad(res)
			}
			return nil
		})
	}
	// single failing system calls on the file
	if !tracing() {
		c.Note("system calls can not be intercepted here, single failing writes are not covered")
		return
	}
	for _, call := range []string{"write", "close", "openat"} {
		for when := 1; when <= kit.Pick(c, 24, 200); when++ {
			call, when := call, when
			if when > 1 && call != "write" {
				break
			}
			c.Case(func() string { return fmt.Sprintf("command: %s, %s number %d of the file fails", r.name, call, when) }, func() error {
				dir, done := impl.MkTemp(c.Scratch())
				defer done()
				out := filepath.Join(dir, "out")
				if err := os.WriteFile(out, nil, 0o600); err != nil {
					return err
				}
				log := filepath.Join(dir, "trace")
				res := command(dir, "strace", "-f", "-qq", "-o", log, "-P", out, "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:error=EIO:when=%d", call, when), hangover, same, "-export", out, r.pb, r.nq)
				c.Trans(1)
				l, _ := os.ReadFile(log)
				if !bytes.Contains(l, []byte("(INJECTED)")) {
					if when == 1 {
						return fmt.Errorf("no %s of the file took place: exit status %d, %s", call, res.code, tail(res.stderr))
					}
					return good(res, out)
				}
				c.Nontrivial()
				c.Add("failing calls", 1)
				return bad(res)
			})
		}
	}
}

var traces = map[bool]bool{}

// tracing says if system calls of own processes can be intercepted.
func tracing() bool {
	if ok, known := traces[true]; known {
		return ok
	}
	r := command("/", "strace", "-f", "-qq", "-o", "/dev/null", "-P", "/dev/full", "-e", "trace=openat", "-e", "inject=openat:error=EIO:when=1", "/bin/cat", "/dev/full")
	traces[true] = r.code == 1 && !r.timeout
	return traces[true]
}

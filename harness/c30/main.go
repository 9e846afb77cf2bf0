// Command c30 uses the desktop application without a display.
package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"fyne.io/fyne/v2/test"
	"fyne.io/fyne/v2/widget"
	"github.com/FAU-CDI/hangover"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	timpl "github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
)

const (
	k   = "http://x/"
	typ = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
)

var pb = ref.PB{Name: "desk", Bundles: []ref.Bundle{{ID: "ba", Path: []string{k + "A"}, Fields: []ref.Field{
	{ID: "fl", Path: []string{k + "A"}, Datatype: k + "w", Type: "text_long"},
	{ID: "fi", Path: []string{k + "A"}, Datatype: k + "i", Type: "image"},
	{ID: "fr", Path: []string{k + "A", k + "r", k + "B"}, Datatype: k + "v"},
}}}}

var stmts = []ref.Stmt{
	{S: k + "q", P: "http://same/1", O: k + "a"}, // http://same/1 and http://inv/1 may be made use of
	{S: k + "r", P: "http://inv/1", O: k + "ri"},
	{S: k + "a", P: typ, O: k + "A"},
	{S: k + "a", P: k + "w", O: `<p>see <a href="http://x/wisski/get?uri=http%3A%2F%2Fx%2Fa">this</a></p>`, Lit: true},
	{S: k + "a", P: k + "i", O: "http://x/i.png", Lit: true},
	{S: k + "q", P: typ, O: k + "A"},
	{S: k + "q", P: k + "w", O: "q", Lit: true},
	{S: k + "b", P: typ, O: k + "B"},
	{S: k + "b", P: k + "ri", O: k + "a"},
	{S: k + "b", P: k + "v", O: "v", Lit: true},
}

var targets = vw.Targets([]string{"ba"}, []string{k + "a", k + "q"})

// settings are what the user enters.
type settings struct {
	pb, nq, addr           string
	html, images           bool
	public, same, inv, tip string
}

func (s settings) flags() (f viewer.RenderFlags) {
	f.HTMLRender, f.ImageRender, f.PublicURL, f.TipsyURL = s.html, s.images, s.public, s.tip
	words := func(text string) (out []impl.Label) {
		for _, w := range strings.Fields(text) {
			out = append(out, impl.Label(w))
		}
		return
	}
	f.Predicates = sparkl.Predicates{SameAs: words(s.same), InverseOf: words(s.inv)}
	return
}

func (d *desk) enterAll(s settings) error {
	for _, e := range [][2]string{{".nq' file", s.nq}, {"Pathbuilder to load", s.pb}, {"Address", s.addr}, {"SameAs", s.same}, {"InverseOf", s.inv}, {"Public URL", s.public}, {"TIPSY", s.tip}} {
		if err := d.enter(e[0], e[1]); err != nil {
			return err
		}
	}
	if err := d.tick("HTML", s.html); err != nil {
		return err
	}
	if err := d.tick("images", s.images); err != nil {
		return err
	}
	drain()
	return nil
}

// source offers a pathbuilder for downloading.
type source struct {
	l     sync.Mutex
	gate  chan bool // if set, the answer is made when told if it is a proper one
	asked chan struct{}
	srv   *http.Server
	url   string
}

func newSource() (*source, error) {
	s := &source{}
	addr := freshAddr()
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	s.url = "http://" + addr
	s.srv = &http.Server{Handler: s}
	go s.srv.Serve(l)
	return s, nil
}

// arm makes downloads from now on wait.
func (s *source) arm() {
	s.l.Lock()
	defer s.l.Unlock()
	s.gate, s.asked = make(chan bool, 100), make(chan struct{}, 100)
}

func (s *source) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.l.Lock()
	gate, asked := s.gate, s.asked
	s.l.Unlock()
	w.Header().Set("Connection", "close")
	if r.URL.Path != "/pb.xml" {
		http.NotFound(w, r)
		return
	}
	if gate != nil {
		asked <- struct{}{}
		if !<-gate {
			io.WriteString(w, "<pathbuilderinterface><path>")
			return
		}
	}
	io.WriteString(w, pb.XML())
}

// reference makes the viewer which should be seen.
func reference(s settings) (*viewer.Viewer, func(), igraph.Stats, error) {
	f := s.flags()
	v := viewer.NewViewer(io.Discard)
	g, err := glass.Create(s.pb, s.nq, "", f, v.Stats)
	if err != nil {
		return nil, nil, igraph.Stats{}, err
	}
	v.RenderFlags = f
	v.Prepare(g.Cache, &g.Pathbuilder)
	return v, func() { g.Close() }, v.Stats.IndexStats(), nil
}

func isLoading(url string) bool {
	return vw.Get(remote(url), "/api/v1").Header.Get("Retry-After") != ""
}

// running checks that the address of a server is displayed, and that it is the only one.
func (d *desk) running(addr string) error {
	want := "http://" + addr
	if err := eventually("the server is started", func() bool { return vw.Get(remote(want), "/api/v1").Code != 599 }); err != nil {
		return fmt.Errorf("%w: %s", err, d.logged())
	}
	drain()
	if got := d.url(); got != want {
		return fmt.Errorf("the address %q is displayed, not %q", got, want)
	}
	return nil
}

// settle gives what should not happen a chance to happen.
func settle() { time.Sleep(3 * time.Millisecond) }

// leave closes the window, and sees that nothing is left.
func (d *desk) leave(addr string, free bool) error {
	test.ZUserClose(d.w)
	return d.left(addr, free)
}

func (d *desk) left(addr string, free bool) error {
	if err := eventually("the application ends", d.ended); err != nil {
		return err
	}
	if !test.ZClosed(d.w) {
		return fmt.Errorf("the application ends with an open window")
	}
	if free && listening(addr) {
		return fmt.Errorf("the application has ended, but there is a server at %s", addr)
	}
	// what has been logged is on the console
	lines := strings.Split(strings.TrimSuffix(d.logged(), "\n"), "\n")
	if len(lines) > 1000 {
		lines = lines[len(lines)-1000:]
	}
	got := strings.Split(strings.TrimSuffix(consoleText(d.w.Content()), "\n"), "\n")
	for i := range lines {
		if i >= len(got) || strings.TrimRight(got[i], " ") != strings.TrimRight(lines[i], " ") {
			return fmt.Errorf("the console shows %q, what is logged is %q", got, lines)
		}
	}
	if len(got) != len(lines) {
		return fmt.Errorf("the console shows %q, what is logged is %q", got, lines)
	}
	return nil
}

// start presses the button.
// The function is called before.
func (d *desk) start(f func()) error {
	b, err := d.submit() // this may download things
	if err != nil {
		return err
	}
	if b.Disabled() {
		return fmt.Errorf("the settings are fine, but the button to start is disabled: %v", d.form.Validate())
	}
	if f != nil {
		f()
	}
	test.Tap(b)
	return nil
}

var interrupts = make(chan os.Signal, 1)

func main() {
	// no signal kills this process
	signal.Notify(interrupts, syscall.SIGINT)
	kit.Main(kit.Spec{
		NoRaces:  []string{"fyne.io/fyne"},
		Property: "C30", Level: "model_checking",
		Rule:      "the application runs with a display in memory. Every setting of the form is made in every combination, and what the server answers is compared to a viewer with these settings; every setting is made improper, one at a time; every sequence of up to a number of events (start, start again, a download being answered properly or not, visits, closing the window, interrupts) is played, and after each event the server, the window and the application must be in the proper state; the console is given every sequence of writes up to a length",
		HangAfter: 120e9,
	}, func(c *kit.Ctx) {
		combinations(c)
		improper(c)
		folders(c)
		moments(c)
		histories(c)
		consoles(c)
	})
}

// with runs something with a launched application.
func with(c *kit.Ctx, f func(d *desk, s settings) error) error {
	dir, done := timpl.MkTemp(c.Scratch())
	defer done()
	d, err := launch(dir)
	if err != nil {
		return err
	}
	defer d.over()
	return f(d, settings{
		pb: timpl.WriteFile(dir, "pb.xml", pb.XML()), nq: timpl.WriteFile(dir, "data.nq", ref.NQuads(stmts)), addr: freshAddr(),
		same: "http://same/1", inv: "http://inv/1", tip: "https://tipsy.example",
	})
}

func combinations(c *kit.Ctx) {
	for bits := 0; bits < 1<<6; bits++ {
		bits := bits
		c.Case(func() string { return fmt.Sprintf("settings %06b", bits) }, func() error {
			return with(c, func(d *desk, s settings) error {
				on := func(i int) bool { return bits>>i&1 != 0 }
				s.html, s.images = on(0), on(1)
				if on(2) {
					s.public = "http://x\nhttps://y.example/"
				}
				if on(3) {
					s.same = "http://other\n\nhttp://more"
				}
				if on(4) {
					s.inv = "http://same/1"
					s.same = "http://inv/1"
				}
				if on(5) {
					s.tip = ""
				}
				if err := d.enterAll(s); err != nil {
					return err
				}
				settle()
				if listening(s.addr) {
					return fmt.Errorf("there is a server before starting")
				}
				if err := d.start(nil); err != nil {
					return err
				}
				if err := d.running(s.addr); err != nil {
					return err
				}
				if err := d.loaded(s); err != nil {
					return err
				}
				c.Nontrivial()
				c.StateOf(fmt.Sprint(bits))
				return d.leave(s.addr, true)
			})
		})
	}
}

// trimmed removes space around headers, as a transport does.
type trimmed struct{ h http.Handler }

func (t trimmed) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	t.h.ServeHTTP(trimmedWriter{w}, r)
}

type trimmedWriter struct{ http.ResponseWriter }

func (t trimmedWriter) WriteHeader(code int) {
	for _, vs := range t.Header() {
		for i := range vs {
			vs[i] = strings.TrimSpace(vs[i])
		}
	}
	t.ResponseWriter.WriteHeader(code)
}

func (t trimmedWriter) Write(p []byte) (int, error) {
	t.WriteHeader(200)
	return t.ResponseWriter.Write(p)
}

// loaded waits until everything is loaded, and compares the answers.
func (d *desk) loaded(s settings) error {
	url := "http://" + s.addr
	if err := eventually("loading is over", func() bool { return !isLoading(url) }); err != nil {
		return fmt.Errorf("%w: %s", err, d.logged())
	}
	v, done, istats, err := reference(s)
	if err != nil {
		return err
	}
	defer done()
	if err := eventually("loading is reported", func() bool { return strings.Contains(d.logged(), "dataset loaded") }); err != nil {
		return err
	}
	shown := d.counts()
	for name, n := range map[string]uint64{"Direct Triples": istats.DirectTriples, "Datum Triples": istats.DatumTriples, "Masked Predicate Triples": istats.MaskedPredTriples,
		"Masked Data Triples": istats.MaskedDataTriples, "Inverse Triples": istats.InverseTriples, "Conflict Triples": istats.ConflictTriples} {
		if shown[name] != fmt.Sprint(n) {
			return fmt.Errorf("the number of %s is %d, displayed is %q", name, n, shown)
		}
	}
	return vw.SameUnordered(remote(url), trimmed{v}, targets)
}

func improper(c *kit.Ctx) {
	src, err := newSource()
	if err != nil {
		panic(err)
	}
	type change struct {
		what string
		f    func(s *settings, dir string)
	}
	var all []change
	add := func(what string, f func(s *settings, dir string)) { all = append(all, change{what, f}) }
	for _, v := range []string{"", "nosuch", "/", "."} {
		v := v
		add(fmt.Sprintf("triplestore export %q", v), func(s *settings, dir string) { s.nq = v })
		add(fmt.Sprintf("pathbuilder %q", v), func(s *settings, dir string) { s.pb = v })
	}
	add("triplestore export to download", func(s *settings, dir string) { s.nq = src.url + "/pb.xml" })
	add("triplestore export is a folder", func(s *settings, dir string) { s.nq = dir })
	add("pathbuilder is a folder", func(s *settings, dir string) { s.pb = dir })
	add("pathbuilder is a link to nothing", func(s *settings, dir string) {
		s.pb = filepath.Join(dir, "dangling")
		os.Symlink("nosuch", s.pb)
	})
	add("download that does not exist", func(s *settings, dir string) { s.pb = src.url + "/other" })
	add("download without a server", func(s *settings, dir string) { s.pb = "http://" + freshAddr() + "/pb.xml" })
	for _, v := range []string{"", "x", "127.0.0.1", ":", "127.0.0.1:", "127.0.0.1:x", "127.0.0.1:65536", "127.0.0.1:-1", "127.0.0.1:1:2", "::1:80", "127.0.0.1:http"} {
		v := v
		add(fmt.Sprintf("address %q", v), func(s *settings, dir string) { s.addr = v })
	}
	for _, v := range []string{"x", "ftp://x", "//x", "javascript:alert(1)", " https://x", "http:/x"} {
		v := v
		add(fmt.Sprintf("tipsy %q", v), func(s *settings, dir string) { s.tip = v })
	}
	for _, ch := range all {
		for _, first := range []bool{false, true} {
			ch, first := ch, first
			c.Case(func() string { return fmt.Sprintf("%s, proper before: %v", ch.what, first) }, func() error {
				return with(c, func(d *desk, s settings) error {
					bad := s
					ch.f(&bad, filepath.Dir(s.nq))
					if first {
						if err := d.enterAll(s); err != nil {
							return err
						}
					}
					if err := d.enterAll(bad); err != nil {
						return err
					}
					b, err := d.submit()
					if err != nil {
						return err
					}
					if !b.Disabled() && d.form.Validate() == nil {
						return fmt.Errorf("these settings can be started")
					}
					test.Tap(b)
					settle()
					if d.find() != d.form || d.ended() || listening(s.addr) {
						return fmt.Errorf("the settings are not shown any more")
					}
					// and now they are corrected
					if err := d.enterAll(s); err != nil {
						return err
					}
					if err := d.start(nil); err != nil {
						return err
					}
					if err := d.running(s.addr); err != nil {
						return err
					}
					c.Nontrivial()
					return d.leave(s.addr, true)
				})
			})
		}
	}
}

// folders chooses folders with all sets of files.
func folders(c *kit.Ctx) {
	names := []string{"a.nq", "b.nq", "a.xml", "b.xml", "c.txt"}
	for bits := 0; bits < 1<<len(names); bits++ {
		for _, filled := range []bool{false, true} {
			bits, filled := bits, filled
			c.Case(func() string { return fmt.Sprintf("folder with files %05b, settings made before: %v", bits, filled) }, func() error {
				return with(c, func(d *desk, s settings) error {
					home, err := os.UserHomeDir()
					if err != nil {
						return err
					}
					for i, n := range names {
						if bits>>i&1 != 0 {
							text := ref.NQuads(stmts)
							if strings.HasSuffix(n, ".xml") {
								text = pb.XML()
							}
							timpl.WriteFile(home, n, text)
						}
					}
					want := s
					if filled {
						if err := d.enterAll(s); err != nil {
							return err
						}
					} else {
						want.nq, want.pb = "", ""
					}
					if err := d.chooseFolder(); err != nil {
						return err
					}
					found := false
					if nq, xml, _, err := hangover.FindSource(false, home); err == nil {
						want.nq, want.pb = nq, xml
						found = true
					}
					for _, e := range [][2]string{{".nq' file", want.nq}, {"Pathbuilder to load", want.pb}} {
						w, err := input[*widget.Entry](d, e[0])
						if err != nil {
							return err
						}
						if w.Text != e[1] {
							return fmt.Errorf("after choosing the folder %q is shown, not %q", w.Text, e[1])
						}
					}
					c.Nontrivial()
					if !found {
						return d.leave(s.addr, true)
					}
					if err := d.enter("Address", s.addr); err != nil {
						return err
					}
					drain()
					if err := d.start(nil); err != nil {
						return err
					}
					if err := d.running(s.addr); err != nil {
						return err
					}
					return d.leave(s.addr, true)
				})
			})
		}
	}
}

// histories plays all sequences of events.
func histories(c *kit.Ctx) {
	depth := kit.Pick(c, 3, 6)
	const events = "gfvxi"
	var rec func(h string)
	rec = func(h string) {
		for _, before := range []string{"s", "ss", "b", "p"} {
			if strings.Count(h, "g")+strings.Count(h, "f") > 1 || strings.Count(h, "x") > 2 || strings.Count(h, "i") > 2 || strings.Contains(h, "vv") {
				continue
			}
			if before != "s" && len(h) > depth-2 || before != "s" && before != "ss" && strings.ContainsAny(h, "gfv") {
				continue
			}
			h := before + h
			c.Case(func() string { return "events " + h }, func() error {
				return with(c, func(d *desk, s settings) error { return history(c, d, s, h) })
			})
		}
		if len(h) < depth {
			for _, e := range events {
				rec(h + string(e))
			}
		}
	}
	rec("")
}

// moments closes the window at every moment at which what closing it means has just changed.
func moments(c *kit.Ctx) {
	for n := 1; n <= 4; n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("closed when the window changed for the %d. time after start", n) }, func() error {
			return with(c, func(d *desk, s settings) error {
				if err := d.enterAll(s); err != nil {
					return err
				}
				button, err := d.submit()
				if err != nil {
					return err
				}
				done := make(chan struct{})
				var count atomic.Int32
				test.ZOnIntercept(d.w, func() {
					if count.Add(1) == int32(n) {
						test.ZUserClose(d.w)
						close(done)
					}
				})
				test.Tap(button)
				select {
				case <-done:
					c.Nontrivial()
					c.Trans(1)
				case <-time.After(time.Second / 2): // it did not change that often
					test.ZUserClose(d.w)
				}
				return d.left(s.addr, true)
			})
		})
	}
}

// history plays the events of h, which are:
// s start, b the address is in use, p the start is not pressed at all;
// g and f the download is answered, properly or not; v visit; x close; i interrupt
func history(c *kit.Ctx, d *desk, s settings, h string) error {
	src, err := newSource()
	if err != nil {
		return err
	}
	defer src.srv.Close()
	local := s.pb
	s.pb = src.url + "/pb.xml"
	if err := d.enterAll(s); err != nil {
		return err
	}
	url := "http://" + s.addr
	button, err := d.submit()
	if err != nil {
		return err
	}
	var (
		started, released, proper, cancelled, closed bool
		busy                                         net.Listener
	)
	for i, e := range h {
		c.Trans(1)
		switch e {
		case 'p':
		case 'b':
			if busy, err = net.Listen("tcp", s.addr); err != nil {
				return err
			}
			defer busy.Close()
			if err := d.start(nil); err != nil {
				return err
			}
			if err := eventually("that the address is in use is reported", func() bool { return strings.Contains(d.logged(), "address already in use") }); err != nil {
				return err
			}
			if u := d.url(); u != "" {
				return fmt.Errorf("the address %s is displayed, but it is in use by something else", u)
			}
		case 's':
			if started {
				test.Tap(button)
			} else if err := d.start(src.arm); err != nil {
				return err
			}
			started = true
			if i+1 < len(h) && h[i+1] == 's' {
				continue
			}
			if err := d.running(s.addr); err != nil {
				return err
			}
			select {
			case <-src.asked:
			case <-time.After(patience):
				return fmt.Errorf("nothing is loaded: %s", d.logged())
			}
			if strings.Contains(d.logged(), "in use") {
				return fmt.Errorf("a second server was started: %s", d.logged())
			}
		case 'g', 'f':
			proper = e == 'g'
			released = true
			src.gate <- proper
			if proper && !cancelled {
				if err := eventually("loading is over", func() bool { return !isLoading(url) }); err != nil {
					return err
				}
			} else if !cancelled {
				if err := eventually("loading fails", func() bool { return strings.Contains(d.logged(), "unable to load") }); err != nil {
					return err
				}
			}
		case 'v':
			switch {
			case cancelled: // whatever
			case !released || !proper:
				for _, t := range []string{"/", "/bundle/ba", "/api/v1/bundle/ba", "/entity/ba?uri=http%3A%2F%2Fx%2Fa"} {
					r := vw.Get(remote(url), t)
					if r.Code == 599 && released {
						continue // nothing to see
					}
					if r.Code != 200 && r.Code != 503 || r.Header.Get("Retry-After") == "" || strings.Contains(r.Body, k+"a") {
						return fmt.Errorf("%s before anything is loaded: %d %.300q", t, r.Code, r.Body)
					}
				}
			default:
				l := s
				l.pb = local
				if err := d.loaded(l); err != nil {
					return err
				}
			}
		case 'x':
			test.ZUserClose(d.w)
			cancelled, closed = true, true
		case 'i':
			if err := syscall.Kill(os.Getpid(), syscall.SIGINT); err != nil {
				return err
			}
			<-interrupts // now everybody knows
			if !cancelled && busy == nil && !started {
				closed = true // before anything was started
			}
			if busy == nil {
				cancelled = true
			}
			if !closed {
				settle() // it is not there right away
			}
		}
		if err := d.state(s.addr, started, released, cancelled, closed, busy != nil); err != nil {
			return fmt.Errorf("after event %d: %w; log: %s", i, err, d.logged())
		}
	}
	// finally
	if started && !released {
		src.gate <- true
	}
	c.Nontrivial()
	c.StateOf(fmt.Sprint(started, released, proper, cancelled, closed, busy != nil))
	if err := d.leave(s.addr, busy == nil); err != nil {
		return fmt.Errorf("%w; log: %s", err, d.logged())
	}
	if busy != nil {
		if !listening(s.addr) {
			return fmt.Errorf("the other server is gone")
		}
	}
	return nil
}

// state checks a state.
func (d *desk) state(addr string, started, released, cancelled, closed, busy bool) error {
	if busy {
		if !closed && d.ended() {
			return fmt.Errorf("the application has ended")
		}
		return nil
	}
	switch {
	case !started && !closed:
		if listening(addr) {
			return fmt.Errorf("there is a server before starting")
		}
	case started && !cancelled && !released:
		if !listening(addr) {
			return fmt.Errorf("there is no server")
		}
	case started && cancelled && released:
		if err := eventually("the server is stopped", func() bool { return !listening(addr) }); err != nil {
			return err
		}
	}
	if closed && (!started || released) {
		return eventually("the application ends", d.ended)
	}
	if !closed && d.ended() {
		return fmt.Errorf("the application has ended by itself")
	}
	return nil
}

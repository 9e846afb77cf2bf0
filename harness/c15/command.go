package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/zverif/conc"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
)

// commands runs the real server: it has to answer while the pathbuilder can not be opened.
func commands(c *kit.Ctx) {
	for _, s := range conc.Sites() {
		for _, cached := range []bool{false, true} {
			s, cached := s, cached
			c.Case(func() string { return fmt.Sprintf("command: %s, cache %v", s.Name, cached) }, func() error {
				c.Nontrivial()
				return command(c, s, cached)
			})
		}
	}
}

func get(addr, t string) (vw.Response, error) {
	client := http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	res, err := client.Get("http://" + addr + t)
	if err != nil {
		return vw.Response{}, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	h := res.Header
	h.Del("Date")
	h.Del("Content-Length")
	return vw.Response{Code: res.StatusCode, Header: h, Body: string(b)}, err
}

func command(c *kit.Ctx, s *conc.Site, cached bool) error {
	if err := s.Load(); err != nil {
		return err
	}
	dir, done := impl.MkTemp(c.Scratch())
	defer done()
	pb, nq := impl.WriteFile(dir, "pb.xml", s.World.PB.XML()), impl.WriteFile(dir, "data.nq", ref.NQuads(s.Stmts))
	// a lease holds back everyone who opens the file
	gate, err := os.OpenFile(pb, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer gate.Close()
	if _, _, errno := syscall.Syscall(syscall.SYS_FCNTL, gate.Fd(), syscall.F_SETLEASE, syscall.F_WRLCK); errno != 0 {
		c.Note("a lease on a file is not possible: " + errno.Error())
		return kit.Skip
	}
	// find a port
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	addr := l.Addr().String()
	l.Close()

	exe, err := os.Executable()
	if err != nil {
		return err
	}
	args := []string{"-addr", addr, "-footer", "the footer", "-sameas", strings.Join(s.World.Same, ","), "-inverseof", strings.Join(s.World.Inverse, ","), "-public", s.Flags.PublicURL, "-tipsy", s.Flags.TipsyURL}
	for f, on := range map[string]bool{"-html": s.Flags.HTMLRender, "-images": s.Flags.ImageRender, "-strict-csp": s.Flags.StrictCSP} {
		if on {
			args = append(args, f)
		}
	}
	if cached {
		if err := os.Mkdir(filepath.Join(dir, "cache"), 0o700); err != nil {
			return err
		}
		args = append(args, "-cache", filepath.Join(dir, "cache"))
	}
	cmd := exec.Command(filepath.Join(filepath.Dir(exe), "hangover"), append(args, pb, nq)...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return err
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	stopped := false
	stop := func() string {
		if !stopped {
			stopped = true
			cmd.Process.Kill()
			<-exited
		}
		o := out.String()
		return o[max(0, len(o)-400):]
	}
	defer stop()
	alive := func() error {
		select {
		case err := <-exited:
			stopped = true
			return fmt.Errorf("the server ended (%v): %s", err, out.String())
		default:
			return nil
		}
	}

	// it accepts requests while loading
	begin := time.Now()
	for {
		con, err := net.Dial("tcp", addr)
		if err == nil {
			con.Close()
			break
		}
		if err := alive(); err != nil {
			return err
		}
		if time.Since(begin) > time.Minute {
			return fmt.Errorf("the server does not accept requests: %s", stop())
		}
		time.Sleep(5 * time.Millisecond)
	}
	ts := targets(s)
	for _, t := range ts {
		c.Trans(1)
		r, err := get(addr, t)
		if err != nil {
			return fmt.Errorf("while loading: %s: %v: %s", t, err, stop())
		}
		if r.Header.Get("Retry-After") == "" {
			return fmt.Errorf("while loading: %s: status %d without Retry-After", t, r.Code)
		}
		if api(t) != (r.Code == 503) || !api(t) && r.Code != 200 {
			return fmt.Errorf("while loading: %s: status %d", t, r.Code)
		}
		if i := strings.Index(r.Body, k); i >= 0 {
			return fmt.Errorf("while loading: %s: there is data: %q", t, r.Body[i:min(len(r.Body), i+50)])
		}
	}
	// now let it finish
	if _, _, errno := syscall.Syscall(syscall.SYS_FCNTL, gate.Fd(), syscall.F_SETLEASE, syscall.F_UNLCK); errno != 0 {
		return errno
	}
	gate.Close()
	begin = time.Now()
	for {
		r, err := get(addr, "/api/v1/progress")
		if err != nil {
			return fmt.Errorf("progress: %v: %s", err, stop())
		}
		var p stats.Progress
		if err := json.Unmarshal([]byte(r.Body), &p); err != nil {
			return fmt.Errorf("progress: %q: %v", r.Body, err)
		}
		if p.Done {
			break
		}
		if err := alive(); err != nil {
			return err
		}
		if time.Since(begin) > time.Minute {
			return fmt.Errorf("the server does not finish loading: %v: %s", p, stop())
		}
		time.Sleep(5 * time.Millisecond)
	}
	for _, t := range ts {
		c.Trans(1)
		r, err := get(addr, t)
		if err != nil {
			return fmt.Errorf("when done: %s: %v: %s", t, err, stop())
		}
		want, err := s.Answer(t)
		if err != nil {
			return err
		}
		want.Header = want.Header.Clone()
		for _, v := range want.Header {
			for i := range v {
				v[i] = strings.TrimSpace(v[i])
			}
		}
		if r.Header.Get("Retry-After") != "" {
			return fmt.Errorf("when done: %s: still loading", t)
		}
		if r.Code != want.Code || !cached && r.DiffersUnordered(want) != nil && s.Name != "same" {
			return fmt.Errorf("when done: %s: %v", t, r.DiffersUnordered(want))
		}
	}
	return alive()
}

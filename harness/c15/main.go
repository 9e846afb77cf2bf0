// Command c15 checks what is answered while the data is being loaded, and at the moment it is there.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os/signal"
	"strings"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/conc"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
	"github.com/FAU-CDI/hangover/zverif/vsched"
	"github.com/FAU-CDI/hangover/zverif/vsync"
)

const k = "http://x/"

// targets lists all content that is served about a site; nothing else is loading
func targets(s *conc.Site) (out []string) {
	for _, t := range s.Targets {
		if t == "/wisski/get" || t == "/about" || t == "/favicon.ico" || strings.HasSuffix(t, "/entity/") || t == "/bundle/" || strings.Contains(t, "/entity/") && !strings.Contains(t, "?uri=") {
			continue // nobody is there to answer
		}
		if t == "/tipsy" && s.Flags.TipsyURL == "" {
			continue
		}
		if strings.HasPrefix(t, "/wisski/navigate/") {
			t = "/wisski/navigate/" + t[len(t)-len("a/view"):] // a number of an entity, usually
		}
		out = append(out, t)
	}
	return
}

func api(t string) bool { return strings.HasPrefix(t, "/api/") }

// loading checks an answer while loading.
func loading(s *conc.Site, t string, r vw.Response) error {
	if r.Header.Get("Retry-After") == "" {
		return fmt.Errorf("%s: status %d without Retry-After", t, r.Code)
	}
	if r.Header.Get("Location") != "" || r.Header.Get("Content-Disposition") != "" {
		return fmt.Errorf("%s: header %v", t, r.Header)
	}
	if api(t) {
		if r.Code != 503 {
			return fmt.Errorf("%s: status %d, expected 503", t, r.Code)
		}
		if ct := r.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			return fmt.Errorf("%s: content type %q", t, ct)
		}
		var m struct {
			Message  string
			Progress *stats.Progress
		}
		if err := json.Unmarshal([]byte(r.Body), &m); err != nil || m.Message == "" || m.Progress == nil {
			return fmt.Errorf("%s: %q is no progress message", t, r.Body)
		}
		if m.Progress.Done {
			return fmt.Errorf("%s: the progress message %q says it is done", t, r.Body)
		}
		if err := progress(*m.Progress); err != nil {
			return fmt.Errorf("%s: %v", t, err)
		}
		return nil
	}
	if r.Code != 200 {
		return fmt.Errorf("%s: status %d, expected 200", t, r.Code)
	}
	if ct := r.Header.Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
		return fmt.Errorf("%s: content type %q", t, ct)
	}
	if !strings.Contains(strings.ToLower(r.Body), "loading") {
		return fmt.Errorf("%s: this is not the loading page: %.200q", t, r.Body)
	}
	if i := strings.Index(r.Body, k); i >= 0 {
		return fmt.Errorf("%s: the loading page has data: %q", t, r.Body[i:min(len(r.Body), i+50)])
	}
	if got, want := static(r.Body), static(page(s)); got != want {
		return fmt.Errorf("%s: the loading page is %q, another one %q", t, got, want)
	}
	return nil
}

// progress checks that a progress was there at some time.
func progress(p stats.Progress) error {
	switch [3]any{string(p.Stage), p.Current, p.Total} {
	case [3]any{"", 0, 0}, [3]any{"x", 0, 0}, [3]any{"x", 1, 2}, [3]any{string(stats.StageHandler), 0, 0}:
		return nil
	}
	return fmt.Errorf("there never was a progress of %v", p)
}

// static is what all loading pages have in common
func static(body string) string {
	n := vw.Parse(body)
	var b strings.Builder
	for _, e := range vw.Elements(n, "h1") {
		b.WriteString(vw.Text(e) + "\n")
	}
	for _, e := range vw.Elements(n, "main") {
		b.WriteString(vw.Text(e) + "\n")
	}
	for _, e := range vw.Elements(n, "footer") {
		b.WriteString(vw.Text(e) + "\n")
	}
	return vw.Squash(b.String())
}

var pages = map[string]string{}

// page is the page while nothing happens
func page(s *conc.Site) string {
	if _, ok := pages[s.Name]; !ok {
		pages[s.Name] = vw.Get(fresh(s), "/").Body
	}
	return pages[s.Name]
}

func fresh(s *conc.Site) *viewer.Viewer {
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = s.Flags
	v.Footer = "the footer"
	return v
}

// answer says if an answer is the data.
func answer(s *conc.Site, t string, r vw.Response) (data bool, err error) {
	alone, err := s.Answer(t)
	if err != nil {
		return false, err
	}
	if r.Header.Get("Retry-After") == "" {
		return true, alone.DiffersUnordered(r)
	}
	return false, loading(s, t, r)
}

var methods = []string{"GET", "HEAD", "POST"}

// histories checks all requests at all stages, one after the other
func history(c *kit.Ctx, s *conc.Site, t string) error {
	if err := s.Load(); err != nil {
		return err
	}
	u, err := url.Parse(t)
	if err != nil {
		return err
	}
	steps := []func(v *viewer.Viewer){
		func(v *viewer.Viewer) { v.Stats.Start("x") },
		func(v *viewer.Viewer) { v.Stats.SetCT(1, 2) },
		func(v *viewer.Viewer) { v.Stats.End() },
		func(v *viewer.Viewer) { v.Stats.Log("message") },
	}
	ready, err := s.Viewer()
	if err != nil {
		return err
	}
	for i := 0; i <= len(steps); i++ {
		for _, m := range methods {
			v := fresh(s)
			c.Trans(i + 3)
			alone := vw.DoMethod(ready, m, u)
			if alone.Header.Get("Retry-After") != "" {
				return fmt.Errorf("%s: still loading when done: %v", t, alone)
			}
			for _, f := range steps[:i] {
				f(v)
			}
			for n := 0; n < 2; n++ {
				r := vw.DoMethod(v, m, u)
				if err := loading(s, t, r); err != nil {
					return fmt.Errorf("%s in stage %d: %v", m, i, err)
				}
			}
			cache, pb, err := s.Parts()
			if err != nil {
				return err
			}
			v.Prepare(cache, pb)
			for n := 0; n < 2; n++ {
				if err := alone.DiffersUnordered(vw.DoMethod(v, m, u)); err != nil {
					return fmt.Errorf("%s %s: when done after stage %d: %v", m, t, i, err)
				}
			}
			v.Prepare(nil, nil) // happens once
			v.Stats.Start("x")
			if err := alone.DiffersUnordered(vw.DoMethod(v, m, u)); err != nil {
				return fmt.Errorf("%s %s: when prepared again: %v", m, t, err)
			}
		}
	}
	return nil
}

// during sends requests (several at the same time, each several after each other) while the data is handed over.
func during(c *kit.Ctx, s *conc.Site, stages bool, delays, first, every int, groups [][]string) error {
	if err := s.Load(); err != nil {
		return err
	}
	for _, g := range groups {
		for _, t := range g {
			if _, err := s.Answer(t); err != nil {
				return err
			}
			page(s)
		}
	}
	var got [][]vw.Response
	cache, pb, err := s.Parts()
	if err != nil {
		return err
	}
	known := map[string]bool{} // what was checked, and if it was data
	answer := func(t string, r vw.Response) (bool, error) {
		key := fmt.Sprintln(t, r.Code, r.Header, r.Body)
		if data, ok := known[key]; ok {
			return data, nil
		}
		data, err := answer(s, t, r)
		if err == nil {
			known[key] = data
		}
		return data, err
	}
	both := map[bool]int{}
	res, err := vsched.Explore(vsched.Options{Delays: delays, DPOR: true, Budget: 200 * time.Second}, func() {
		v := fresh(s)
		got = make([][]vw.Response, len(groups)+1)
		var wg vsync.WaitGroup
		for i := range groups {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				defer wg.Done()
				for _, t := range groups[i] {
					got[i] = append(got[i], conc.Serve(v, t, &conc.Recorder{First: first, Every: every}))
				}
			})
		}
		if stages {
			v.Stats.DoStage("x", func() error { v.Stats.SetCT(1, 2); return nil })
			v.Stats.DoStage(stats.StageHandler, func() error {
				v.Prepare(cache, pb)
				return nil
			})
		} else {
			v.Prepare(cache, pb)
		}
		// now it is done
		t := groups[0][0]
		got[len(groups)] = append(got[len(groups)], conc.Serve(v, t, &conc.Recorder{}))
		wg.Wait()
	}, func() error {
		for i, g := range groups {
			last := false
			for j, t := range g {
				if t == "/api/v1/progress" {
					var p stats.Progress
					if err := json.Unmarshal([]byte(got[i][j].Body), &p); err != nil {
						return fmt.Errorf("%s: %q: %v", t, got[i][j].Body, err)
					}
					if !p.Done {
						if err := progress(p); err != nil {
							return err
						}
						if last {
							return fmt.Errorf("%s: it was done already, but now is not: %v", t, p)
						}
					}
					last = last || p.Done
					continue
				}
				data, err := answer(t, got[i][j])
				if err != nil {
					return fmt.Errorf("while the data is handed over: %v", err)
				}
				both[data]++
				if last && !data {
					return fmt.Errorf("%s: loading, although a request before was answered", t)
				}
				last = data
			}
		}
		t := groups[0][0]
		if t == "/api/v1/progress" {
			return nil
		}
		data, err := answer(t, got[len(groups)][0])
		if err == nil && !data {
			err = fmt.Errorf("%s: still loading, when done", t)
		}
		return err
	})
	c.Trans(res.Steps)
	c.Add("schedules", int64(res.Executions))
	c.Add("programs", 1)
	if err != nil {
		return err
	}
	if !res.Complete || res.Delays < delays {
		c.Trunc("not all schedules of some requests were explored")
	}
	if both[true] > 0 && both[false] > 0 {
		c.Nontrivial()
	}
	return nil
}

func main() {
	signal.Ignore(syscall.SIGIO) // told to the holder of a lease
	kit.Main(kit.Spec{
		Property: "C15",
		Level:    "model_checking",
		Rule:     "all requests to all content of small sites in every stage of loading and after it; and each of them (alone, several after each other, several at the same time) together with the stages and the hand-over, under all schedules up to equivalence (dynamic partial order reduction) and all schedules with at most one (two) delays that may interrupt the writing of an answer anywhere, every execution with the race detector; and the command itself with a pathbuilder that is held back",
		Assumptions: []string{
			"between two synchronisation operations and interruptions a thread runs alone (sound as long as there is no data race, which the race detector checks in every execution)",
		},
		HangAfter: 900 * time.Second,
	}, func(c *kit.Ctx) {
		sites := conc.Sites()
		for _, s := range sites {
			for _, t := range targets(s) {
				s, t := s, t
				c.Case(func() string { return fmt.Sprintf("in order: %s: %s", s.Name, t) }, func() error {
					c.Nontrivial()
					c.StateOf(s.Name + t)
					return history(c, s, t)
				})
			}
		}
		for _, s := range sites {
			for _, t := range targets(s) {
				s, t := s, t
				c.Case(func() string { return fmt.Sprintf("during: %s: %s", s.Name, t) }, func() error {
					c.StateOf(s.Name + t)
					return during(c, s, false, 1, kit.Pick(c, 10, 1000), kit.Pick(c, 8, 1), [][]string{{t}})
				})
				if strings.Contains(t, "nosuch") {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("during: %s: %s, more often", s.Name, t) }, func() error {
					c.StateOf(s.Name + t)
					return during(c, s, true, kit.Pick(c, 1, 2), 1, kit.Pick(c, 0, 10), [][]string{{t}})
				})
				for _, u := range []string{"/", "/api/v1", "/api/v1/bundle/ba", "/api/v1/progress", "/entity/ba?uri=" + url.QueryEscape(k+"a")} {
					u := u
					c.Case(func() string { return fmt.Sprintf("during: %s: %s, then %s", s.Name, t, u) }, func() error {
						return during(c, s, c.Deep(), kit.Pick(c, 1, 2), 1, 0, [][]string{{t, u}})
					})
					c.Case(func() string { return fmt.Sprintf("during: %s: %s, then %s", s.Name, u, t) }, func() error {
						return during(c, s, c.Deep(), kit.Pick(c, 1, 2), 1, 0, [][]string{{u, t}})
					})
					c.Case(func() string { return fmt.Sprintf("during: %s: %s || %s", s.Name, t, u) }, func() error {
						return during(c, s, c.Deep(), kit.Pick(c, 1, 2), 1, 0, [][]string{{t}, {u}})
					})
				}
			}
		}
		commands(c)
	})
}

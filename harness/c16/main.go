// C16: paging.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
)

type page struct {
	code     int
	uris     []string
	from, to int
	total    int
	links    map[string]string // First, Prev, Next, Last
}

type site struct {
	v      *viewer.Viewer
	bundle string
	n      int
	order  []string
	pos    map[string]int
	pages  map[string]*page
}

func newSite(bundle string, n int) (*site, error) {
	pb := ref.PB{Bundles: []ref.Bundle{{ID: bundle, Path: []string{"http://c/A"}}, {ID: "other", Path: []string{"http://c/B"}}}}
	var ents []wisski.Entity
	for i := 0; i < n; i++ {
		ents = append(ents, wisski.Entity{URI: impl.Label(fmt.Sprintf("http://e/%d", i*7919%n))})
	}
	cache, err := vw.Cache(map[string][]wisski.Entity{bundle: ents, "other": {{URI: "http://e/other"}}}, nil)
	if err != nil {
		return nil, err
	}
	s := &site{bundle: bundle, n: n, pos: map[string]int{}, pages: map[string]*page{}}
	s.v = vw.Viewer(cache, impl.Pathbuilder(pb), viewer.RenderFlags{})
	// the api fixes the order
	res := vw.Get(s.v, "/api/v1/bundle/"+url.PathEscape(bundle))
	if res.Code != 200 {
		return nil, fmt.Errorf("bundle api answers %d", res.Code)
	}
	if err := json.Unmarshal([]byte(res.Body), &s.order); err != nil {
		return nil, fmt.Errorf("bundle api: %v", err)
	}
	got := append([]string{}, s.order...)
	sort.Strings(got)
	var want []string
	for _, e := range ents {
		want = append(want, string(e.URI))
	}
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return nil, fmt.Errorf("bundle api lists %d entities, not exactly the %d of the bundle", len(got), n)
	}
	return s, nil
}

var reRange = regexp.MustCompile(`Items? (\d+)(?: - (\d+))? of (\d+)`)

func (s *site) get(target string) (*page, error) {
	if p, ok := s.pages[target]; ok {
		return p, nil
	}
	res := vw.Get(s.v, target)
	p := &page{code: res.Code, links: map[string]string{}}
	s.pages[target] = p
	if res.Code != 200 {
		return p, nil
	}
	doc := vw.Parse(res.Body)
	for _, m := range reRange.FindAllStringSubmatch(vw.Squash(vw.Text(doc)), -1) {
		from, _ := strconv.Atoi(m[1])
		to := from
		if m[2] != "" {
			to, _ = strconv.Atoi(m[2])
		}
		total, _ := strconv.Atoi(m[3])
		if p.from != 0 && (p.from != from || p.to != to || p.total != total) {
			return nil, fmt.Errorf("%s: two different ranges on one page", target)
		}
		p.from, p.to, p.total = from, to, total
	}
	for _, a := range vw.Elements(doc, "a") {
		href := vw.Attr(a, "href")
		switch t := vw.Squash(vw.Text(a)); t {
		case "First", "Prev", "Next", "Last":
			abs, err := vw.Resolve(res.URL, href)
			if err != nil {
				return nil, err
			}
			if old, ok := p.links[t]; ok && old != abs {
				return nil, fmt.Errorf("%s: two different %s links", target, t)
			}
			p.links[t] = abs
		default:
			if strings.HasPrefix(href, "/entity/") {
				p.uris = append(p.uris, t)
			}
		}
	}
	return p, nil
}

// check checks that a page shows the entities [skip, skip+limit) of n, and its links.
func (s *site) check(target string, skip, limit int) error {
	p, err := s.get(target)
	if err != nil {
		return err
	}
	if p.code != 200 {
		return fmt.Errorf("%s answers %d", target, p.code)
	}
	end := ref.Min(skip+limit, s.n)
	if strings.Join(p.uris, "\n") != strings.Join(s.order[skip:end], "\n") {
		return fmt.Errorf("%s: shows %v, want %v", target, p.uris, s.order[skip:end])
	}
	if p.from != skip+1 || p.to != end || p.total != s.n {
		return fmt.Errorf("%s: displays %d - %d of %d, want %d - %d of %d", target, p.from, p.to, p.total, skip+1, end, s.n)
	}
	earlier, later := skip > 0, end < s.n
	for _, l := range []struct {
		name string
		want bool
		hold int // position of the entity the page has to hold
	}{{"First", earlier, 0}, {"Prev", earlier, skip - 1}, {"Next", later, end}, {"Last", later, s.n - 1}} {
		href, ok := p.links[l.name]
		if ok != l.want {
			return fmt.Errorf("%s (of %d): link %s present: %v, want %v", target, s.n, l.name, ok, l.want)
		}
		if !ok {
			continue
		}
		q, err := s.get(href)
		if err != nil {
			return err
		}
		if q.code != 200 || len(q.uris) == 0 {
			return fmt.Errorf("%s (of %d): link %s to %s answers %d with %d entities", target, s.n, l.name, href, q.code, len(q.uris))
		}
		found := false
		for _, u := range q.uris {
			found = found || u == s.order[l.hold]
		}
		if !found {
			return fmt.Errorf("%s (of %d): link %s to %s does not hold entity number %d (it shows %d - %d)", target, s.n, l.name, href, l.hold+1, q.from, q.to)
		}
		if l.name == "First" && q.uris[0] != s.order[0] {
			return fmt.Errorf("%s: First leads to %s, which does not start at the first entity", target, href)
		}
		if l.name == "Next" && q.uris[0] != s.order[end] {
			return fmt.Errorf("%s: Next leads to %s, which does not start at the next entity", target, href)
		}
	}
	return nil
}

// walk follows the next links.
func (s *site) walk(target string) error {
	var seen []string
	for i := 0; ; i++ {
		p, err := s.get(target)
		if err != nil {
			return err
		}
		if p.code != 200 {
			return fmt.Errorf("walk: %s answers %d", target, p.code)
		}
		seen = append(seen, p.uris...)
		next, ok := p.links["Next"]
		if !ok {
			break
		}
		if i > s.n {
			return fmt.Errorf("walk from %s does not end", target)
		}
		target = next
	}
	if strings.Join(seen, "\n") != strings.Join(s.order, "\n") {
		return fmt.Errorf("walk from %s shows %d entities, not every one of the %d exactly once", target, len(seen), s.n)
	}
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C16", Level: "model_checking",
		Rule: "for every number of entities up to the bound (and around the default and maximal page sizes) and every page size, the page at every offset is requested: entities, range, total, presence of links, and the page every link leads to are compared with the list, and the next links are followed from the first page; invalid parameters in all combinations from a list, for several bundle names",
	}, func(c *kit.Ctx) {
		sites := map[string]*site{}
		get := func(bundle string, n int) (*site, error) {
			k := fmt.Sprint(bundle, n)
			if s, ok := sites[k]; ok {
				return s, nil
			}
			if len(sites) > 40 {
				sites = map[string]*site{}
			}
			s, err := newSite(bundle, n)
			if err == nil {
				sites[k] = s
			}
			return s, err
		}
		one := func(bundle string, n, limit int, skips []int) {
			c.Case(func() string { return fmt.Sprintf("bundle %q with %d entities, page size %d", bundle, n, limit) }, func() error {
				s, err := get(bundle, n)
				if err != nil {
					return err
				}
				base := "/bundle/" + url.PathEscape(bundle)
				at := func(skip int) string { return fmt.Sprintf("%s?limit=%d&skip=%d", base, limit, skip) }
				if err := s.walk(at(0)); err != nil {
					return err
				}
				for _, skip := range skips {
					if skip < n {
						if err := s.check(at(skip), skip, limit); err != nil {
							return err
						}
					} else if p, err := s.get(at(skip)); err != nil || p.code != 404 {
						return fmt.Errorf("%s (of %d): answers %d %v, want 404", at(skip), n, p.code, err)
					}
					c.StateOf(fmt.Sprint(n, limit, skip))
				}
				c.Trans(len(s.pages))
				s.pages = map[string]*page{}
				return nil
			})
		}
		max := kit.Pick(c, 34, 64)
		for n := 1; n <= max; n++ {
			var skips []int
			for k := 0; k <= n+2; k++ {
				skips = append(skips, k)
			}
			for limit := 1; limit <= n+2; limit++ {
				one("b", n, limit, skips)
			}
		}
		around := func(x, n int) (out []int) {
			for d := -2; d <= 2; d++ {
				if x+d >= 0 {
					out = append(out, x+d)
				}
			}
			return
		}
		for _, n := range []int{99, 100, 101, 199, 200, 201, 250, 300, 999, 1000, 1001, 2000, 2001} {
			for _, limit := range []int{1, 2, 50, 99, 100, 101, 999, 1000} {
				if n/limit > 300 && !c.Deep() {
					continue
				}
				skips := []int{0, 1, 2}
				for _, x := range []int{limit, 2 * limit, n - limit, n, n / limit * limit} {
					skips = append(skips, around(x, n)...)
				}
				one("b", n, limit, skips)
			}
			c.Case(func() string { return fmt.Sprintf("%d entities, no parameters", n) }, func() error {
				s, err := get("b", n)
				if err != nil {
					return err
				}
				defer func() { s.pages = map[string]*page{} }()
				if err := s.check("/bundle/b", 0, 100); err != nil {
					return err
				}
				return s.walk("/bundle/b")
			})
		}
		for _, name := range []string{"b x", "b+1", "b&c", "ü", "b%41", "b?x", "b#y", "b;z", "b=1", "b\"q", "<i>", "b'", "b,c", "b:d", "b@e"} {
			for n := 1; n <= 7; n++ {
				for limit := 1; limit <= 4; limit++ {
					one(name, n, limit, []int{0, 1, 2, 3, 4, 5, 6, 7, 8})
				}
			}
		}
		// invalid parameters: each falls back to its default, or both do, or the answer is 404
		vals := []string{"", "0", "-1", "1", "3", "007", "+2", "1.5", "abc", "1e2", "1000", "1001", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551616", "%20", "1 ", "٣", "-0", "0x1"}
		for _, n := range []int{1, 5, 101, 1005} {
			for _, lim := range append([]string{"-"}, vals...) {
				for _, sk := range append([]string{"-"}, vals...) {
					c.Case(func() string { return fmt.Sprintf("%d entities, limit=%q skip=%q", n, lim, sk) }, func() error {
						s, err := get("b", n)
						if err != nil {
							return err
						}
						defer func() { s.pages = map[string]*page{} }()
						var q []string
						if lim != "-" {
							q = append(q, "limit="+url.QueryEscape(lim))
						}
						if sk != "-" {
							q = append(q, "skip="+url.QueryEscape(sk))
						}
						target := "/bundle/b?" + strings.Join(q, "&")
						p, err := s.get(target)
						if err != nil {
							return err
						}
						limits, limOK := allowed(lim, 1, 1000, 100)
						skips, skOK := allowed(sk, 0, 1<<62, 0)
						if limOK && skOK { // plain valid numbers: exactly this page
							limits, skips = limits[:1], skips[:1]
							if skips[0] >= n {
								if p.code != 404 {
									return fmt.Errorf("%s (of %d) answers %d, want 404", target, n, p.code)
								}
								return nil
							}
							return s.check(target, skips[0], limits[0])
						}
						if p.code == 404 {
							return nil
						}
						var last error
						for _, l := range limits {
							for _, k := range skips {
								if k >= n {
									continue
								}
								if last = s.check(target, k, l); last == nil {
									return nil
								}
							}
						}
						return fmt.Errorf("no fall back fits: %v", last)
					})
				}
			}
		}
		for _, target := range []string{"/bundle/nope", "/bundle/nope?limit=1&skip=0", "/api/v1/bundle/nope", "/bundle/"} {
			c.Case(func() string { return target }, func() error {
				s, err := get("b", 3)
				if err != nil {
					return err
				}
				if res := vw.Get(s.v, target); res.Code != 404 {
					return fmt.Errorf("%s answers %d", target, res.Code)
				}
				return nil
			})
		}
	})
}

// allowed returns the values a parameter may be taken for, and whether it is a plain valid number.
func allowed(s string, min, max, def int) ([]int, bool) {
	plain := s != "" && s != "-"
	for _, r := range s {
		plain = plain && r >= '0' && r <= '9'
	}
	n, err := strconv.Atoi(s)
	if plain && err == nil && n >= min && n <= max {
		return []int{n, def}, s == strconv.Itoa(n)
	}
	out := []int{def}
	if n, err := strconv.Atoi(strings.TrimSpace(s)); err == nil && n >= min && n <= max {
		out = append(out, n)
	}
	return out, false
}

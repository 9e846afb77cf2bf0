// C17: addresses lead to entity pages.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
	"golang.org/x/net/html"
)

const (
	clsA, clsB = "http://c/A", "http://c/B"
	pred       = "http://p/p"
)

func pathbuilder() ref.PB {
	return ref.PB{Bundles: []ref.Bundle{
		{ID: "ba", Path: []string{clsA}, Fields: []ref.Field{{ID: "fr", Path: []string{clsA, pred, clsB}, Type: "entity_reference"}}},
		{ID: "bb", Path: []string{clsB}},
		{ID: "empty", Path: []string{"http://c/none"}},
	}}
}

// page describes an entity page.
type page struct {
	canon   string
	aliases []string
	path    string
	links   []link
}
type link struct{ href, text string }

func fold(s string) string {
	return vw.Squash(strings.NewReplacer("\x00", "\uFFFD", "\r", "\n").Replace(s))
}

func parse(res vw.Response) (p page) {
	p.path = res.URL.Path
	doc := vw.Parse(res.Body)
	for _, h := range vw.Elements(doc, "h1") {
		p.canon = fold(vw.Text(h))
	}
	in := false
	vw.All(doc, func(n *html.Node) {
		if n.Type != html.ElementNode {
			return
		}
		switch {
		case n.Data == "h2":
			in = vw.Squash(vw.Text(n)) == "Aliases"
		case n.Data == "li" && in:
			p.aliases = append(p.aliases, fold(vw.Text(n)))
		case n.Data == "a":
			p.links = append(p.links, link{vw.Attr(n, "href"), fold(vw.Text(n))})
		}
	})
	sort.Strings(p.aliases)
	return
}

type want struct {
	class   []string // all names
	bundles []string // bundles which contain it
}

func isPage(p page, w want) error {
	var others []string
	found := false
	for _, n := range w.class {
		if !found && fold(n) == p.canon {
			found = true
			continue
		}
		others = append(others, fold(n))
	}
	sort.Strings(others)
	if !found {
		return fmt.Errorf("shows the page of %q, which is none of %q", p.canon, w.class)
	}
	if strings.Join(others, "\n") != strings.Join(p.aliases, "\n") {
		return fmt.Errorf("page of %q lists the aliases %q, want %q", p.canon, p.aliases, others)
	}
	for _, b := range w.bundles {
		if p.path == "/entity/"+b {
			return nil
		}
	}
	return fmt.Errorf("page %q is not in one of the bundles %q", p.path, w.bundles)
}

// follow follows a target and checks the page it ends at.
func follow(v *viewer.Viewer, target string, w want) error {
	res, hops, err := vw.Follow(v, target)
	if err != nil {
		return err
	}
	if res.Code != 200 {
		return fmt.Errorf("%s answers %d after %d redirects", target, res.Code, hops)
	}
	if err := isPage(parse(res), w); err != nil {
		return fmt.Errorf("%s: %v", target, err)
	}
	return nil
}

func is404(v *viewer.Viewer, target string) error {
	res, _, err := vw.Follow(v, target)
	if err != nil {
		return err
	}
	if res.Code != 404 {
		return fmt.Errorf("%s answers %d, want 404", target, res.Code)
	}
	return nil
}

var allBundles = []string{"ba", "bb", "empty", "nope"}

// known checks everything about one name.
func known(v *viewer.Viewer, name string, w want) error {
	for _, q := range []string{url.QueryEscape(name), strings.ReplaceAll(url.PathEscape(name), "+", "%2B")} {
		if strings.ContainsAny(q, "&;=") && q != url.QueryEscape(name) {
			q = url.QueryEscape(name)
		}
		if err := follow(v, "/wisski/get?uri="+q, w); err != nil {
			return err
		}
	}
	q := url.QueryEscape(name)
	for _, b := range allBundles {
		in := false
		for _, x := range w.bundles {
			in = in || x == b
		}
		if !in {
			for _, pre := range []string{"/entity/", "/api/v1/entity/", "/api/v1/turtle/", "/api/v1/ntriples/"} {
				if err := is404(v, pre+b+"?uri="+q); err != nil {
					return err
				}
			}
			continue
		}
		one := want{w.class, []string{b}}
		if err := follow(v, "/entity/"+b+"?uri="+q, one); err != nil {
			return err
		}
		res := vw.Get(v, "/api/v1/entity/"+b+"?uri="+q)
		var e struct{ URI string }
		if err := json.Unmarshal([]byte(res.Body), &e); res.Code != 200 || err != nil {
			return fmt.Errorf("entity api of %q answers %d: %v", name, res.Code, err)
		}
		ok := false
		for _, n := range w.class {
			ok = ok || n == e.URI
		}
		if !ok {
			return fmt.Errorf("entity api of %q answers %q", name, e.URI)
		}
	}
	return nil
}

func unknown(v *viewer.Viewer, name string) error {
	q := url.QueryEscape(name)
	if err := is404(v, "/wisski/get?uri="+q); err != nil {
		return err
	}
	for _, b := range allBundles {
		if err := is404(v, "/entity/"+b+"?uri="+q); err != nil {
			return err
		}
		if err := is404(v, "/api/v1/entity/"+b+"?uri="+q); err != nil {
			return err
		}
	}
	return nil
}

// links follows the links of a bundle page.
func links(v *viewer.Viewer, bundle string, of func(text string) (want, bool)) error {
	res := vw.Get(v, "/bundle/"+bundle+"?limit=1000&skip=0")
	if res.Code != 200 {
		return fmt.Errorf("bundle page answers %d", res.Code)
	}
	for _, l := range parse(res).links {
		if !strings.HasPrefix(l.href, "/entity/") {
			continue
		}
		w, ok := of(l.text)
		if !ok {
			return fmt.Errorf("bundle page links to %q, which is no entity", l.text)
		}
		if err := follow(v, l.href, want{w.class, []string{bundle}}); err != nil {
			return fmt.Errorf("bundle page: %v", err)
		}
	}
	return nil
}

func typ(s, c string) ref.Stmt    { return ref.Stmt{S: s, P: ref.Type, O: c} }
func same(a, b string) ref.Stmt   { return ref.Stmt{S: a, P: ref.SameAs, O: b} }
func lnk(a, p, b string) ref.Stmt { return ref.Stmt{S: a, P: p, O: b} }

func load(stmts []ref.Stmt, flags viewer.RenderFlags) (*viewer.Viewer, error) {
	v, _, err := vw.Load(impl.Load{PB: impl.Pathbuilder(pathbuilder()), Mask: true, Same: []string{ref.SameAs}, Stmts: stmts}, flags)
	return v, err
}

func main() {
	kit.Main(kit.Spec{
		Property: "C17", Level: "model_checking",
		Rule: "every address http://x/<suffix> with all suffixes over a critical alphabet up to a length, each with an alias, all linked by reference fields, is followed from the resolver, the bundle page, reference fields and the entity page in every bundle; all subsets of type and identity statements about four names (both statement orders) with all names and their unknown neighbours followed; all listed public address configurations with navigate addresses under every scheme, host and prefix",
	}, func(c *kit.Ctx) {
		addresses(c)
		structures(c)
		navigate(c)
	})
}

func addresses(c *kit.Ctx) {
	var single []string
	for r := rune(0x21); r < 0x7f; r++ {
		single = append(single, string(r))
	}
	single = append(single, " ", "\u00a0", "é", "\u2028", "😀", "%2F", "%%", "%25", "%zz", "&amp;", "&uri=http://x/", "../", "//", "javascript:", "e\u0301")
	crit := []string{"a", "%", "&", "+", "#", "?", "/", ";", "=", ":", "\"", "'", "<", ">", "\\", "é", " ", "."}
	var sets [][]string
	sets = append(sets, single)
	var rec func(prefix string, n int)
	var words []string
	rec = func(prefix string, n int) {
		if n == 0 {
			if prefix == " " || strings.Trim(prefix, " ") == prefix && !strings.Contains(prefix, "  ") { // pages do not show such spaces
				words = append(words, prefix)
			}
			return
		}
		for _, s := range crit {
			rec(prefix+s, n-1)
		}
	}
	rec("", 2)
	rec("", 1)
	if c.Deep() {
		rec("", 3)
	}
	for len(words) > 0 {
		k := ref.Min(24, len(words))
		sets = append(sets, words[:k])
		words = words[k:]
	}
	for _, base := range []string{"http://x/", "urn:x:"} {
		for _, set := range sets {
			set := set
			c.Case(func() string { return fmt.Sprintf("addresses %s with %q", base, set) }, func() error {
				var stmts []ref.Stmt
				ws := map[string]want{}
				byText := map[string]want{}
				var names []string
				for i, s := range set {
					n, al := base+s, "http://alias/"+s
					w := want{[]string{n, al}, []string{"ba", "bb"}}
					if i%3 == 0 {
						w.class = w.class[:1]
					}
					for _, x := range w.class {
						ws[x] = w
						byText[fold(x)] = w
						names = append(names, x)
					}
					stmts = append(stmts, typ(n, clsA), typ(w.class[len(w.class)-1], clsB), lnk(n, pred, base+set[(i+1)%len(set)]))
					if len(w.class) > 1 {
						stmts = append(stmts, same(n, al))
					}
				}
				v, err := load(stmts, viewer.RenderFlags{})
				if err != nil {
					return err
				}
				of := func(t string) (want, bool) { w, ok := byText[t]; return w, ok }
				for _, b := range []string{"ba", "bb"} {
					if err := links(v, b, of); err != nil {
						return err
					}
				}
				for _, n := range names {
					if err := known(v, n, ws[n]); err != nil {
						return err
					}
					c.StateOf(n)
					c.Trans(1)
					// reference fields
					res, _, err := vw.Follow(v, "/entity/ba?uri="+url.QueryEscape(n))
					if err != nil {
						return err
					}
					refs := 0
					for _, l := range parse(res).links {
						if strings.HasPrefix(l.href, "/wisski/get") {
							refs++
							w, ok := of(l.text)
							if !ok {
								return fmt.Errorf("%q refers to %q, which is no entity", n, l.text)
							}
							if err := follow(v, l.href, w); err != nil {
								return fmt.Errorf("reference field of %q: %v", n, err)
							}
						}
					}
					if refs != 1 {
						return fmt.Errorf("page of %q has %d references", n, refs)
					}
					// neighbours
					for _, m := range []string{n + "~", n + "/", "_" + n, strings.ToUpper(n), n[:len(n)-1], url.QueryEscape(n), strings.ReplaceAll(n, "+", "a"), strings.ReplaceAll(n, "http:", "https:")} {
						t := strings.TrimSpace(m)
						if _, ok := ws[m]; ok || m == "" {
							continue
						}
						if _, ok := ws[t]; ok {
							continue
						}
						if err := unknown(v, m); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
}

// structures explores all alias structures over four names.
func structures(c *kit.Ctx) {
	n := []string{"http://x/1", "http://x/2", "http://x/3", "http://x/4"}
	universe := []ref.Stmt{typ(n[0], clsA), typ(n[1], clsA), typ(n[1], clsB), typ(n[2], clsB), typ(n[3], clsA),
		same(n[0], n[1]), same(n[1], n[2]), same(n[2], n[0]), same(n[2], n[3]), same(n[0], n[0]), lnk(n[3], pred, n[0])}
	if c.Deep() {
		universe = append(universe, same(n[1], n[0]), same(n[3], n[0]), typ(n[0], clsB))
	}
	for mask := 0; mask < 1<<len(universe); mask++ {
		for _, rev := range []bool{false, true} {
			mask, rev := mask, rev
			c.Case(func() string { return fmt.Sprintf("structure %b reversed %v", mask, rev) }, func() error {
				var stmts []ref.Stmt
				for i, s := range universe {
					if mask>>i&1 == 1 {
						stmts = append(stmts, s)
					}
				}
				if rev {
					for i, j := 0, len(stmts)-1; i < j; i, j = i+1, j-1 {
						stmts[i], stmts[j] = stmts[j], stmts[i]
					}
				}
				v, err := load(stmts, viewer.RenderFlags{})
				if err != nil {
					return err
				}
				// classes
				cls := map[string]string{}
				for _, x := range n {
					cls[x] = x
				}
				for range n {
					for _, s := range stmts {
						if s.P == ref.SameAs {
							a, b := cls[s.S], cls[s.O]
							if a > b {
								a, b = b, a
							}
							for k, r := range cls {
								if r == b {
									cls[k] = a
								}
							}
						}
					}
				}
				of := func(x string) (want, bool) {
					var w want
					in := map[string]bool{}
					for _, y := range n {
						if cls[y] == cls[x] {
							w.class = append(w.class, y)
							for _, s := range stmts {
								if s.P == ref.Type && s.S == y {
									in[map[string]string{clsA: "ba", clsB: "bb"}[s.O]] = true
								}
							}
						}
					}
					for b := range in {
						w.bundles = append(w.bundles, b)
					}
					sort.Strings(w.bundles)
					return w, len(w.bundles) > 0
				}
				for _, x := range n {
					w, ok := of(x)
					if ok {
						err = known(v, x, w)
					} else {
						err = unknown(v, x)
					}
					if err != nil {
						return err
					}
					c.StateOf(fmt.Sprint(w))
					c.Trans(1)
				}
				for _, x := range []string{"http://x/", "http://x/11", ref.SameAs, clsA, pred, "x"} {
					if err := unknown(v, x); err != nil {
						return err
					}
				}
				for _, b := range []string{"ba", "bb"} {
					for _, x := range n {
						if w, _ := of(x); strings.Contains(strings.Join(w.bundles, " "), b) {
							if err := links(v, b, of); err != nil {
								return err
							}
							break
						}
					}
				}
				return nil
			})
		}
	}
}

// navigate explores the original system's addresses.
func navigate(c *kit.Ctx) {
	type cfg struct {
		public string
		bases  []string // without scheme
	}
	cfgs := []cfg{
		{"", nil},
		{"http://h", []string{"h"}}, {"https://h", []string{"h"}}, {"http://h/", []string{"h"}}, {"https://h/", []string{"h"}},
		{"http://h:8080/", []string{"h:8080"}}, {"http://h/sub", []string{"h/sub"}}, {"http://h/sub/", []string{"h/sub"}}, {"https://h/a/b/", []string{"h/a/b"}},
		{"http://h,http://g", []string{"h", "g"}}, {"http://h\nhttps://g/sub", []string{"h", "g/sub"}}, {" http://h , https://g/ ,", []string{"h", "g"}}, {",\n,http://g", []string{"g"}},
		{"http://h,http://g,http://i/x,https://j", []string{"h", "g", "i/x", "j"}},
	}
	bases := []string{"h", "g", "h:8080", "h/sub", "g/sub", "h/a/b", "h/a", "i/x", "j", "k"}
	ids := []string{"1", "2", "10", "007", "12345678901234567890"}
	for _, cf := range cfgs {
		for _, scheme := range []string{"http", "https"} {
			for _, base := range bases {
				for _, viaAlias := range []bool{false, true} {
					cf, scheme, base, viaAlias := cf, scheme, base, viaAlias
					c.Case(func() string {
						return fmt.Sprintf("public %q, entities below %s://%s, alias %v", cf.public, scheme, base, viaAlias)
					}, func() error {
						var stmts []ref.Stmt
						ws := map[string]want{}
						for i, id := range ids[:len(ids)-1] {
							uri := scheme + "://" + base + "/wisski/navigate/" + id + "/view"
							w := want{[]string{uri}, []string{"ba"}}
							if viaAlias {
								other := fmt.Sprint("http://real/", id)
								w.class = append(w.class, other)
								stmts = append(stmts, same(uri, other), typ(other, clsA))
							} else {
								stmts = append(stmts, typ(uri, clsA))
							}
							if i == 1 {
								w.bundles = append(w.bundles, "bb")
								stmts = append(stmts, typ(uri, clsB))
							}
							ws[id] = w
						}
						v, err := load(stmts, viewer.RenderFlags{PublicURL: cf.public})
						if err != nil {
							return err
						}
						conf := false
						for _, b := range cf.bases {
							conf = conf || b == base
						}
						for _, id := range ids {
							target := "/wisski/navigate/" + id + "/view"
							w, ok := ws[id]
							if ok && conf {
								err = follow(v, target, w)
							} else {
								err = is404(v, target)
							}
							if err != nil {
								return err
							}
							c.Trans(1)
						}
						c.StateOf(fmt.Sprint(cf, scheme, base))
						return nil
					})
				}
			}
		}
	}
	// several entities for one navigate address: one of them
	for _, public := range []string{"http://h", "https://h,http://g", "http://g/\nhttp://h/"} {
		public := public
		c.Case(func() string { return fmt.Sprintf("public %q, same id in every scheme and host", public) }, func() error {
			var all []string
			var stmts []ref.Stmt
			for _, p := range []string{"http://h", "https://h", "http://g", "https://g"} {
				uri := p + "/wisski/navigate/1/view"
				stmts = append(stmts, typ(uri, clsA))
				if strings.Contains(public, p[len(p)-3:]) {
					all = append(all, uri)
				}
			}
			v, err := load(stmts, viewer.RenderFlags{PublicURL: public})
			if err != nil {
				return err
			}
			var last error
			for _, uri := range all {
				if last = follow(v, "/wisski/navigate/1/view", want{[]string{uri}, []string{"ba"}}); last == nil {
					return nil
				}
			}
			return last
		})
	}
}

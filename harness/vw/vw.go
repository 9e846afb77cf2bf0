// Package vw drives the viewer's http handler in-process.
package vw

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"golang.org/x/net/html"
)

// Cache makes a cache like the application does.
func Cache(bundles map[string][]wisski.Entity, identity map[string]string) (*sparkl.Cache, error) {
	ident := imap.MakeMemory[impl.Label, impl.Label](0)
	for a, b := range identity {
		if err := ident.Set(impl.Label(a), impl.Label(b)); err != nil {
			return nil, err
		}
	}
	c, err := sparkl.NewCache(bundles, &ident, nil)
	return &c, err
}

// Viewer makes a viewer which is ready to serve.
func Viewer(cache *sparkl.Cache, pb *pathbuilder.Pathbuilder, flags viewer.RenderFlags) *viewer.Viewer {
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = flags
	v.Footer = "the footer"
	v.Prepare(cache, pb)
	return v
}

// Load loads data and makes a viewer of it.
func Load(l impl.Load, flags viewer.RenderFlags) (*viewer.Viewer, impl.Loaded, error) {
	ld, err := l.Run()
	if err != nil {
		return nil, ld, err
	}
	c, err := Cache(ld.Bundles, ld.Identity)
	if err != nil {
		return nil, ld, err
	}
	return Viewer(c, l.PB, flags), ld, nil
}

// Response is an answer.
type Response struct {
	Code   int
	Header http.Header
	Body   string
	URL    *url.URL
}

// Get sends one request.
func Get(h http.Handler, target string) Response {
	u, err := url.Parse(target)
	if err != nil {
		panic(fmt.Sprintf("bad request url %q: %v", target, err))
	}
	return Do(h, u)
}

// Do sends one request.
func Do(h http.Handler, u *url.URL) Response { return DoMethod(h, "GET", u) }

// DoMethod sends one request.
func DoMethod(h http.Handler, method string, u *url.URL) Response {
	r := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost", RequestURI: u.RequestURI(), Body: http.NoBody}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return Response{w.Code, w.Result().Header, w.Body.String(), u}
}

// Follow sends a request and follows redirects like a browser.
func Follow(h http.Handler, target string) (Response, int, error) {
	u, err := url.Parse(target)
	if err != nil {
		return Response{}, 0, err
	}
	for hop := 0; hop < 10; hop++ {
		res := Do(h, u)
		if res.Code < 300 || res.Code >= 400 {
			return res, hop, nil
		}
		loc, err := url.Parse(res.Header.Get("Location"))
		if err != nil {
			return res, hop, fmt.Errorf("bad location %q: %v", res.Header.Get("Location"), err)
		}
		if loc.Host != "" || loc.Scheme != "" {
			return res, hop, fmt.Errorf("redirected away to %q", loc)
		}
		u = u.ResolveReference(loc)
	}
	return Response{}, 10, fmt.Errorf("too many redirects from %q", target)
}

// Parse parses a page.
func Parse(body string) *html.Node {
	n, err := html.Parse(strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	return n
}

// All visits all nodes in document order.
func All(n *html.Node, f func(*html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		All(c, f)
	}
}

// Elements returns all elements of a name.
func Elements(n *html.Node, name string) (out []*html.Node) {
	All(n, func(n *html.Node) {
		if n.Type == html.ElementNode && n.Data == name {
			out = append(out, n)
		}
	})
	return
}

// Attr returns an attribute.
func Attr(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}

// Text returns the text of a node.
func Text(n *html.Node) string {
	var b strings.Builder
	All(n, func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
	})
	return b.String()
}

// Squash trims and normalises ASCII white space.
func Squash(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' || r == '\r' }), " ")
}

// Resolve resolves a link of a page.
func Resolve(base *url.URL, href string) (string, error) {
	u, err := url.Parse(href)
	if err != nil {
		return "", err
	}
	return base.ResolveReference(u).String(), nil
}

// Targets lists the addresses of all content about the given bundles and uris.
func Targets(bundles, uris []string) (out []string) {
	out = append(out, "/", "/pathbuilder", "/api/v1", "/tipsy", "/wisski/get", "/entity/", "/bundle/")
	for _, b := range append([]string{"nosuch"}, bundles...) {
		e := url.PathEscape(b)
		out = append(out, "/bundle/"+e, "/bundle/"+e+"?limit=1&skip=0", "/bundle/"+e+"?limit=2&skip=1", "/api/v1/bundle/"+e, "/entity/"+e, "/api/v1/entity/"+e)
		for _, u := range uris {
			q := "?uri=" + url.QueryEscape(u)
			for _, p := range []string{"/entity/", "/api/v1/entity/", "/api/v1/ntriples/", "/api/v1/turtle/"} {
				out = append(out, p+e+q)
			}
		}
	}
	for _, u := range uris {
		out = append(out, "/wisski/get?uri="+url.QueryEscape(u), "/wisski/navigate/"+url.PathEscape(u)+"/view")
	}
	return
}

// Same compares the answers of two handlers.
func Same(a, b http.Handler, targets []string) error {
	for _, t := range targets {
		x, y := Get(a, t), Get(b, t)
		if err := x.Differs(y); err != nil {
			return fmt.Errorf("%s: %v", t, err)
		}
	}
	return nil
}

// SameUnordered is like Same, except that the lines and list elements of an answer may have any order:
// the order of the aliases and triples of an entity is not the same in two loads of the same data.
func SameUnordered(a, b http.Handler, targets []string) error {
	for _, t := range targets {
		if err := Get(a, t).DiffersUnordered(Get(b, t)); err != nil {
			return fmt.Errorf("%s: %v", t, err)
		}
	}
	return nil
}

// DiffersUnordered is like Differs, except that lines and list elements may have any order.
func (x Response) DiffersUnordered(y Response) error {
	if x.Differs(y) == nil {
		return nil
	}
	x.Body, y.Body = sortLines(x.Body), sortLines(y.Body)
	return x.Differs(y)
}

func sortLines(body string) string {
	var v any
	d := json.NewDecoder(strings.NewReader(body))
	d.UseNumber()
	if d.Decode(&v) == nil && !d.More() {
		b, _ := json.Marshal(sortValue(v))
		return string(b)
	}
	var lines []string
	for _, l := range strings.Split(body, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			lines = append(lines, l)
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// sortValue orders lists, and drops empty elements of objects: not having a value, and having none, is the same.
func sortValue(v any) any {
	switch v := v.(type) {
	case map[string]any:
		for k := range v {
			v[k] = sortValue(v[k])
			switch w := v[k].(type) {
			case map[string]any:
				if len(w) == 0 {
					delete(v, k)
				}
			case []any:
				if len(w) == 0 {
					delete(v, k)
				}
			case nil:
				delete(v, k)
			}
		}
	case []any:
		keys := make([]string, len(v))
		for i := range v {
			v[i] = sortValue(v[i])
			b, _ := json.Marshal(v[i])
			keys[i] = string(b)
		}
		sort.Sort(byKey{keys, v})
	}
	return v
}

type byKey struct {
	keys   []string
	values []any
}

func (b byKey) Len() int           { return len(b.keys) }
func (b byKey) Less(i, j int) bool { return b.keys[i] < b.keys[j] }
func (b byKey) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.values[i], b.values[j] = b.values[j], b.values[i]
}

// Differs compares two answers.
func (x Response) Differs(y Response) error {
	if x.Code != y.Code {
		return fmt.Errorf("status %d, and %d", x.Code, y.Code)
	}
	for _, h := range []map[string][]string{x.Header, y.Header} {
		for k := range h {
			if fmt.Sprint(x.Header[k]) != fmt.Sprint(y.Header[k]) {
				return fmt.Errorf("header %s is %q, and %q", k, x.Header[k], y.Header[k])
			}
		}
	}
	if x.Body != y.Body {
		i := 0
		for i < len(x.Body) && i < len(y.Body) && x.Body[i] == y.Body[i] {
			i++
		}
		cut := func(s string) string { return s[max(0, i-60):min(len(s), i+60)] }
		return fmt.Errorf("body …%q…, and …%q…", cut(x.Body), cut(y.Body))
	}
	return nil
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
